#!/bin/bash
# development helper: runs the repository's tests, prints the number passed and the failures
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 -c "
import json;d=json.load(open('/tmp/t.json'));print(len(d['passed']),d['failed'])"
