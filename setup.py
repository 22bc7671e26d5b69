#!/usr/bin/env python3
"""setup_cmd: there is nothing to install; makes sure the compilers the checks need are there"""
import os, shutil, sys
missing = [t for t in ('g++', 'clang++') if shutil.which(t) is None]
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
sys.exit('missing: %s' % missing if missing else 0)
