# development helper: fix.py FILE MSG <<< python list of (old, new) pairs; edits, tests, commits in /repo
import subprocess, sys, ast
p, msg = sys.argv[1:3]
p = '/repo/include/vecmath/' + p
s = o = open(p).read()
for a, b in ast.literal_eval(sys.stdin.read()):
    assert s.count(a) == 1, (a, s.count(a))
    s = s.replace(a, b)
open(p, 'w').write(s)
out = subprocess.check_output(['bash', '/verif/harness/rt.sh'], text=True)
print(out)
assert out.strip() == '396 []', 'tests fail'
subprocess.check_call(['git', '-C', '/repo', 'commit', '-qam', msg])
