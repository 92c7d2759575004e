"""setup: nothing has to be built ahead of time (every check builds from /repo's working tree); this verifies that the tools are there"""
import shutil, sys, subprocess
ok = True
for t in ('clang++', 'python3-vt', 'cvc5'):
    if not shutil.which(t): print('missing', t); ok = False
r = subprocess.run(['python3-vt', '-c', 'import z3; print(z3.get_version_string())'], capture_output=True, text=True)
print(r.stdout.strip(), r.stderr.strip()); ok = ok and r.returncode == 0
sys.exit(0 if ok else 1)
