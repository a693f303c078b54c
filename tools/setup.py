"""setup_cmd: nothing needs to persist (every check builds what it needs from /repo); verifies that the toolchain is present."""
import shutil, sys
for t in ('clang++', 'g++', 'ninja', 'python3'):
    if not shutil.which(t):
        print('missing tool', t); sys.exit(1)
print('ok')
