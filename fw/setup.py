#!/usr/bin/env python3
"""setup_cmd: nothing is built ahead (every check builds from /repo's working tree); checks that the tools are there."""
import shutil, subprocess, sys, tempfile, os
for t in ('g++', 'clang++', 'ar'):
    if not shutil.which(t):
        print('missing tool', t)
        sys.exit(2)
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'a.cpp')
    open(p, 'w').write('#include <vector>\nint main(int c,char**){std::vector<int> v(c);return v[0];}\n')
    for cmd in (['g++', '-mavx2', p, '-o', p + '.g'], ['clang++', '-mavx2', '-fsanitize=address,undefined', p, '-o', p + '.c'],
                ['clang++', '-fsanitize=thread', p, '-o', p + '.t']):
        subprocess.run(cmd, check=True)
        subprocess.run([cmd[-1]], check=True)
finally:
    shutil.rmtree(d)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ok')
