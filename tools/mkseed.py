"""mkseed(id, property, edits, demo, needs, breaks): makes seeded/<id> after confirming the demo in a scratch copy
(the stable tests are confirmed by tools/seedtests.sh and vcheck)."""
import os, subprocess, tempfile, shutil, json, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# cwd: the repository. exit 0: holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++17 -stdlib=libc++ -include "$d/scalar_prefix.h" -I "$PWD" -msse4.2 -mavx2 -w -O1 %s "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''


def mkseed(id, prop, edits, demo, needs, breaks, flags=''):
    t = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        out = os.path.join(V, 'seeded', id)
        os.makedirs(out, exist_ok=True)
        open(out + '/demo.cpp', 'w').write(demo)
        shutil.copy(V + '/lvc/scalar_prefix.h', out + '/scalar_prefix.h')
        open(out + '/demo.sh', 'w').write(DEMO_SH % flags)
        os.chmod(out + '/demo.sh', 0o755)
        r0 = subprocess.run(['bash', out + '/demo.sh'], cwd=t + '/r', capture_output=True, text=True)
        for f, old, new in edits:
            p = t + '/r/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.run(['git', 'diff'], cwd=t + '/r', capture_output=True, text=True).stdout
        open(out + '/patch.diff', 'w').write(d)
        r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=t + '/r', capture_output=True, text=True)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
        print(id, 'base', r0.returncode, 'patched', r1.returncode, (r0.stdout + r0.stderr)[-300:], '|', (r1.stdout + r1.stderr)[-300:])
        return r0.returncode == 0 and r1.returncode not in (0, 3)
    finally:
        shutil.rmtree(t)
