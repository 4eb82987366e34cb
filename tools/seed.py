"""Creates seeded/<id>/ from a description: seed(id, prop, file, [(old, new)], needs, breaks, demo C++ body)."""
import os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the behaviour is right; run with cwd /repo after the build
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
inc=$(find "$r/core/lib" "$r/ext/lib" -type d | sed 's/^/-I/')
g++ -std=c++11 -w -fno-access-control -I"$r/_build/generated" $inc "$d/demo.cpp" -o "$t/demo" -L"$r/_build" -lgpstk -Wl,-rpath,"$r/_build" || exit 3
cd "$t" && timeout 120 ./demo
'''
def seed(id, prop, file, reps, needs, breaks, demo):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    files = [(file, reps)] if isinstance(file, str) else list(zip(file, reps))
    diff = ''
    for f, rs in files:
        p = '/repo/' + f; s = open(p, errors='surrogateescape', newline='').read(); n = s
        for a, b in rs:
            if '\r\n' in s: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            assert n.count(a) == 1, (id, f, n.count(a), a)
            n = n.replace(a, b)
        open('/tmp/seed.new', 'w', errors='surrogateescape', newline='').write(n)
        r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, p, '/tmp/seed.new'], stdout=subprocess.PIPE)
        diff += r.stdout.decode(errors='surrogateescape')
    open(d + '/patch.diff', 'w', errors='surrogateescape', newline='').write(diff)
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(demo.strip() + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
