#!/usr/bin/env python3
"""mkseed.py FILE: writes planted bugs into /verif/seeded from a description (by hand, never by a check).
FILE holds blocks:  @@ id property / needs: ... / breaks: ... / edit: path, then lines '<<<' old '===' new '>>>' (repeatable) / demo: C++ to the end of the block."""
import sys, os, subprocess, json, re
V = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated case; nonzero: it does not.  cwd: /repo, after the build
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
find _build/example -name '*.o' ! -name '*test_*' ! -path '*S2E_SAMPLE*' ! -path '*INIH*' > "$w/objs"
ar rcs "$w/libs2e.a" $(cat "$w/objs") || exit 3
g++ -std=c++17 -w -O1 -fno-access-control EXTRAFLAGS -Isrc -IExtLibraries -I"$d" "$d/demo.cpp" -o "$w/demo" "$w/libs2e.a" "$w/libs2e.a" _build/example/ExtLibraries/inih/libINIH.a || exit 3
cd "$w" && timeout 200 ./demo
'''
txt = open(sys.argv[1]).read()
for blk in re.split(r'^@@ ', txt, flags=re.M)[1:]:
    head, rest = blk.split('\n', 1)
    sid, prop = head.split()[:2]
    flags = ' '.join(head.split()[2:])
    meta, demo = rest.split('\ndemo:\n', 1)
    needs = re.search(r'^needs: (.*)$', meta, re.M).group(1); breaks = re.search(r'^breaks: (.*)$', meta, re.M).group(1)
    edits = re.findall(r'^edit: (\S+)\n<<<\n(.*?)\n===\n(.*?)\n>>>', meta, re.M | re.S)
    assert edits, sid
    files = {}
    for p, old, new in edits:
        s = files.get(p) or open('/repo/' + p).read()
        assert s.count(old) == 1, (sid, p, s.count(old), old)
        files[p] = s.replace(old, new)
    orig = {p: open('/repo/' + p).read() for p in files}
    try:
        for p, s in files.items(): open('/repo/' + p, 'w').write(s)
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout
    finally:
        for p, s in orig.items(): open('/repo/' + p, 'w').write(s)
    d = V + '/' + sid; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.cpp', 'w').write(demo.strip() + '\n')
    for h in re.findall(r'#include ["<]([^">]+)[">]', demo):
        if os.path.exists('/verif/tools/demo/' + h): open(d + '/' + h, 'w').write(open('/verif/tools/demo/' + h).read())
    if '"environment/local/local_celestial_information.cpp"' in demo: open(d + '/SpiceUsr.h', 'w').write(open('/verif/tools/demo/SpiceUsr.h').read())
    open(d + '/demo.sh', 'w').write(DEMO.replace('EXTRAFLAGS', flags)); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', sid)
