#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props/*.txt (one property per file); run by hand, not by the checks"""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the LLVM IR of the real C++ functions (own VC generator; polynomial normal form, z3, cvc5)'
LEVEL = 'Every obligation generated from the current source is discharged for all inputs meeting the stated preconditions. Real arithmetic stands for floating point; contracts on callees replaced by their specification, and every other assumption, are listed in the evidence file.'
def design(props):
    o = [open(H + '/tools/design_head.md').read(), '## 2. Properties\n']
    for p in props:
        d = p['_d']; i = p['id']
        o.append('### %s %s' % (i, p['title']))
        o.append(d['statement'][0])
        if 'na' in d: o.append('**Not applicable:** ' + d['na'][0] + '\n'); continue
        fs = sorted(glob.glob(H + '/contracts/%s_*.cpp' % i)); roots = sum([re.findall(r'^PROP\((\w+)\)', open(f).read(), re.M) for f in fs], [])
        o.append('*Decided by* %s (%d contracts: %s). *Over* %s. ' % (', '.join('`%s`' % os.path.basename(f) for f in fs), len(roots), ', '.join(roots), d['quant'][0])
                 + (d['design'][0] + ' ' if 'design' in d else '') + ('*Limits:* ' + d['note'][0] if 'note' in d else '') + '\n')
    o.append(open(H + '/tools/design_tail.md').read())
    o.append('## 4. Planted bugs\n\nEach is in `seeded/<id>/` with a demonstration; "caught" is the result of `tools/seedtest.sh` at the last run.\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
    res = dict(l.rstrip('\n').split('\t', 1) for l in open(H + '/tools/seed_results.txt')) if os.path.exists(H + '/tools/seed_results.txt') else {}
    for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
        m = json.load(open(f)); k = f.split('/')[-2]
        o.append('| %s | %s | %s | %s |' % (k, m['property'], m['needs'].replace('|', '/'), res.get(k, 'not yet run')))
    open(H + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')

def main():
    props = []; checks = []; na = []
    for f in sorted(glob.glob(H + '/tools/props/*.txt')):
        d = {}; key = None
        for l in open(f):
            l = l.rstrip('\n')
            m = re.match(r'(\w+): ?(.*)', l)
            if m: key = m.group(1); d.setdefault(key, []).append(m.group(2))
            elif l.strip() and key: d[key][-1] += ' ' + l.strip()
        i = os.path.basename(f)[:-4]
        mech = []
        for x in d['mech']:
            n, w = x.rsplit('@', 1); mech.append({'name': n.strip(), 'where': w.strip()})
        p = {'id': i, 'title': d['title'][0], 'statement': d['statement'][0], 'quantifier': {'over': d['over'][0].split(), 'text': d['quant'][0]},
             'why_tests_cant': d['why'][0], 'anchors': {'files': sum([x.split() for x in d['files']], []), 'mechanism': mech}}
        assert len(p['title']) <= 80, i
        for fl in p['anchors']['files']: assert os.path.exists('/repo/' + fl), fl
        p['_d'] = d; props.append(p)
        if 'na' in d: na.append({'property': i, 'reason': d['na'][0]})
        else:
            checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py ' + i, 'technique': TECH, 'level': 'proof', 'level_note': (d['note'][0] + ' ' if 'note' in d else '') + LEVEL})
    design(props)
    for p in props: del p['_d']
    open(H + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in props))
    json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --setup', 'checks': checks, 'not_applicable': na}, open(H + '/MANIFEST.json', 'w'), indent=1)
    import subprocess
main()
