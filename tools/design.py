#!/usr/bin/env python3
"""Refreshes the generated tables of DESIGN.md: harnesses and bounds (from the
directives above each harness) and planted bugs (from seeded/*/meta.json)."""
import re, glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def harnesses():
    out = {}
    for f in sorted(glob.glob(root + '/harness/*/*.go')):
        s = open(f).read()
        for m in re.finditer(r'((?://.*\n)+)func (HC\w+)\(', s):
            text = ' '.join(l[2:].strip() for l in m.group(1).splitlines())
            what, _, dirs = text.partition('verif:')
            what = what.strip()
            what = re.sub(r'^HC\w+:? *(runs|fills)?', lambda k: (k.group(1) or ''), what).strip()
            d = dict(x.split('=', 1) for x in dirs.split())
            b = []
            for k, v in d.items():
                if k in ('prop', 'reach', 'steps', 'timeout', 'samples', 'solverms') or k.startswith('thorough.'):
                    continue
                if k.startswith('quick.'):
                    k = k[6:]; t = d.get('thorough.' + k, v)
                    b.append(f'{k}={v}' + (f'/{t}' if t != v else ''))
                else:
                    b.append(f'{k}={v}')
            out.setdefault(d['prop'], []).append((m.group(2), what, ' '.join(b) or 'defaults', os.path.relpath(f, root)))
    return out
def main():
    p = root + '/DESIGN.md'
    s = open(p).read()
    H = harnesses()
    props = [json.loads(l) for l in open(root + '/properties.jsonl')]
    t = []
    for q in props:
        t.append(f"\n**{q['id']}: {q['title']}**\n")
        t.append('| harness | symbolic execution of | bounds (quick/thorough) |\n|---|---|---|')
        for n, w, b, f in sorted(H.get(q['id'], [])):
            t.append(f'| {n} | {w} | {b} |')
    s = re.sub(r'(<!-- harnesses -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n'.join(t) + '\n' + m.group(2), s, flags=re.S)
    t = ['| planted bug | property | needs |', '|---|---|---|']
    for d in sorted(glob.glob(root + '/seeded/*')):
        m = json.load(open(d + '/meta.json'))
        t.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
    s = re.sub(r'(<!-- seeded -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n'.join(t) + '\n' + m.group(2), s, flags=re.S)
    open(p, 'w').write(s)
main()
