"""Writes the per-property part of DESIGN.md (below the marker) from the specification, the checks and the seeds."""
import ast, glob, json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import spec

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/design.py -->\n'


def doc(i):
    f = f'{V}/tgsa/props/{i.lower()}.py'
    return ast.get_docstring(ast.parse(open(f).read())) if os.path.exists(f) else ''


def main():
    seeds = {}
    for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
        d = json.load(open(m))
        seeds.setdefault(d['property'], []).append((m.split('/')[-2], d['needs']))
    fixed = {}
    for l in open(f'{V}/known-findings.txt'):
        if l.startswith('fixed: property='):
            i, c, what = l[len('fixed: property='):].split(None, 2)
            fixed.setdefault(i, []).append((c, what.strip()))
    out = []
    for p in spec.PROPS:
        i = p['id']
        out.append(f"### {i} {p['title']}\n")
        out.append(f"*Over:* {p['quant']}. *Why tests cannot:* {p['why']}\n")
        if p['technique']:
            out.append(f"*Decided by:* {doc(i)}\n".replace('\n', ' ').rstrip() + '\n')
            out.append(f"*Bounds:* {p['note']}\n")
        else:
            out.append(f"*Not applicable:* {spec.NOT_APPLICABLE.get(i, 'no check has been built')}\n")
        for c, w in fixed.get(i, []):
            out.append(f'*Found and repaired* ({c}): {w}.\n')
        if i in seeds:
            out.append('*Planted bugs caught by this check:*\n')
            out += [f'- `{n}`: {w}' for n, w in seeds[i]]
            out.append('')
    s = open(f'{V}/DESIGN.md').read()
    s = s[:s.index(MARK) + len(MARK)] if MARK in s else s + '\n' + MARK
    open(f'{V}/DESIGN.md', 'w').write(s + '\n' + '\n'.join(out))


main()
