"""Queries over the syntax trees: calls, uses of objects with static lifetime."""
from .prog import walk


def in_scope(f):
    return (f.get('body') is not None or f.get('inits')) and not f['q'].startswith('tgsa_instances')


def const(e):
    while e.__class__ is dict and e.get('e') == 'cast':
        e = e['x']
    if e.__class__ is dict and e.get('e') in ('bool', 'int', 'null') and e.get('v', 0).__class__ in (bool, int):
        return bool(e.get('v', 0))
    return None


def never(y):
    """the part of a statement that can't run: `if (false)`, `while (false)`"""
    if y.get('s') == 'if' or y.get('e') == 'cond':
        v = const(y.get('c'))
        return None if v is None else 'y' if v else 'x'
    if y.get('s') == 'while' and const(y.get('c')) is False:
        return 'x'
    return None


def nodes(x, parents=()):
    """(node, chain of parent nodes with the key the child hangs on)"""
    st = [(x, parents)]
    while st:
        y, ps = st.pop()
        if y.__class__ is list:
            for v in reversed(y):
                if v.__class__ in (dict, list):
                    st.append((v, ps))
        elif y.__class__ is dict:
            if 'e' in y or 's' in y:
                yield y, ps
            dead = never(y)
            for k, v in y.items():
                if k in ('f', 't', 'pt', 'ct', 'rt') or k == dead:
                    continue
                if v.__class__ in (dict, list):
                    st.append((v, ps + ((y, k),) if 'e' in y or 's' in y else ps))


def bodies(prog):
    """(function, syntax tree): functions, and the initialisers of globals"""
    for f in prog.funcs.values():
        if in_scope(f):
            yield f, [f.get('inits'), f.get('body')]
    for g in prog.globals.values():
        if g.get('init') is not None:
            yield {'q': g['q'], 'file': g.get('file', '?'), 'line': g.get('l', 0), 'm': '', 'params': [], 'global': True}, [g['init']]


def where(f, n=None):
    l = (n or {}).get('l') or f.get('line', 0)
    return '%s:%s (%s)' % (f.get('file', '?'), l, f['q'])


def refs(prog):
    """(function, node, qualified name, mangled name or None): every function or global mentioned"""
    for f, b in bodies(prog):
        for n, ps in nodes(b):
            h = n.get('f')
            if n.get('e') in ('call', 'ctor', 'fn', 'new', 'delete') and h.__class__ is dict:
                yield f, n, h['q'], h.get('m')
            elif n.get('e') == 'global':
                yield f, n, n['q'], None
            elif n.get('e') == 'fn' and n.get('q'):
                yield f, n, n['q'], n.get('m')


def callers(prog):
    """mangled name -> set of mangled names (or initialised globals) that mention it"""
    out = {}
    for f, n, q, m in refs(prog):
        if m:
            out.setdefault(m, set()).add(f['m'] or f['q'])
    for r in prog.records.values():
        for mm in r['methods']:
            for o in mm['overrides']:
                out.setdefault(mm['m'], set()).update(out.get(o, set()))
    return out


def only_from(prog, roots):
    """functions that are in roots (mangled names) or mentioned only by such functions"""
    cl = callers(prog)
    ok = set(roots)
    virt = {mm['m'] for r in prog.records.values() for mm in r['methods'] if mm['overrides']}
    ch = True
    public = set()
    for r in prog.records.values():
        for mm in r['methods']:
            if mm['access'] == 0:
                public.add(mm['m'])
    while ch:
        ch = False
        for f in prog.funcs.values():
            m = f['m']
            if m in ok or m in public or m in virt:
                continue
            cs = cl.get(m)
            if cs and all(c in ok or c == m for c in cs):
                ok.add(m)
                ch = True
    return ok


def derived(prog, base):
    out = set()
    ch = True
    while ch:
        ch = False
        for n, r in prog.records.items():
            if n not in out and any(b == base or b in out for b in r['bases']):
                out.add(n)
                ch = True
    return out


def use_kind(n, ps):
    """how a mention of an object is used: 'read', 'write' or 'other' (an alias is made)"""
    child = n
    for p, k in reversed(ps):
        e = p.get('e')
        if e == 'cast':
            if child.get('lv') and not p.get('lv'):
                return 'read'
        elif e in ('member', 'index'):
            if e == 'index' and k != 'x' and p.get('x') is not child:
                return 'read'
            if e == 'member' and p.get('arrow'):
                return 'read'
        elif e in ('assign', 'opassign'):
            return 'write' if p.get('x') is child else 'other' if child.get('lv') and p.get('y') is child and p['x'].get('lv') is None else 'read'
        elif e == 'un':
            if p['op'] in ('++', '--'):
                return 'write'
            return 'other' if p['op'] == '&' else 'read'
        elif e == 'call':
            h = p.get('f')
            if h.__class__ is not dict:
                return 'read' if p.get('fp') is child or p.get('x') is child else 'other'
            if p.get('obj') is child:
                nm = h['q'].rsplit('::', 1)[-1]
                if h.get('const'):
                    return 'read'
                return 'write' if nm in MUT else 'other'
            for i, a in enumerate(p.get('a', [])):
                if a is child:
                    pt = h.get('pt', [])
                    t = pt[i] if i < len(pt) else None
                    if t is not None and t.k == 'ref' and not t.to.const and h['q'].startswith('std::') and h['q'] not in NOMUT:
                        return 'write'
                    if t is None or t.k == 'ref' and not t.to.const:
                        return 'other'
                    return 'read'
            return 'other'
        elif e == 'ctor':
            for i, a in enumerate(p.get('a', [])):
                if a is child:
                    h = p.get('f') or {}
                    pt = h.get('pt', [])
                    t = pt[i] if i < len(pt) else None
                    if t is not None and t.k == 'ref' and t.to.const:
                        return 'read'
                    return 'other'
            return 'other'
        elif e == 'cond':
            if p.get('c') is child or not p.get('lv'):
                return 'read'
        elif e in ('bin', 'sizeof'):
            return 'read'
        elif e is None:
            if p.get('s') == 'decl':
                for v in p['v']:
                    if v.get('init') is child:
                        t = v.get('t')
                        if t is not None and t.k == 'ref':
                            return 'read' if t.to.const else 'other'
                return 'read'
            return 'read' if p.get('s') in ('expr', 'if', 'while', 'for', 'switch', 'do') else 'other'
        else:
            return 'other'
        child = p
    return 'other'


MUT = {'operator=', 'operator[]', 'insert', 'emplace', 'push_back', 'push_front', 'emplace_back', 'clear', 'erase', 'assign', 'append',
       'operator+=', 'resize', 'swap', 'pop_back', 'pop_front', 'try_emplace', 'insert_or_assign', 'store', 'reset', 'release',
       'operator++', 'operator--', 'operator<<', 'write', 'put', 'open', 'close', 'setf', 'imbue', 'reserve'}
NOMUT = {'std::begin', 'std::end', 'std::move', 'std::forward', 'std::min', 'std::max', 'std::addressof', 'std::ref', 'std::tie', 'std::get',
         'std::make_pair', 'std::operator<<', 'std::operator==', 'std::operator!='}
