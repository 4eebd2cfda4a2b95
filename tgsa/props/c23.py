"""Abstract interpretation of sequences: set_charset(x), set_use_fuzzy(t) or a constructor, then get_dictionary of an arbitrary
language. Rules: a dictionary made answers get_charset() with x; every call of the parser gets the value t; the parser writes
to the dictionary that was made by that call, which is the one returned and kept under the requested language; no other
operation changes the members these two operations set; get_use_fuzzy() answers t."""
from ..mgrlab import *


def check(ctx):
    prog = ctx.prog
    ctx.floor('charset', 1)
    ctx.floor('fuzzy', 1)
    lab = MgrLab(prog, fail=False)
    sh = Shape(lab)
    ip = lab.ip
    get_charset = lab.public('Dictionary', 'get_charset', 0)

    def first(st, f, i=0):
        a = sym_args(ip, st, f)
        v = a[i]
        return a, (ip.read(st, v) if v.op in LOCOPS else v)

    def charset_of(key, w, s, x):
        """dictionaries loaded from state s convert to x"""
        r = lab.load(s.copy())
        made = news(r)
        n = 0
        for s2, v in r.res:
            for d in made:
                if d not in s2.store:
                    continue
                for s3, c in lab.seq([s2], get_charset, d, [])[0]:
                    n += 1
                    e = c is x or same(s3, c, x) is True
                    ctx.judge(True if e else None if s3.imp or unknown(c) else False, 'charset', key, w, 'a dictionary converts to %s, not %s' % (show(c)[:80], show(x)[:80]))
        if not n:
            ctx.undecided('charset', key, w, 'no dictionary is made')

    def fuzzy_of(key, w, s, t):
        r = lab.load(s.copy())
        ps = r.of('parse')
        if not ps:
            ctx.undecided('fuzzy', key, w, 'nothing is parsed')
        for s2, w2, tr, more in ps:
            z = more[3]
            if z is None:
                ctx.undecided('fuzzy', key, w2, 'the parser has no such parameter')
                continue
            e = z is t or s2.ev(Eq(z, t)) is True or s2.ev(z) is not None and s2.ev(z) == s2.ev(t)
            ctx.judge(True if e else None if s2.imp or unknown(z) else False, 'fuzzy', key, w2, 'parses with %s, not %s' % (show(z)[:60], show(t)[:60]), tr)
    own = {}
    f = lab.public('DictionaryManager', 'set_charset', 1)
    for sn, st in sh.states():
        a, x = first(st, f)
        r, _ = sh.apply(st, f, a)
        for s, v in r.res:
            charset_of('after set_charset', ctx.where(f), s, x)
            own.setdefault('set_charset', set()).update(sh.changed(st, s))
    f = lab.public('DictionaryManager', 'set_use_fuzzy', 1)
    g = lab.public('DictionaryManager', 'get_use_fuzzy', 0)
    for sn, st in sh.states():
        a, t = first(st, f)
        for s0, tv in fork(ip, st, t):
            r, _ = sh.apply(s0, f, a)
            for s, v in r.res:
                fuzzy_of('after set_use_fuzzy', ctx.where(f), s, TRUE if tv else FALSE)
                own.setdefault('set_use_fuzzy', set()).update(sh.changed(st, s))
                for s2, z in lab.seq([s], g, lab.M, [])[0]:
                    e = s2.ev(z)
                    ctx.judge(True if e is tv else None if s2.imp or e is None else False, 'fuzzy', 'get_use_fuzzy', ctx.where(g), 'answers %s' % show(z)[:60])
    for c in prog.byq.get(NS + 'DictionaryManager::(ctor)', []):
        idx = [i for i, p in enumerate(c['params']) if is_str(p['t'])]
        if c.get('body') is None or len(idx) != 1:
            continue
        st = lab.st0.copy()
        a, x = first(st, c, idx[0])
        r, _ = sh.apply(st, c, a)
        for s, v in r.res:
            charset_of('after construction', ctx.where(c), s, x)
    fields = set().union(*own.values()) if own else set()
    for nm, f in sh.ops():
        for sn, st in sh.states():
            r, _ = sh.apply(st, f)
            for s, v in r.res:
                ch = set(sh.changed(st, s)) & fields
                mine = own.get(nm.split('(')[0], set())
                ctx.judge(True if ch <= mine else None if s.imp else False, 'settings', nm, ctx.where(f), 'changes %s' % ', '.join(sorted(ch - mine)))
    # where the parser writes to
    r = lab.load()
    made = news(r)
    ps = r.of('parse')
    for s, w, t, more in ps:
        d = more[2]
        d = d if d is None or d.op in LOCOPS else mk('deref', d)
        ctx.judge(None if d is None else True if d in made else None if s.imp or unknown(d) else False, 'target', 'parser', w, 'writes to %s' % (show(d)[:100] if d is not None else '?'), t)
    key = ip.read(lab.st0.copy(), lab.lang)
    w = ctx.where(lab.get_lang)
    n0 = sh.get(lab.st0.copy(), 'map')
    for s, v in r.res:
        if loaded(lab)(s) and made:
            ctx.judge(True if v in made else None if s.imp or unknown(v) else False, 'target', 'result', w, 'returns %s' % show(v)[:80])
        m = sh.get(s, 'map')
        while m.op in ('ins', 'put') and m is not n0:
            k = m.a[1]
            e = k is key or s.ev(Eqs(k, key))
            ctx.judge(True if e is True and m.a[2] is v else None if s.imp or unknown(k) or unknown(m.a[2]) else False, 'target', 'cache', w, 'keeps %s under %s' % (show(m.a[2])[:60], show(k)[:100]))
            m = m.a[0]
    ctx.note('parser_calls', len(ps))
