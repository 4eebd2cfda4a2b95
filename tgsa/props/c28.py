"""Abstract interpretation of get_dictionary on an arbitrary manager and language, names mapped to languages by uninterpreted
functions. The fallback of a dictionary is what Dictionary::addFallback changes (determined by running it). Rules: every
dictionary made for a language without country has the fallback of a fresh one (none); one made for a language with
country has the dictionary of from_spec(its language code, no country) as fallback, set exactly as addFallback does; a
dictionary is only asked for recursively for such a language, when the one being loaded has a country. That from_spec then
answers a language of that code without country follows from: the search rules of C37 (the answer is the row of that code
with the best score), the score constants of C24 (rows without country score higher than all rows with one), and the
table (each code has a row without country). So the recursion is at most two deep and fallback chains at most two long."""
from ..mgrlab import *
from . import c37, c24, c25


def check(ctx):
    prog = ctx.prog
    ctx.floor('fallback', 2)
    ctx.floor('no country', 2)
    lab = MgrLab(prog, fail=False)
    ip = lab.ip
    f = lab.get_lang
    where = ctx.where(f)
    code = lab.public('Language', 'get_language', 0)
    country = lab.public('Language', 'get_country', 0)
    add = lab.public('Dictionary', 'addFallback', 1)
    DT = rec_ty(NS + 'Dictionary')
    # what addFallback changes
    D = object_at(ip, 'any dictionary', DT)
    pt = add['params'][0]['t']
    ptr = mk('y', 'p', ('any fallback',), 0)
    ip.root_ty[mk('deref', ptr)] = DT
    arg = ptr if pt.k == 'ptr' else mk('deref', ptr)
    s0 = lab.st0.copy()
    s0.assume(IsNull(ptr), False)
    before = ip.read(s0, D, DT)
    names = [x['name'] for x in prog.fields(NS + 'Dictionary')]
    old = {n: ip.read(s0, mk('.f', D, n), t['t']) for n, t in zip(names, prog.fields(NS + 'Dictionary'))}
    effect = {}
    res, thr = run(ip, s0.copy(), add, D, [arg])
    for s, v in res:
        e = {}
        for n, t in zip(names, prog.fields(NS + 'Dictionary')):
            x = ip.read(s, mk('.f', D, n), t['t'])
            if x is not old[n]:
                e[n] = x
        effect[tuple(sorted((n, x.id) for n, x in e.items()))] = e
    if len(effect) != 1 or thr:
        ctx.undecided('fallback', 'addFallback', ctx.where(add), '%d different effects' % len(effect))
        return
    effect = list(effect.values())[0]
    ctx.judge(any(ptr in x.leaves for x in effect.values()), 'fallback', 'addFallback keeps the fallback', ctx.where(add), 'it is not kept')
    r = lab.load()
    made = news(r)
    spec = lab.spec_field()

    def chosen(L, lang):
        """is it the language of the same code without country?"""
        p = fget(L, spec)
        if p.op != 'fun' or p.a[1] not in ('from_spec', 'from_env', 'from_name'):
            return None if unknown(p) else False, 'the language %s' % show(p)[:80]
        a = p.a[2:]
        if a[0] is not lang:
            return None if unknown(a[0]) else False, 'the language code %s' % show(a[0])[:80]
        if len(a) > 1 and a[1] is not S(''):
            return None if unknown(a[1]) else False, 'the country %s' % show(a[1])[:80]
        return True, ''

    loaded_ = loaded(lab)
    for s, v in r.res:
        d = target(v)
        if d not in made and not any(d is mk('deref', x) or d is x for x in made):
            if loaded_(s):
                ctx.judge(None if unknown(d) else True, 'fallback', 'another dictionary', where, 'returns %s' % show(d)[:80])
            continue
        for s1, lang in lab.seq([s], code, lab.lang, [])[0]:
            for s2, c in lab.seq([s1], country, lab.lang, [])[0]:
                for s3, none in fork(ip, s2, Eqs(c, S(''))):
                    vals_ = {n: ip.read(s3, mk('.f', d, n), t['t']) for n, t in zip(names, prog.fields(NS + 'Dictionary'))}
                    if none:
                        for n, x in effect.items():
                            y = vals_[n]
                            if ptr in x.leaves:
                                ok = s3.is_null(y)
                            else:
                                ok = s3.ev(Eq(y, x))
                                ok = None if ok is None else not ok
                            ctx.judge(True if ok else None if ok is None or s3.imp else False, 'fallback', 'language without country', where,
                                      'has a fallback (%s = %s)' % (n, show(y)[:80]))
                        continue
                    for n, x in effect.items():
                        y = vals_[n]
                        if ptr not in x.leaves:
                            ok = s3.ev(Eq(y, x)) if y is not x else True
                            ctx.judge(True if ok else None if ok is None or s3.imp else False, 'fallback', 'language with country', where, '%s = %s' % (n, show(y)[:60]))
                            continue
                        t = target(y) if not s3.is_null(y) else None
                        q = t.a[0] if t is not None and t.op == 'deref' else None
                        if t is None:
                            ctx.judge(None if s3.imp else False, 'fallback', 'language with country', where, 'has no fallback')
                        elif q is None or q.op != 'fun' or q.a[1] != 'dictionary':
                            ctx.judge(None if s3.imp or unknown(t) else False, 'fallback', 'language with country', where, 'falls back to %s' % show(t)[:80])
                        else:
                            ok, msg = chosen(q.a[2], lang)
                            ctx.judge(ok if ok or not s3.imp else None, 'fallback', 'language with country', where, 'falls back to the dictionary of ' + msg)
    for st, w, tr, more in r.of('again'):
        for s1, lang in lab.seq([st], code, lab.lang, [])[0]:
            ok, msg = chosen(more[0], lang)
            ctx.judge(ok if ok or not st.imp else None, 'recursion', 'language asked for', w, 'loads the dictionary of ' + msg, tr)
            for s2, c in lab.seq([s1], country, lab.lang, [])[0]:
                e = s2.ev(Eqs(c, S('')))
                ctx.judge(True if e is False else None if st.imp else False, 'recursion', 'only for a language with country', w, 'also for a language without country', tr)
    # from_spec(code, no country) has no country
    l2, m = c37.search(ctx, 'no country: search')
    c37.index(ctx, l2, m, 'no country: index')
    w, T, unclear, n = c24.table(ctx)
    val = {}
    for k, vs in T.items():
        if len(vs) == 1 and list(vs)[0].op == 'i':
            val[k] = list(vs)[0].a[0]
    if len(val) < 10:
        ctx.undecided('no country', 'score constants', w, 'not constant')
    else:
        # asked without country: the row without country agrees, one with country is one that the question leaves open
        good = [val[(0, m)] for m in (0, 1)]
        worse = [val[(1, m)] for m in range(3)]
        ctx.judge(min(good) > max(worse), 'no country', 'rows without country score higher', w, '%s against %s' % (good, worse))
        ctx.judge(min(good) > 0 and val[None] <= 0, 'no country', 'rows of the code score above 0', w, '%s' % val)
    cls, (q, rows) = c25.rows_of(ctx)
    langs, bare = {}, set()
    for row in rows:
        t = [c25.text(fget(row, n)) or '' for n in ('language', 'country', 'modifier')]
        if fget(row, 'language') is ZERO:
            break
        langs[t[0]] = 1
        if not t[1] and not t[2]:
            bare.add(t[0])
    miss = sorted(set(langs) - bare)
    ctx.judge(not miss, 'no country', 'each code has a row without country', q, 'not %s' % miss[:5])
