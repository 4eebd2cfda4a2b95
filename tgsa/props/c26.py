"""Abstract interpretation of the query operations on a default-constructed language and on an arbitrary one. Rules: the
default-constructed one is false and every query yields an empty text; for an arbitrary language, on every path on which it
is undefined, every query yields an empty text; it compares equal to a default-constructed one exactly when it is
undefined; the string form is the code, then an underscore and the country unless that is empty, then an @ and the modifier
unless that is empty, as the getters yield them; the localized name is that of the row, or the English name when the row
has none; a language that is not in the table is undefined."""
from ..lab import *

GET = ('get_language', 'get_country', 'get_modifier', 'get_name', 'get_localized_name', 'str')
EMPTYS = S('')


def check(ctx):
    lab = Lab(ctx.prog)
    ip = lab.ip
    ctx.floor('undefined', 8)
    ctx.floor('string form', 2)
    get = {n: lab.public('Language', n, 0) for n in GET}
    conv = lab.public('Language', '(conv)', 0)
    ctor = lab.public('Language', '(ctor)', 0)
    where = {n: ctx.where(f) for n, f in get.items()}
    st = lab.st0
    U = lab.value(st, 'U', None, rec_ty(NS + 'Language'))
    del st.store[U]
    res, thr = lab.seq([st], ctor, U, [])
    base = [s for s, v in res]
    if not base:
        raise Broken('no path through the default constructor')
    A = lab.obj('A', 'Language')

    def judge(rule, key, w, s, got, want):
        r = expect(ip, s, got, want)
        ctx.judge(r, rule, key, w, 'answers %s, expected %s' % (show(got)[:120], show(want)[:120]))

    def each(rule, key, w, res, thr, want):
        for s, v in res:
            judge(rule, key, w, s, v, want)
        for t in thr:
            ctx.undecided(rule, key, w, 'throws %s' % (t[1],))
        if not res:
            ctx.undecided(rule, key, w, 'no path')

    each('undefined', 'default-constructed: bool', ctx.where(conv), *lab.seq(base, conv, U, []), want=FALSE)
    for n in GET:
        each('undefined', 'default-constructed: ' + n, where[n], *lab.seq(base, get[n], U, []), want=EMPTYS)
    # an arbitrary language
    cases = []
    for s, v in lab.seq(base, conv, A, [])[0]:
        for s2, b in fork(ip, s, v):
            cases.append((s2, b))
    eq = lab.public('Language', 'operator==', 1)
    ne = lab.public('Language', 'operator!=', 1)
    for s, b in cases:
        for f, x in ((eq, not b), (ne, b)):
            for a1, a2, t in ((A, U, 'arbitrary, undefined'), (U, A, 'undefined, arbitrary')):
                each('equality', '%s(%s) when %s' % (f['q'].split('::')[-1], t, 'defined' if b else 'undefined'), ctx.where(f),
                     *lab.seq([s], f, a1, [a2]), want=I(int(x)))
        if not b:
            for n in GET:
                each('undefined', 'arbitrary, undefined: ' + n, where[n], *lab.seq([s], get[n], A, []), want=EMPTYS)
            continue
        # the string form
        for s1, l in lab.seq([s], get['get_language'], A, [])[0]:
            for s2, c in lab.seq([s1], get['get_country'], A, [])[0]:
                for s3, ec in fork(ip, s2, Eqs(c, EMPTYS)):
                    for s4, m in lab.seq([s3], get['get_modifier'], A, [])[0]:
                        for s5, em in fork(ip, s4, Eqs(m, EMPTYS)):
                            want = [l]
                            if not ec:
                                want += [S('_'), c]
                            if not em:
                                want += [S('@'), m]
                            w = want[0]
                            for x in want[1:]:
                                w = cat(w, x)
                            for s6, v in lab.seq([s5], get['str'], A, [])[0]:
                                key = 'str() %s country, %s modifier' % ('without' if ec else 'with', 'without' if em else 'with')
                                if table_fact(s6, c, ec) or table_fact(s6, m, em):
                                    continue        # a row with an empty part: excluded by the table (C25)
                                judge('string form', key, where['str'], s6, v, w)
        # the localized name
        for s1, n in lab.seq([s], get['get_name'], A, [])[0]:
            for s2, v in lab.seq([s1], get['get_localized_name'], A, [])[0]:
                e = same(s2, v, n)
                loc = [t for t in subterms(v) if t.op == 'fldn' and t.a[1] == 'name_localized']
                null = [x for t, x in s2.P.items() if t.op == 'isnull' and t.a[0].op == 'fldn' and t.a[0].a[1] == 'name_localized']
                key = 'localized name'
                if e:
                    ctx.judge(all(null) if null else None, 'localized name', 'the English name only when there is no localized one',
                              where['get_localized_name'], 'the English name, though the row has a localized one')
                elif loc and v.op == 'content':
                    ctx.ok('localized name', 'that of the row', where['get_localized_name'])
                else:
                    ctx.judge(None if s2.imp or unknown(v) else False, 'localized name', 'that of the row', where['get_localized_name'],
                              'answers ' + show(v)[:160])
    # not in the table
    f = [f for f in ctx.prog.byq.get(NS + 'Language::from_spec', []) if f.get('body') is not None]
    if f:
        f = f[0]
        s = lab.st0.copy()
        args = [lab.string(s, p['name'] or 'p%d' % i)[0] for i, p in enumerate(f['params'])]
        lab.ip.exact = False
        res, thr = lab.seq([s], f, None, args)
        hit = 0
        for s, v in res:
            miss = [t for t, b in s.P.items() if t.op == 'has' and not b]
            if not miss:
                continue
            hit += 1
            r = lab.value(s, 'answer', v, rec_ty(NS + 'Language'))
            each('undefined', 'from_spec of an unknown code', ctx.where(f), *lab.seq([s], conv, r, []), want=FALSE)
        if not hit:
            ctx.undecided('undefined', 'from_spec of an unknown code', ctx.where(f), 'no such path found')


def table_fact(st, v, empty):
    """the text is that of a row of the table, and empty"""
    return empty and v.op == 'content'
