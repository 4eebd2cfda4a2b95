"""Abstract interpretation of ==, !=, < and the hash on two arbitrary languages, for all relations two table rows can have:
the same row, both undefined, different rows, one undefined; pointers are compared as an arbitrary total order. Rules: the
same entry is equal, has one hash and is not less in either direction; different entries (which differ in code, country or
modifier, rule C25) are not equal and exactly one is less; != is the negation of ==."""
from ..lab import *


class Case(object):
    """a relation of the two row pointers; evaluates the conditions of a path"""
    def __init__(self, a, b, rel, na, nb):
        self.a, self.b, self.rel, self.na, self.nb = a, b, rel, na, nb
        self.assign = {}

    def name(self):
        if self.na or self.nb:
            return 'both undefined' if self.na and self.nb else 'first undefined' if self.na else 'second undefined'
        return {'=': 'the same entry', '<': 'different entries', '>': 'different entries, other order'}[self.rel]

    def value(self, t):
        if t.op == 'i':
            return t.a[0]
        if t.op == 'not':
            v = self.value(t.a[0])
            return None if v is None else int(not v)
        if t.op in ('and', 'or'):
            vs = [self.value(x) for x in t.a]
            if t.op == 'and':
                return 0 if 0 in vs else None if None in vs else 1
            return 1 if any(v == 1 for v in vs) else None if None in vs else 0
        if t.op == 'isnull':
            if t.a[0] is self.a:
                return int(self.na)
            if t.a[0] is self.b:
                return int(self.nb)
            return None
        if t.op in ('slt', 'eqs'):
            for (p, q), r in self.assign.items():
                if t.a == (p, q) or (t.op == 'eqs' and t.a == (q, p)):
                    return int(r == ('=' if t.op == 'eqs' else '<'))
                if t.a == (q, p):
                    return int(r == '>')
            return None
        if t.op in ('ptreq', 'eq', 'cmp', 'lt', 'le'):
            x, y = [z for z in t.a if z.__class__ is T][:2]
            r = self.order(x, y)
            if r is None:
                return None
            if t.op in ('ptreq', 'eq'):
                return int(r == '=')
            if t.op == 'lt':
                return int(r == '<')
            if t.op == 'le':
                return int(r != '>')
        return None

    def order(self, x, y):
        def who(z):
            if z.op == 'fldn' and z.a[1] == 'ptr2int':
                z = z.a[0]
            return 'a' if z is self.a else 'b' if z is self.b else '0' if z.op == 'i' and z.a[0] == 0 else None
        x, y = who(x), who(y)
        if x is None or y is None:
            return None
        if x == y:
            return '='
        if x == 'a' and y == 'b':
            return self.rel
        if x == 'b' and y == 'a':
            return {'<': '>', '>': '<', '=': '='}[self.rel]
        if y == '0':
            return '=' if (self.na if x == 'a' else self.nb) else '>'
        return '=' if (self.na if y == 'a' else self.nb) else '<'

    # -- texts of the two languages: each part of A is related to the same part of B
    def texts(self, terms, ren):
        """assigns a variable to each pair (text of A, same text of B) compared in the terms"""
        out = {}
        for t in terms:
            for x in subterms(t):
                if x.op in ('slt', 'eqs'):
                    a, b = x.a
                    for p, q in ((a, b), (b, a)):
                        if subst(p, ren) is q and q is not p:
                            out[(p, q)] = True
        return list(out)

    def possible(self, st):
        for t, b in st.P.items():
            v = self.value(t)
            if v is not None and bool(v) != bool(b):
                return False
        return True


def cases(a, b):
    return [Case(a, b, '=', True, True), Case(a, b, '=', False, False), Case(a, b, '<', True, False), Case(a, b, '<', False, False),
            Case(a, b, '>', False, True), Case(a, b, '>', False, False)]


def check(ctx):
    lab = Lab(ctx.prog)
    ip = lab.ip
    cls = NS + 'Language'
    fs = ctx.prog.fields(cls)
    if len(fs) != 1 or fs[0]['t'].k != 'ptr':
        raise Broken('a language is not one pointer any more')
    eq = lab.public('Language', 'operator==', 1)
    ne = lab.public('Language', 'operator!=', 1)
    lt = lab.fn('operator<', 2)
    hs = [f for f in ctx.prog.byq.get(NS + 'Language_hash::operator()', []) if f.get('body') is not None][:1]
    get = [lab.public('Language', n, 0) for n in ('get_language', 'get_country', 'get_modifier')]
    A, B = lab.obj('A', 'Language'), lab.obj('B', 'Language')
    H = lab.obj('H', 'Language_hash')
    ctx.floor('equality', 8)
    st = lab.st0
    pa = ip.read(st, mk('.f', A, fs[0]['name']), fs[0]['t'])
    pb = ip.read(st, mk('.f', B, fs[0]['name']), fs[0]['t'])
    for x in (pa, pb):                  # the codes in the table are not empty (C25)
        for o in (A, B):
            s0 = st.copy()
            if s0.assume(IsNull(x), False):
                for s, v in lab.seq([s0], get[0], o, [])[0]:
                    if v.op == 'content':
                        st.add_le(ONE, size(v))

    def answers(c, f, obj, args):
        """possible answers in the case: a set of True, False, None (undecided)"""
        out = set()
        s0 = st.copy()
        if c.rel == '=':
            # the same entry: one pointer
            s0.store[B] = ip.read(s0, A, rec_ty(cls))
            c = Case(pa, pa, '=', c.na, c.na)
        for t, x in ((IsNull(pa), c.na), (IsNull(pb), c.nb)):
            if s0.ev(t) is None and not s0.assume(t, x):
                return set()
        if c.rel != '=' and s0.ev(mk('ptreq', pa, pb)) is None:
            s0.assume(mk('ptreq', *sorted((pa, pb), key=lambda z: z.id)), False)
        res, thr = lab.seq([s0], f, obj, args)
        for s, v in res:
            if not c.possible(s):
                continue
            e = s.ev(v)
            if e is None:
                e = c.value(v)
            if c.rel != '=' and (e is None or e):
                # a comparison part by part: different entries differ in some part
                s2 = s
                ok = e or s2.assume(v, True)
                if ok and alike(s2):
                    if e is None:
                        e = 0
                    else:
                        continue
            out.add(None if e is None or (s.imp and not e.__class__ is int) else bool(e))
        if thr:
            out.add(None)
        return out

    def alike(s):
        """all three parts are known to be equal in the state"""
        for g in get:
            for s1, x in lab.seq([s], g, A, [])[0]:
                for s2, y in lab.seq([s1], g, B, [])[0]:
                    if not same(s2, x, y):
                        return False
        return True

    def judge(rule, key, w, got, want):
        if not got or None in got:
            ctx.undecided(rule, key, w, 'answers %s' % (got,))
        else:
            ctx.judge(got == {want}, rule, key, w, 'answers %s, expected %s' % (sorted(got), want))
    def by_parts(c, n):
        """an order that compares texts: two different entries, with all relations their parts can have"""
        ren = {pa: pb}
        s0 = distinct_state()
        optional = set()
        for X in (A, B):
            for g in get:
                for s, v in lab.seq([s0], g, X, [])[0]:
                    optional |= {t for t in s.P if t.op == 'isnull' and t.a[0].op == 'fldn' and s0.ev(t) is None}
        optional = sorted(optional)
        for bits in range(1 << len(optional)):
            s1 = s0.copy()
            if all(s1.assume(t, bool(bits >> i & 1)) for i, t in enumerate(optional)):
                r = compare_parts(c, s1, ren)
                if r is not None:
                    ctx.put('order', 'exactly one is less: ' + n, r[0], ctx.where(lt), r[1])
                    return
        ctx.ok('order', 'exactly one is less: ' + n, ctx.where(lt))

    def distinct_state():
        s0 = st.copy()
        for t in (IsNull(pa), IsNull(pb), mk('ptreq', *sorted((pa, pb), key=lambda z: z.id))):
            if s0.ev(t) is None:
                s0.assume(t, False)
        return s0

    def compare_parts(c, s0, ren):
        parts = []
        for g in get:
            (s0, x), = lab.seq([s0], g, A, [])[0]
            (s0, y), = lab.seq([s0], g, B, [])[0]
            for z in (x, y):
                if z.op != 's':         # the parts that are there are not empty (C25)
                    s0.add_le(ONE, size(z))
            parts.append((x, y))
        runs = []
        for args in ([A, B], [B, A]):
            res, thr = lab.seq([s0], lt, None, args)
            if thr or any(s.imp for s, v in res):
                return 'undecided', 'approximated'
            runs.append(res)
        pairs = c.texts([v for r in runs for s, v in r] + [t for r in runs for s, v in r for t in s.P], ren)
        other = any(x.op != 's' and y.op == 's' or x.op == 's' and y.op != 's' for x, y in parts)
        vals = [()]
        for p in pairs:
            vals = [v + (r,) for v in vals for r in '<=>']
        for v in vals:
            c.assign = dict(zip(pairs, v))
            eqs = {p for p, r in c.assign.items() if r == '='}
            if not other and all(x is y or (x, y) in eqs for x, y in parts):
                continue        # entries that agree in everything do not exist (C25)
            whole = [p for p in eqs if p[0].op == 'cat']
            if whole and (other or any(all(x is y or (x, y) in eqs or x in subterms(p[0]) for x, y in parts) for p in whole)):
                continue        # the texts contain all parts, so they cannot agree
            one = []
            for r in runs:
                got = set()
                for s, t in r:
                    if c.possible(s):
                        e = s.ev(t)
                        e = c.value(t) if e is None else e
                        got.add(None if e is None else bool(e))
                one.append(got)
            why = ', '.join('%s %s that of the other' % (show(p)[-70:], r) for (p, q), r in c.assign.items())
            if any(None in g or len(g) != 1 for g in one):
                return 'undecided', 'answers %s when %s' % (one, why)
            if one[0] == one[1]:
                return 'bad', 'both or neither is less when ' + (why or 'a part is missing')
        c.assign = {}

    for c in cases(pa, pb):
        n = c.name()
        e = c.rel == '='
        judge('equality', '== on ' + n, ctx.where(eq), answers(c, eq, A, [B]), e)
        judge('equality', '!= on ' + n, ctx.where(ne), answers(c, ne, A, [B]), not e)
        x, y = answers(c, lt, None, [A, B]), answers(c, lt, None, [B, A])
        if e:
            judge('order', '< on ' + n, ctx.where(lt), x, False)
            judge('order', '> on ' + n, ctx.where(lt), y, False)
        elif (None in x | y or len(x) > 1 or len(y) > 1) and c.rel == '<' and not c.na:
            by_parts(c, n)
        elif (None in x | y or len(x) > 1 or len(y) > 1) and c.rel == '>' and not c.nb:
            pass
        elif None in x | y or not x or not y:
            ctx.undecided('order', 'exactly one is less: ' + n, ctx.where(lt), '%s %s' % (x, y))
        else:
            ctx.judge(len(x) == 1 and len(y) == 1 and x != y, 'order', 'exactly one is less: ' + n, ctx.where(lt),
                      'a<b: %s, b<a: %s' % (sorted(x), sorted(y)))
        if e:
            for f in hs:
                s0 = st.copy()
                s0.store[B] = ip.read(s0, A, rec_ty(cls))
                s0.assume(IsNull(pa), c.na)
                for s, h in lab.seq([s0], f, H, [A])[0]:
                    for s2, h2 in lab.seq([s], f, H, [B])[0]:
                        ctx.judge(expect(ip, s2, h, h2), 'hash', n, ctx.where(f), 'hashes %s and %s' % (show(h)[:100], show(h2)[:100]))
