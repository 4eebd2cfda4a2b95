"""Dictionaries in composed runs: arbitrary content, with and without a fallback; what a lookup must answer."""
from .lab import *
from .interp import Client

KINDS = ('translate', 'translate_plural', 'translate_ctxt', 'translate_ctxt_plural')
ROLES = {'translate': ('id',), 'translate_plural': ('id', 'pid', 'n'), 'translate_ctxt': ('ctx', 'id'),
         'translate_ctxt_plural': ('ctx', 'id', 'pid', 'n')}


class DClient(Client):
    """lookups on other dictionaries than the one under test are opaque: a function of the question"""
    lab = None
    main = None

    def intercept(self, ip, f, obj, args, st, e):
        lab = self.lab
        if lab is None or obj is None or obj in lab.transparent:
            return None
        k = lab.kind_of.get(f['m'])
        if k is None:
            return None
        vals = []
        for a, r in zip(args, ROLES[k]):
            vals.append(ip.read(st, a) if r != 'n' and a.op in LOCOPS else a)
        return [(st, mk('app', k, obj, tuple(vals)))]

    def on_icall(self, ip, e, st, fp, args):
        if fp.op == 'y' and isinstance(fp.a[1], tuple) and fp.a[1] and fp.a[1][0] == 'callback':
            st.g['said.' + fp.a[1][1].rsplit('::', 1)[-1]] = True
            return [(st, ZERO)]
        if e['t'].k == 'int':
            n = st.is_null(fp)
            if n is not False:
                ip.event('oblig', 'null', ip.where(e), 'bad' if n else 'maybe', 'call through a null function pointer', ip.trace(), st.imp)
                if not st.assume(IsNull(fp), False):
                    return []
            vals = tuple(ip.read(st, a) if a.op in LOCOPS else a for a in args)
            r = mk('icallu', fp, vals)
            r._kind = 'n'
            st.add_le(ZERO, r)
            return [(st, r)]
        return None


class DictLab(Lab):
    def __init__(self, prog):
        c = DClient()
        Lab.__init__(self, prog, c)
        c.lab = self
        self.D = self.obj('D', 'Dictionary')
        self.transparent = {self.D}
        self.look = {
            'translate': self.public('Dictionary', 'translate', 1, [is_str]),
            'translate_plural': self.public('Dictionary', 'translate_plural', 3, [is_str, is_str, is_int]),
            'translate_ctxt': self.public('Dictionary', 'translate_ctxt', 2, [is_str, is_str]),
            'translate_ctxt_plural': self.public('Dictionary', 'translate_ctxt_plural', 4, [is_str, is_str, is_str, is_int]),
        }
        self.kind_of = {f['m']: k for k, f in self.look.items()}
        self.add = {
            'add': self.public('Dictionary', 'add_translation', 2, [is_str, is_str]),
            'add_plural': self.public('Dictionary', 'add_translation', 3, [is_str, is_str, is_vec]),
            'add_ctxt': self.public('Dictionary', 'add_translation', 3, [is_str, is_str, is_str]),
            'add_ctxt_plural': self.public('Dictionary', 'add_translation', 4, [is_str, is_str, is_str, is_vec]),
        }
        self.addroles = {'add': ('id', 'txt'), 'add_plural': ('id', 'pid', 'vec'), 'add_ctxt': ('ctx', 'id', 'txt'),
                         'add_ctxt_plural': ('ctx', 'id', 'pid', 'vec')}
        self.ctor = self.fn('Dictionary::(ctor)', 1, [is_str])
        self.addfb = self.public('Dictionary', 'addFallback', 1)
        self.getpf = self.public('Dictionary', 'get_plural_forms', 0)
        self.getp = self.public('PluralForms', 'get_plural', 1)
        self.val = {}
        self.sub = {}
        self.loc = {}
        st = self.st0
        for n in ('id', 'pid', 'ctx', 'txt', 'id2', 'pid2', 'ctx2', 'txt2', 'charset'):
            self.loc[n], self.val[n] = self.string(st, n)
        for n in ('vec', 'vec2'):
            v = mk('y', 'o', (n,), 0)
            t = [p for p in self.add['add_plural']['params']][-1]['t']
            while t.k == 'ref':
                t = t.to
            self.loc[n] = self.value(st, n + '.loc', v, t)
            self.val[n] = v
        self.val['n'] = self.loc['n'] = sym('n', ('count',))
        self.initial()

    # ------------------------------------------------------------ entry states
    def initial(self):
        """fresh: a dictionary just constructed; nofb / fb: arbitrary content, without / with a fallback"""
        st = self.st0.copy()
        r, t = self.call(st, self.ctor, self.D, [self.loc['charset']])
        if len(r) != 1 or t:
            raise Broken('constructor of Dictionary has %d outcomes' % len(r))
        self.fresh = r[0][0]
        self.F = mk('y', 'p', ('fallback',), 0)
        self.ip.root_ty[mk('deref', self.F)] = rec_ty(NS + 'Dictionary')
        f = self.fresh.copy()
        f.assume(IsNull(self.F), False)
        r, t = self.call(f, self.addfb, self.D, [self.F])
        if len(r) != 1 or t:
            raise Broken('addFallback has %d outcomes' % len(r))
        self.fresh_fb = r[0][0]
        a = self.fresh.store[self.D]
        b = self.fresh_fb.store[self.D]
        self.fbfields = [n for n in a.a[1] if fget(a, n) is not fget(b, n)]
        if not self.fbfields:
            raise Broken('addFallback has no effect')
        base = self.st0.copy()
        sym0 = self.ip.read(base, self.D)
        self.nofb = base.copy()
        self.fb = self.fresh_fb.copy()
        x, y = sym0, sym0
        for n in self.fbfields:
            x = fput(x, n, fget(a, n))
            y = fput(y, n, fget(b, n))
        self.nofb.store[self.D] = x
        self.fb.store[self.D] = y

    def V(self, r):
        v = self.val[r]
        return subst(v, self.sub) if self.sub else v

    def unify(self, st, v):
        """values the path has found equal become the same term"""
        self.sub = {}
        for _ in range(8):
            for t, b in st.P.items():
                if b and t.op == 'eqs':
                    x, y = t.a
                    if x.op != 'y':
                        x, y = y, x
                    if x.op == 'y' and x not in y.leaves:
                        break
            else:
                return st, v
            st = st.copy()
            st.P = {t: b for t, b in st.P.items() if not (t.op == 'eqs' and b and set(t.a) == {x, y})}
            edges = [(subst(a, {x: y}), subst(b, {x: y}), c) for a, d in st.z.items() for b, c in d.items()]
            st.rename({x: y})
            for a, b, c in edges:
                st.add_le(a, b, c)
            v = subst(v, {x: y})
            self.sub = {a: subst(c, {x: y}) for a, c in self.sub.items()}
            self.sub[x] = y
        return st, v

    # ------------------------------------------------------------- operations
    def args(self, roles, ren=None):
        ren = ren or {}
        return [self.loc[ren.get(r, r)] for r in roles]

    def do_add(self, sts, k, ren=None):
        return self.seq(sts, self.add[k], self.D, self.args(self.addroles[k], ren))

    def do_look(self, sts, k, ren=None):
        return self.seq(sts, self.look[k], self.D, self.args(ROLES[k], ren))

    def untranslated(self, st, k, ren=None, fb=False):
        """[(state, value)]: the answer when nothing is stored"""
        ren = ren or {}
        v = lambda r: self.V(ren.get(r, r))
        if fb:
            return [(st, mk('app', k, mk('deref', self.F), tuple(v(r) for r in ROLES[k])))]
        if 'n' not in ROLES[k]:
            return [(st, v('id'))]
        return [(s, v('id') if one else v('pid')) for s, one in fork(self.ip, st, Eq(v('n'), ONE))]

    def form(self, st, ren=None):
        """[(state, index)]: the form that the plural rule of the dictionary selects"""
        n = self.V('n')
        out = []
        r, t = self.call(st.copy(), self.getpf, self.D, [])
        for s, pf in r:
            loc = self.value(s, 'pf', pf, rec_ty(NS + 'PluralForms'))
            r2, t2 = self.call(s, self.getp, loc, [n])
            out += r2
        return out

    def stored(self, st, k, forms, ren=None, fb=False):
        """[(state, value)]: the answer when forms (a text or a vector of texts) are stored"""
        out = []
        plural = 'n' in ROLES[k]
        text = forms[0] == 'txt'
        v = self.V(forms[1])
        starts = self.form(st) if plural else [(st, ZERO)]
        for s, idx in starts:
            for s1, have in fork(self.ip, s, Lt(idx, ONE if text else size(v))):
                if not have:
                    out += self.untranslated(s1, k, ren, fb)
                    continue
                w = v if text else self.ip.select(s1, v, idx, 'o')
                for s2, empty in fork(self.ip, s1, Eq(size(w), ZERO)):
                    if empty:
                        out += self.untranslated(s2, k, ren, fb)
                    else:
                        out.append((s2, w))
        return out

    def compare(self, ctx, rule, key, where, results, want, throws=()):
        """every result must be what want(state) demands"""
        verdict = True
        msg = ''
        if throws:
            verdict, msg = False, 'throws %s' % throws[0][1]
        n = 0
        for s, v in results:
            s, v = self.unify(s, v)
            for s2, w in want(s):
                n += 1
                e = expect(self.ip, s2, v, w)
                if e is True:
                    continue
                if e is False or verdict is True:
                    verdict = e
                    msg = 'answers %s, expected %s' % (short(v), short(w))
                if e is False:
                    break
            if verdict is False:
                break
        self.sub = {}
        if n == 0 and verdict is True:
            verdict, msg = None, 'no outcome'
        ctx.judge(verdict, rule, key, where, msg)
        return n


def short(v):
    t = show(v)
    return t if len(t) < 160 else t[:157] + '...'


    # placed here: relations between runs
def unaffected(lab, ctx, rule, key, start, a, k, ren):
    """the lookup k (with renamed roles) answers after the addition a as it did before"""
    start = start.copy()
    for r, o in ren.items():
        if r in ('id', 'ctx') and o != r:
            if not start.assume(Eqs(lab.val[r], lab.val[o]), False):
                return
    added, thr = lab.do_add([start], a)
    res, thr2 = lab.do_look([s for s, _ in added], k, ren)
    where = ctx.where(lab.add[a])
    if thr or thr2:
        ctx.bad(rule, key, where, 'throws')
        return
    verdict, msg = (True, '') if res else (None, 'no outcome')
    for s, v in res:
        s0 = s.copy()
        for root, old in start.store.items():
            if is_entry_root(root) or root in (lab.D,):
                s0.store[root] = old
        before, t = lab.do_look([s0], k, ren)
        for s1, v1 in before:
            e = expect(lab.ip, s1, v, v1)
            if e is not True and verdict is not False:
                verdict = e
                msg = 'answers %s, before the addition %s' % (short(v), short(v1))
    ctx.judge(verdict, rule, key, where, msg)
