"""Composed runs: a sequence of public operations on abstract objects, starting from arbitrary or from fresh ones."""
from .entry import *
from .terms import *
from .state import *
from . import interp
from .prog import Broken

NS = 'tinygettext::'


class Lab(object):
    def __init__(self, prog, client=None, logs=True, exact=True):
        self.prog = prog
        self.client = client
        self.ip, self.st0 = start(prog, client, logs)
        if exact:
            self.ip.exact = True
            self.ip.merge_block = 64
            self.ip.max_rec = 2
        self.ip.use_memo = False

    # ----------------------------------------------------------- functions
    def fn(self, q, nparams=None, ptypes=None, const=None):
        """the function of that qualified name; ptypes: per parameter a predicate over types"""
        def ok(f):
            ps = f['params']
            if nparams is not None and len(ps) != nparams:
                return False
            if ptypes is not None:
                if len(ps) != len(ptypes):
                    return False
                if not all(c(p['t']) for c, p in zip(ptypes, ps)):
                    return False
            return True
        return self.prog.one(NS + q, ok)

    def public(self, cls, name, n=None, ptypes=None, static=None):
        """the public method of that name"""
        r = self.prog.record(NS + cls)
        pub = {m['m'] for m in r['methods'] if m['access'] == 0}
        def ok(f):
            ps = f['params']
            if f['m'] not in pub:
                return False
            if n is not None and len(ps) != n:
                return False
            if ptypes is not None and (len(ps) != len(ptypes) or not all(c(p['t']) for c, p in zip(ptypes, ps))):
                return False
            return static is None or bool(f.get('static')) == static
        return self.prog.one(NS + cls + '::' + name, ok)

    def call(self, st, f, obj=None, args=()):
        return run(self.ip, st, f, obj, list(args))

    def seq(self, sts, f, obj, args):
        """runs f on every state; -> results"""
        res, thr = [], []
        for st in sts:
            r, t = run(self.ip, st.copy(), f, obj, list(args))
            res += r
            thr += t
        return res, thr

    # ------------------------------------------------------------- objects
    def obj(self, name, cls):
        """an arbitrary object"""
        return object_at(self.ip, name, rec_ty(NS + cls))

    def value(self, st, name, v, ty=None):
        """an object that holds v"""
        loc = mk('deref', mk('y', 'p', (name,), 0))
        if ty is not None:
            self.ip.root_ty[loc] = ty
        st.store[loc] = v
        return loc

    def string(self, st, name, v=None):
        """an unknown (or given) string -> (location, value)"""
        t = Ty()
        t.k, t.name, t.s = 'rec', 'std::basic_string', 'std::string'
        v = v if v is not None else mk('y', 'o', (name + '.text',), 0)
        return self.value(st, name, v, t), v


def is_str(t):
    while t.k == 'ref':
        t = t.to
    return t.is_string()


def is_vec(t):
    while t.k == 'ref':
        t = t.to
    return t.k == 'rec' and t.name == 'std::vector'


def is_int(t):
    return t.k == 'int'


def rets(res):
    return [(s, v) for s, v in res]


def fork(ip, st, cond):
    """[(state, True/False)]: the sides of a condition that are possible"""
    e = st.ev(cond)
    if e is not None:
        return [(st, bool(e))]
    out = []
    for v in (True, False):
        s = st.copy()
        if s.assume(cond, v):
            out.append((s, v))
    return out


def same(st, a, b):
    """are two values equal in the state? True, False or None"""
    if a is b:
        return True
    k = kind(a)
    if a.op == 'sub' and b.op == 'sub' and a.a[0] is b.a[0] and st.ev(Eq(a.a[1], b.a[1])) and st.ev(Eq(a.a[2], b.a[2])):
        return True
    if k == 'o' and kind(b) == 'o':
        return st.ev(Eqs(a, b))
    return st.ev(Eq(a, b))


def unknown(v):
    """does the value come from an approximation?"""
    for y in v.leaves:
        n = y.a[1]
        n = n[0] if isinstance(n, tuple) and n else n
        if n in ('phi', 'havoc', 'rec', 'widen', 'icall', 'loop') or y.a[2]:
            return True
    return False


def expect(ip, st, got, want):
    """(verdict, text): True, False, None"""
    e = same(st, got, want)
    if e:
        return True
    if st.imp or unknown(got):
        return None
    return False
