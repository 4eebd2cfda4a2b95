"""Abstract states: store + difference-bound facts + character sets + predicates."""
from collections import deque
from .terms import *

FULL = (1 << 256) - 1


def bit(n):
    return 1 << (n & 255)


def charset(pred):
    m = 0
    for i in range(256):
        if pred(i):
            m |= 1 << i
    return m


CTYPE = {
    'isspace': charset(lambda c: c in (32, 9, 10, 11, 12, 13)),
    'isdigit': charset(lambda c: 48 <= c <= 57),
    'isupper': charset(lambda c: 65 <= c <= 90),
    'islower': charset(lambda c: 97 <= c <= 122),
    'isalpha': charset(lambda c: 65 <= c <= 90 or 97 <= c <= 122),
    'isalnum': charset(lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122),
    'isblank': charset(lambda c: c in (32, 9)),
    'iscntrl': charset(lambda c: c < 32 or c == 127),
    'isprint': charset(lambda c: 32 <= c < 127),
    'isgraph': charset(lambda c: 32 < c < 127),
    'ispunct': charset(lambda c: 32 < c < 127 and not (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122)),
    'isxdigit': charset(lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102),
}
UPPER = [c - 32 if 97 <= c <= 122 else c for c in range(256)]
LOWER = [c + 32 if 65 <= c <= 90 else c for c in range(256)]


def sval(c):
    return c - 256 if c > 127 else c


def nonneg(n):
    op = n.op
    if op == 'y':
        return n.a[0] == 'u'
    if op in ('size', 'uchar', 'wrap', 'find', 'fpos', 'idx'):
        return True
    if op in ('fldn', 'mget', 'at'):
        return n.a[-1] == 'u'
    if op == 'fun':
        return n.a[0] == 'u'
    if op == 'mul':
        return all(nonneg(x) if x.op != 'i' else x.a[0] >= 0 for x in n.a)
    if op == 'add':
        return all(nonneg(lin(x)[0]) and lin(x)[1] >= 0 for x in n.a)
    return False


# ---- boolean terms
def Le(a, b):
    """a <= b"""
    d = sub(a, b)
    if d.op == 'i':
        return TRUE if d.a[0] <= 0 else FALSE
    return mk('le', a, b)


def Lt(a, b):
    return Le(addc(a, 1), b)


def Eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'scmp' and b is ZERO:
        return a.a[0]
    if b.op == 'scmp' and a is ZERO:
        return b.a[0]
    ka, kb = kind(a), kind(b)
    if ka == 'n' and kb == 'n':
        d = sub(a, b)
        if d.op == 'i':
            return TRUE if d.a[0] == 0 else FALSE
        x, c = lin(d)
        if x.op == 'sub2' and (b.op == 'i' and lin(a)[0] is x or a.op == 'i' and lin(b)[0] is x):
            a, b = x.a[0], addc(x.a[1], -c)
    if kb == 'b' and a.op == 'i':
        a, b, ka, kb = b, a, kb, ka
    if ka == 'b' and b.op == 'i':
        return Not(a) if b is ZERO else a if b is ONE or a.op == 'ctype' else FALSE
    if b.id < a.id:
        a, b = b, a
    return mk('eq', a, b)


def Slt(a, b):
    """lexicographic order of texts"""
    if a is b:
        return FALSE
    if a.op == 's' and b.op == 's':
        return TRUE if a.a[0] < b.a[0] else FALSE
    if b.op == 's' and not b.a[0]:
        return FALSE
    if a.op == 's' and not a.a[0]:
        return Not(Eq(size(b), ZERO))
    return mk('slt', a, b)


def Not(t):
    if t.op == 'i':
        return FALSE if t.a[0] else TRUE
    if t.op == 'not':
        return t.a[0]
    return mk('not', t)


def Eqs(a, b):
    if a is b:
        return TRUE
    if a.op == 's' and b.op == 's':
        return FALSE
    if b.op == 's' and not b.a[0]:
        return Eq(size(a), ZERO)
    if a.op == 's' and not a.a[0]:
        return Eq(size(b), ZERO)
    if a.op == 's' or (b.op != 's' and b.id < a.id):
        a, b = b, a
    if b.op == 's' and a.op == 'sub':
        x, p, e = a.a
        if e is size(x) and p is addc(e, -len(b.a[0])):
            return Suffix(x, b)
        if p is ZERO and e is I(len(b.a[0])):
            return Prefix(x, b)
    return mk('eqs', a, b)


def FieldEq(x, y):
    if x is y:
        return TRUE
    k = kind(x) if x.op != 'i' else kind(y)
    if k == 'p':
        if x is ZERO or y is ZERO:
            return IsNull(y if x is ZERO else x)
        if y.id < x.id:
            x, y = y, x
        return mk('ptreq', x, y)
    return Eqs(x, y) if k == 'o' else Eq(x, y)


def Prefix(s, p):
    if p.op == 's':
        if not p.a[0]:
            return TRUE
        if s.op == 's':
            return TRUE if s.a[0].startswith(p.a[0]) else FALSE
    return mk('prefix', s, p)


def Suffix(s, p):
    if p.op == 's':
        if not p.a[0]:
            return TRUE
        if s.op == 's':
            return TRUE if s.a[0].endswith(p.a[0]) else FALSE
    return mk('suffix', s, p)


def IsNull(p):
    if p.op == 'i':
        return TRUE if p.a[0] == 0 else FALSE
    if p.op in LOCOPS or p.op in ('fn', 'lam', 'it'):
        return FALSE
    if kind(p) == 'o':
        return FALSE
    return mk('isnull', p)


def Has(m, k):
    if m.op in ('put', 'ins'):
        if m.a[1] is k:
            return TRUE
        if m.op == 'put' or distinct(m.a[1], k):
            return Has(m.a[0], k)
    if m.op == 'del' and m.a[1] is k:
        return FALSE
    if m.op == 'map0':
        return FALSE
    return mk('has', m, k)


# pointer members of constant tables that are never null (set from the tables)
NONNULL_FIELDS = set()


HUGE = 1 << 62


# with MARK_LOST: states that have forgotten a condition on a value of joined paths or of a loop are marked
MARK_LOST = [False]
LOST = frozenset(('a condition on a value of joined paths is forgotten',))


def joined(y):
    return y.op == 'y' and y.a[1].__class__ is tuple and len(y.a[1]) > 1 and y.a[1][0] == 'phi'


class Tracker(object):
    """which facts were looked up"""
    __slots__ = ('P', 'M', 'Z', 'R')

    def __init__(self):
        self.P = set()
        self.M = set()
        self.Z = set()
        self.R = set()


# the tracker in use, or None
TR = [None]


SUMS = frozenset(('add', 'sub2', 'neg'))


class St(object):
    __slots__ = ('store', 'z', 'nz', 'P', 'M', 'prov', 'g', 'imp', 'ext', 'dc')

    def __init__(self):
        self.store = {}
        self.z = {ZERO: {}}
        self.nz = set()
        self.P = {}
        self.M = {}
        self.prov = {}
        self.g = {}
        self.imp = frozenset()
        self.ext = {}
        self.dc = {}

    def copy(self):
        s = St.__new__(St)
        s.store = self.store.copy()
        s.z = {a: d.copy() for a, d in self.z.items()}
        s.nz = self.nz.copy()
        s.P = self.P.copy()
        s.M = self.M.copy()
        s.prov = self.prov.copy()
        s.g = self.g.copy()
        s.imp = self.imp
        s.ext = self.ext.copy()
        s.dc = self.dc
        return s

    def pg(self, t):
        tr = TR[0]
        if tr is not None:
            tr.P.add(t)
        return self.P.get(t)

    # ------------------------------------------------------------ zone
    def node(self, n):
        if n not in self.z:
            self.z[n] = {}
            self.dc = {}
            if kind(n) == 'c':
                m = self.mask(n)
                if m:
                    vs = [sval(i) for i in range(256) if m >> i & 1]
                    self.z[n][ZERO] = max(vs)
                    self.z[ZERO][n] = -min(vs)
            elif n.op == 'uchar':
                m = self.mask(n)
                if m:
                    vs = [i for i in range(256) if m >> i & 1]
                    self.z[n][ZERO] = max(vs)
                    self.z[ZERO][n] = -min(vs)
            elif n.op in ('toupper', 'tolower'):
                self.z[n][ZERO] = 127
                self.z[ZERO][n] = 128

    def dists(self, a):
        """d with a - x <= d[x]"""
        d = self.dc.get(a)
        if d is not None:
            return d
        z = self.z
        d = {a: 0}
        q = deque((a,))
        inq = {a}
        nn = None
        while q:
            x = q.popleft()
            inq.discard(x)
            dx = d[x]
            for y, c in z.get(x, {}).items():
                v = dx + c
                o = d.get(y)
                if o is None or v < o:
                    d[y] = v
                    if y not in inq:
                        inq.add(y)
                        q.append(y)
            if x is ZERO:
                for y in z:
                    if y is not ZERO and nonneg(y):
                        o = d.get(y)
                        if o is None or dx < o:
                            d[y] = dx
                            if y not in inq:
                                inq.add(y)
                                q.append(y)
        self.dc[a] = d
        return d

    def bound(self, a, b):
        """least known c with a - b <= c, or None (a, b arbitrary numeric terms)"""
        ba, ca = lin(a)
        bb, cb = lin(b)
        ba = ba or ZERO
        bb = bb or ZERO
        if ba is bb:
            return ca - cb
        if ba not in self.z:
            self.node(ba)
        if bb not in self.z:
            self.node(bb)
        tr = TR[0]
        if tr is not None:
            tr.Z.add(ba)
            tr.Z.add(bb)
        c = self.dists(ba).get(bb)
        if c is None:
            return self.lbound(a, b) if ba.op in SUMS or bb.op in SUMS else None
        while (ba, bb, c) in self.nz or (bb, ba, -c) in self.nz:
            c -= 1
        return c + ca - cb

    def lbound(self, a, b):
        """the same through the parts of sums"""
        d, c = lcomb((a, 1), (b, -1))
        if not d:
            return c
        if len(d) == 1:
            (x, n), = d.items()
            v = self.dists(x).get(ZERO) if n > 0 else self.dists(ZERO).get(x) if x in self.z else 0 if nonneg(x) else None
            return None if v is None else v * abs(n) + c
        if len(d) == 2 and sorted(d.values()) == [-1, 1]:
            x = [y for y in d if d[y] > 0][0]
            y = [y for y in d if d[y] < 0][0]
            if x not in self.z or y not in self.z:
                return None
            v = self.dists(x).get(y)
            return None if v is None else v + c
        return None

    def expand(self, v):
        """notes how a sum compares with its parts"""
        n = lin(v)[0]
        if n is None or n.op not in SUMS:
            return
        for x in (ZERO,) + tuple(lform(n)[0]):
            if x is not ZERO and x not in self.z:
                continue
            c = self.lbound(n, x)
            if c is not None:
                self.add_le(n, x, c)
            c = self.lbound(x, n)
            if c is not None:
                self.add_le(x, n, c)

    def lower(self, a):
        """greatest known c with a >= c"""
        c = self.bound(ZERO, a)
        return None if c is None else -c

    def upper(self, a):
        return self.bound(a, ZERO)

    def le(self, a, b, k=0):
        """is a <= b + k known?"""
        c = self.bound(a, b)
        if c is None and b.op == 'i' and b.a[0] > HUGE:
            # nothing is as large as that
            ba, ca = lin(a)
            if ba is not None:
                return any(x.op == 'size' and d + ca + HUGE <= b.a[0] + k for x, d in self.dists(ba).items())
        return c is not None and c <= k

    def add_le(self, a, b, k=0):
        """learn a <= b + k; False if that is impossible"""
        ba, ca = lin(a)
        bb, cb = lin(b)
        k = k - ca + cb
        ba = ba or ZERO
        bb = bb or ZERO
        if ba is bb:
            return 0 <= k
        self.node(ba)
        self.node(bb)
        if (ba, bb, k) in self.nz or (bb, ba, -k) in self.nz:
            k -= 1
        r = self.bound(bb, ba)
        if r is not None and r + k < 0:
            return False
        o = self.dists(ba).get(bb)
        while o is not None and ((ba, bb, o) in self.nz or (bb, ba, -o) in self.nz):
            o -= 1
        e = self.z[ba].get(bb)
        if o is None or k < o or (k == o and (e is None or e > k) and ((ba, bb, k + 1) in self.nz or (bb, ba, -k - 1) in self.nz)):
            self.z[ba][bb] = k
            self.dc = {}
            if kind(ba) == 'c' or ba.op == 'uchar':
                if not self.sync_char(ba):
                    return False
            if kind(bb) == 'c' or bb.op == 'uchar':
                if not self.sync_char(bb):
                    return False
        return True

    def sync_char(self, n):
        lo, hi = self.lower(n), self.upper(n)
        m = self.mask(n)
        f = (lambda i: i) if n.op == 'uchar' else sval
        r = charset(lambda i: (lo is None or f(i) >= lo) and (hi is None or f(i) <= hi))
        return self.set_mask(n, m & r)

    def add_ne(self, a, b):
        ba, ca = lin(a)
        bb, cb = lin(b)
        ba = ba or ZERO
        bb = bb or ZERO
        k = cb - ca     # ba - bb != k
        if ba is bb:
            return k != 0
        u = self.bound(ba, bb)
        l = self.bound(bb, ba)
        if u is not None and l is not None and u == -l == k:
            return False
        self.node(ba)
        self.node(bb)
        self.nz.add((ba, bb, k))
        if u == k:
            return self.add_le(ba, bb, k - 1)
        if l is not None and -l == k:
            return self.add_le(bb, ba, -k - 1)
        return True

    # ------------------------------------------------------------ characters
    def mask(self, t):
        op = t.op
        if op == 'i':
            return bit(t.a[0])
        if op == 'uchar':
            return self.mask(t.a[0])
        if op in ('toupper', 'tolower'):
            m = self.mask(t.a[0])
            tab = UPPER if op == 'toupper' else LOWER
            r = 0
            for i in range(256):
                if m >> i & 1:
                    r |= 1 << tab[i]
            return r
        tr = TR[0]
        if tr is not None:
            tr.M.add(t)
        m = self.M.get(t)
        if m is None:
            return FULL
        return m

    def set_mask(self, t, m):
        """learn that t lies in m"""
        if m == 0:
            return False
        op = t.op
        if op == 'i':
            return bool(bit(t.a[0]) & m)
        if op == 'uchar':
            return self.set_mask(t.a[0], m)
        if op in ('toupper', 'tolower'):
            tab = UPPER if op == 'toupper' else LOWER
            return self.set_mask(t.a[0], self.mask(t.a[0]) & charset(lambda i: m >> tab[i] & 1))
        old = self.mask(t)
        m &= old
        if m == 0:
            return False
        if m != old:
            self.M[t] = m
            if op == 'at' and not (m & 1) and size(t.a[0]).op != 'i':
                n = size(t.a[0])
                if self.le(t.a[1], n):
                    if not self.add_le(t.a[1], n, -1):
                        return False
        return True

    # ------------------------------------------------------------ booleans
    def has(self, m, k):
        """Has(m, k), looking through changes of m at other keys"""
        while m.op in ('put', 'ins', 'del') and m.a[1] is not k:
            e = self.ev(Eqs(m.a[1], k)) if kind(k) == 'o' else self.ev(Eq(m.a[1], k))
            if e is False:
                m = m.a[0]
            elif e and m.op != 'del':
                return TRUE
            else:
                break
        return Has(m, k)

    def ev(self, t):
        op = t.op
        if op == 'i':
            return t.a[0] != 0
        if op == 'not':
            r = self.ev(t.a[0])
            return None if r is None else not r
        if op == 'le' or op == 'eq':
            a, b = t.a
            r = self.charcmp(op, a, b)
            if r is not None:
                p, m1, x = r
                m = self.mask(x)
                if not m & ~p:
                    return True
                if not m & p:
                    return False
                return None
            if op == 'le':
                if self.le(a, b):
                    return True
                if self.le(b, a, -1):
                    return False
                return None
            ka, kb = kind(a), kind(b)
            if ka in 'nc' and kb in 'nc':
                if ka == 'c' and kb == 'c' and not (self.mask(a) & self.mask(b)):
                    return False
                u = self.bound(a, b)
                l = self.bound(b, a)
                if (u is not None and u < 0) or (l is not None and l < 0):
                    return False
                if u == 0 and l == 0:
                    return True
                ba, ca = lin(a)
                bb, cb = lin(b)
                ba = ba or ZERO
                bb = bb or ZERO
                if (ba, bb, cb - ca) in self.nz or (bb, ba, ca - cb) in self.nz:
                    return False
                return self.pg(t)
            return self.pg(t)
        if op == 'ctype':
            m = self.mask(t.a[1])
            p = CTYPE[t.a[0]]
            if not m & ~p:
                return True
            if not m & p:
                return False
            return None
        if op == 'eqs':
            a, b = t.a
            r = self.pg(t)
            if r is not None:
                return r
            if a.op == 'rec' and b.op == 'rec' and a.a[:2] == b.a[:2]:
                # (that keys are equal when their members are is rule C27)
                es = [self.ev(FieldEq(x, y)) for x, y in zip(a.a[2], b.a[2])]
                return False if False in es else True if None not in es else None
            r = self.ev_eq(size(a), size(b))
            if r is False:
                return False
            if b.op == 's':
                k = self.chars_match(a, b.a[0])
                if k is False:
                    return False
                if k is True and r is True:
                    return True
                for i in range(1, len(b.a[0]) + 1):
                    if self.pg(mk('prefix', a, S(b.a[0][:i]))) is False:
                        return False
            return None
        if op == 'prefix':
            s, p = t.a
            r = self.pg(t)
            if r is not None:
                return r
            if self.le(size(s), size(p), -1):
                return False
            if p.op == 's':
                k = self.chars_match(s, p.a[0])
                if k is False:
                    return False
                if k is True and self.le(size(p), size(s)):
                    return True
                for i in range(1, len(p.a[0]) + 1):
                    if self.pg(mk('prefix', s, S(p.a[0][:i]))) is False:
                        return False
            return None
        if op == 'slt':
            r = self.pg(t)
            if r is None and (self.pg(mk('slt', t.a[1], t.a[0])) or self.ev(Eqs(*t.a))):
                r = False
            return r
        if op == 'suffix':
            s, p = t.a
            r = self.pg(t)
            if r is not None:
                return r
            if self.le(size(s), size(p), -1):
                return False
            return None
        if op == 'and':
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if op == 'or':
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        if op == 'isnull' and t.a[0].op == 'fldn' and t.a[0].a[1] in NONNULL_FIELDS:
            b = t.a[0].a[0]
            if not (b.op == 'at' and b.a[0].op == 'vec'):
                # not an element of the table itself: its end may be looked at
                return False
        if op == 'has':
            m, k = t.a
            r = self.pg(t)
            if r is None and m.op in ('ins', 'del'):
                e = self.pg(Eqs(m.a[1], k))
                if e:
                    return m.op == 'ins'
                if e is False or m.op == 'ins':
                    x = self.ev(self.has(m.a[0], k))
                    if x or e is False:
                        return x
            return r
        return self.pg(t)

    def ev_eq(self, a, b):
        return self.ev(Eq(a, b))

    def chars_match(self, s, b):
        res = True
        for i, c in enumerate(b[:64]):
            m = self.mask(at(s, I(i)))
            if not m >> c & 1:
                return False
            if m != 1 << c:
                res = None
        if len(b) > 64:
            res = None
        return res

    def charcmp(self, op, a, b):
        """comparison of a character with a constant -> (allowed set, None, char term)"""
        if kind(a) == 'c' or a.op in ('uchar', 'toupper', 'tolower'):
            if b.op != 'i':
                return None
            n = b.a[0]
            f = (lambda i: i) if a.op == 'uchar' else sval
            if op == 'le':
                return charset(lambda i: f(i) <= n), None, a
            return charset(lambda i: f(i) == n), None, a
        if kind(b) == 'c' or b.op in ('uchar', 'toupper', 'tolower'):
            if a.op != 'i':
                return None
            n = a.a[0]
            f = (lambda i: i) if b.op == 'uchar' else sval
            if op == 'le':
                return charset(lambda i: n <= f(i)), None, b
            return charset(lambda i: f(i) == n), None, b
        # (char + k) against a constant
        if op in ('le', 'eq'):
            for x, y, flip in ((a, b, False), (b, a, True)):
                if x.op == '+' and (kind(x.a[0]) == 'c' or x.a[0].op == 'uchar') and y.op == 'i':
                    n = y.a[0] - x.a[1]
                    f = (lambda i: i) if x.a[0].op == 'uchar' else sval
                    if op == 'eq':
                        return charset(lambda i: f(i) == n), None, x.a[0]
                    if flip:
                        return charset(lambda i: n <= f(i)), None, x.a[0]
                    return charset(lambda i: f(i) <= n), None, x.a[0]
        return None

    def assume(self, t, v):
        """learn t == v; False if impossible"""
        r = self.ev(t)
        if r is not None:
            return r == v
        op = t.op
        if op == 'not':
            return self.assume(t.a[0], not v)
        if op == 'le' or op == 'eq':
            a, b = t.a
            r = self.charcmp(op, a, b)
            if r is not None:
                p, _, x = r
                return self.set_mask(x, p if v else FULL & ~p)
            if op == 'le':
                return self.add_le(a, b) if v else self.add_le(b, a, -1)
            if kind(a) in 'nc' and kind(b) in 'nc':
                if v:
                    if kind(a) == 'c' and kind(b) == 'c':
                        m = self.mask(a) & self.mask(b)
                        if not (self.set_mask(a, m) and self.set_mask(b, m)):
                            return False
                    return self.add_le(a, b) and self.add_le(b, a)
                return self.add_ne(a, b)
            self.P[t] = v
            return True
        if op == 'ctype':
            p = CTYPE[t.a[0]]
            return self.set_mask(t.a[1], p if v else FULL & ~p)
        if op == 'eqs':
            a, b = t.a
            self.P[t] = v
            if v:
                if not self.assume(Eq(size(a), size(b)), True):
                    return False
                if b.op == 's':
                    for i, c in enumerate(b.a[0][:64]):
                        if not self.set_mask(at(a, I(i)), 1 << c):
                            return False
            elif b.op == 's' and len(b.a[0]) == 1 and self.ev_eq(size(a), ONE):
                return self.set_mask(at(a, ZERO), FULL & ~(1 << b.a[0][0]))
            return True
        if op == 'prefix':
            s, p = t.a
            if v:
                if not self.add_le(size(p), size(s)):
                    return False
                if p.op == 's':
                    for i, c in enumerate(p.a[0][:64]):
                        if not self.set_mask(at(s, I(i)), 1 << c):
                            return False
                else:
                    self.P[t] = True
                return True
            self.P[t] = False
            if p.op == 's' and len(p.a[0]) == 1:
                return self.set_mask(at(s, ZERO), FULL & ~(1 << p.a[0][0]))
            return True
        if op == 'slt' and v:
            self.P[t] = v
            self.P[mk('slt', t.a[1], t.a[0])] = False
            return self.assume(Eqs(*t.a), False)
        if op == 'suffix':
            s, p = t.a
            self.P[t] = v
            if v:
                return self.add_le(size(p), size(s))
            return True
        if op == 'and':
            if v:
                return self.assume(t.a[0], True) and self.assume(t.a[1], True)
            if self.ev(t.a[0]) is True:
                return self.assume(t.a[1], False)
            if self.ev(t.a[1]) is True:
                return self.assume(t.a[0], False)
            self.P[t] = False
            return True
        if op == 'or':
            if not v:
                return self.assume(t.a[0], False) and self.assume(t.a[1], False)
            if self.ev(t.a[0]) is False:
                return self.assume(t.a[1], True)
            if self.ev(t.a[1]) is False:
                return self.assume(t.a[0], True)
            self.P[t] = True
            return True
        self.P[t] = v
        return True

    def is_null(self, p):
        return self.ev(IsNull(p))

    # ------------------------------------------------------------ provenance
    def labels(self, t):
        r = frozenset()
        for l in t.leaves:
            p = self.prov.get(l)
            if p:
                r |= p
        return r

    # ------------------------------------------------------------ garbage
    def gc(self, extra=()):
        live = set()
        later = []
        for root, v in self.store.items():
            if root.op == 'deref':
                later.append((root, v))
            else:
                live |= v.leaves
                live |= root.leaves
        for t in extra:
            live |= t.leaves
        for k, v in self.g.items():
            if v.__class__ is T:
                live |= v.leaves
            elif v.__class__ is tuple:
                for x in v:
                    if x.__class__ is T:
                        live |= x.leaves
        ch = True
        while ch and later:
            ch = False
            rest = []
            for root, v in later:
                if root.leaves <= live or (len(root.leaves) == 1 and root.a[0].op == 'y' and root.a[0].a[2] == 0 and len(root.a[0].a[1]) == 1):
                    live |= v.leaves
                    live |= root.leaves
                    ch = True
                else:
                    rest.append((root, v))
            later = rest
        for root, v in later:
            del self.store[root]
        if MARK_LOST[0] and any(joined(y) for d in (self.P, self.M, self.z) for t in d for y in t.leaves - live):
            self.imp = self.imp | LOST
        for t in [t for t in self.P if not t.leaves <= live]:
            del self.P[t]
        for t in [t for t in self.M if not t.leaves <= live]:
            del self.M[t]
        for t in [t for t in self.prov if t not in live]:
            del self.prov[t]
        for n in [n for n in self.z if not n.leaves <= live]:
            self.drop_node(n)

    def drop_node(self, n):
        z = self.z
        out = z.get(n)
        if out is None:
            return
        self.dc = {}
        if out:
            preds = [(a, d[n]) for a, d in z.items() if n in d]
            if nonneg(n) and n not in z[ZERO]:
                preds.append((ZERO, 0))
            zz = z[ZERO]
            for a, w1 in preds:
                da = z[a]
                up = da.get(ZERO) if a is not ZERO else None
                for b, w2 in out.items():
                    if a is b:
                        continue
                    w = w1 + w2
                    o = da.get(b)
                    if o is not None and o <= w:
                        continue
                    if up is not None and b is not ZERO:
                        lo = zz.get(b)
                        if lo is None and nonneg(b):
                            lo = 0
                        if lo is not None and up + lo <= w:
                            continue
                    elif a is ZERO and w >= 0 and nonneg(b):
                        continue
                    da[b] = w
                    if TR[0] is not None:
                        # facts about n turn into facts about others
                        TR[0].Z.add(n)
                        TR[0].Z.add(a)
                        TR[0].Z.add(b)
        for d in z.values():
            d.pop(n, None)
        del z[n]
        if self.nz:
            self.nz = {e for e in self.nz if e[0] is not n and e[1] is not n}

    def rename(self, m):
        """substitute symbols everywhere (new names must be fresh)"""
        if not m:
            return
        ks = set(m)
        memo = {}

        def sb(t):
            if t.leaves and not ks.isdisjoint(t.leaves):
                return subst(t, m, memo)
            return t
        self.store = {sb(r): sb(v) for r, v in self.store.items()}
        nz = {}
        for a, d in self.z.items():
            nz[sb(a)] = {sb(b): c for b, c in d.items()}
        self.z = nz
        self.dc = {}
        self.nz = {(sb(a), sb(b), c) for a, b, c in self.nz}
        self.P = {sb(t): v for t, v in self.P.items()}
        self.M = {sb(t): v for t, v in self.M.items()}
        self.prov = {sb(t): v for t, v in self.prov.items()}
        for k, v in self.g.items():
            if v.__class__ is T:
                self.g[k] = sb(v)
            elif v.__class__ is tuple:
                self.g[k] = tuple(sb(x) if x.__class__ is T else x for x in v)


# ---------------------------------------------------------------- joining
def is_entry_root(r):
    """does the location exist since before the analysed call?"""
    if r.op == 'L':
        return r.a[0] == 'glob'
    if r.op != 'deref':
        return False
    for l in r.leaves:
        if l.op != 'y' or l.a[2] != 0:
            return False
        n = l.a[1]
        if n.__class__ is not tuple or n[0] == 'phi':
            return False
    return True


ROOT_INIT = [None]


def root_value(st, root):
    """value of a lazily created root in a state that has not touched it (stores it there)"""
    return ROOT_INIT[0](st, root)


class Joiner(object):
    def __init__(self, A, B, tag, widen=False, names=None):
        self.A = A
        self.B = B
        self.tag = tag
        self.pairs = {}
        self.binds = []
        self.widen = widen

    def val(self, x, y, path):
        if x is y:
            return x
        if x.op == 'rec' and y.op == 'rec' and x.a[0] == y.a[0] and x.a[1] == y.a[1]:
            return rec(x.a[0], x.a[1], [self.val(p, q, path + (n,)) for n, p, q in zip(x.a[1], x.a[2], y.a[2])])
        if x.op == y.op and x.op in ('it', 'rit', '.i') and x.a[0] is y.a[0] and x.a[2:] == y.a[2:]:
            return mk(x.op, x.a[0], self.val(x.a[1], y.a[1], path + ('pos',)), *x.a[2:])
        k = (x, y)
        p = self.pairs.get(k)
        if p is not None:
            return p
        kx, ky = kind(x), kind(y)
        if kx == ky:
            kd = kx
        elif {kx, ky} <= {'n', 'c', 'b'}:
            kd = 'b' if 'b' in (kx, ky) and (x.op == 'i' or y.op == 'i') else 'n'
            if 'c' in (kx, ky) and (x.op == 'i' or y.op == 'i'):
                kd = 'c'
        elif 'p' in (kx, ky):
            kd = 'p'
        else:
            kd = 'o'
        p = mk('y', kd, ('phi', self.tag) + path, 0)
        self.pairs[k] = p
        self.binds.append((p, x, y))
        return p

    def sums(self, st):
        """one of two numbers whose sum is the same in both states is written as the rest of the other"""
        bs = [b for b in self.binds if kind(b[0]) == 'n' and b[0].op == 'y']
        if len(bs) < 2 or not any(v.op == 'sub2' for p, x, y in bs for v in (lin(x)[0] or ZERO, lin(y)[0] or ZERO)):
            return
        for q, x, y in bs:
            if not all(v.op == 'sub2' or w.op == 'sub2' for v, w in ((lin(x)[0] or ZERO, lin(y)[0] or ZERO),)):
                continue
            for p, x1, y1 in bs:
                if p is q:
                    continue
                a, b = lcomb((x, 1), (x1, 1)), lcomb((y, 1), (y1, 1))
                if a == b and len(a[0]) == 1 and all(n == 1 and kind(t) == 'n' for t, n in a[0].items()):
                    (t, _), = a[0].items()
                    if any(z is t for z, _, _ in self.binds):
                        continue
                    new = sub(addc(t, a[1]), p)
                    for r, v in st.items():
                        if q in v.leaves:
                            st[r] = subst(v, {q: new})
                    self.binds = [(new if z is q else z, u, v) for z, u, v in self.binds]
                    return

    def run(self):
        # facts that both states just carry along do not count as looked up
        tr = TR[0]
        TR[0] = None
        try:
            return self.run0(tr)
        finally:
            TR[0] = tr

    def run0(self, tr):
        A, B = self.A, self.B
        R = St()
        st = {}
        for X, Y in ((A, B), (B, A)):
            for r in list(X.store):
                if r not in Y.store and is_entry_root(r):
                    root_value(Y, r)
                    if tr is not None:
                        tr.R.add(r)
        for r in sorted((r for r in A.store if r in B.store), key=lambda r: r.id):
            x, y = A.store[r], B.store[r]
            if x is y:
                st[r] = x
                continue
            if tr is not None:
                tr.R.add(r)
            st[r] = self.val(x, y, (r,))
        self.sums(st)
        R.store = st
        R.ext = dict(A.ext)
        R.imp = A.imp | B.imp
        # ghost
        for k in A.g:
            if k in B.g:
                x, y = A.g[k], B.g[k]
                if x == y:
                    R.g[k] = x
                elif x.__class__ is frozenset and y.__class__ is frozenset:
                    R.g[k] = x | y
                elif x.__class__ is T and y.__class__ is T:
                    R.g[k] = self.val(x, y, ('ghost', k))
        A, B = A.copy(), B.copy()
        ma, mb = {}, {}          # value -> phi
        ra, rb = {}, {}          # phi -> value
        for p, x, y in self.binds:
            ra[p], rb[p] = x, y
            l = A.labels(x) | B.labels(y)
            if l:
                R.prov[p] = l
            for X, v, mm in ((A, x, ma), (B, y, mb)):
                if kind(p) in 'nc':
                    if v.op != 'y' or True:
                        b, c = lin(v)
                        X.node(p)
                        X.node(b or ZERO)
                        if p is not (b or ZERO):
                            X.expand(v)
                            X.add_le(p, v)
                            X.add_le(v, p)
                if kind(p) == 'o':
                    s1, s2 = size(p), size(v)
                    X.node(s1)
                    X.node(lin(s2)[0] or ZERO)
                    X.expand(s2)
                    X.add_le(s1, s2)
                    X.add_le(s2, s1)
                if v.leaves and v.op != 'i':
                    mm.setdefault(v, []).append(p)
        # values that differ by the same in both states, though they are written differently
        ns = [b for b in self.binds if kind(b[0]) == 'n']
        if any((lin(v)[0] or ZERO).op in SUMS for b in ns for v in b[1:]):
            for X, w in ((A, 1), (B, 2)):
                seen = {}
                for b in ns:
                    d, c = lform(b[w])
                    k = frozenset(d.items())
                    o = seen.get(k)
                    if o is None:
                        seen[k] = (b[0], c)
                    else:
                        X.add_le(o[0], b[0], o[1] - c)
                        X.add_le(b[0], o[0], c - o[1])
        for t, l in A.prov.items():
            o = B.prov.get(t)
            R.prov[t] = R.prov.get(t, frozenset()) | l | (o or frozenset())
        for t, l in B.prov.items():
            R.prov[t] = R.prov.get(t, frozenset()) | l
        # predicates and character sets
        candP, candM = set(A.P) & set(B.P), set(A.M) & set(B.M)
        phis = set(ra)
        for X, mm in ((A, ma), (B, mb)):
            other = B if X is A else A
            if not mm:
                continue
            for t in list(X.P):
                for v, ps in mm.items():
                    if v.leaves <= t.leaves:
                        for p in ps:
                            c = subst(t, {v: p})
                            if c is not t:
                                candP.add(c)
            for t in list(X.M):
                for v, ps in mm.items():
                    if v.leaves <= t.leaves:
                        for p in ps:
                            c = subst(t, {v: p})
                            if c is not t and c.op != 'i':
                                candM.add(c)
        # what holds of both values, whatever they are
        for p, x, y in self.binds:
            if kind(p) == 'p':
                candP.add(IsNull(p))
            if kind(p) == 'c':
                candM.add(p)
        candP |= set(A.P) ^ set(B.P)
        candM |= set(A.M) ^ set(B.M)
        for t in candP:
            ua, ub = subst(t, ra), subst(t, rb)
            TR[0] = tr if ua is not t or ub is not t else None
            a = A.ev(ua)
            if a is None:
                continue
            b = B.ev(ub)
            if a == b:
                R.P[t] = a
        for t in candM:
            ua, ub = subst(t, ra), subst(t, rb)
            TR[0] = tr if ua is not t or ub is not t else None
            a = end_mask(A, ua)
            if a == FULL:
                continue
            b = end_mask(B, ub)
            if (a | b) != FULL:
                R.M[t] = a | b
        TR[0] = None
        if tr is not None:
            for p, x, y in self.binds:
                for X, v in ((self.A, x), (self.B, y)):
                    ns = [v, size(v)] if kind(p) == 'o' else [v]
                    work = [lin(n)[0] for n in ns if kind(n) in 'nc' and lin(n)[0] is not None]
                    ml = v.leaves
                    if ml:
                        work += [n for n in X.z if n is not ZERO and n.leaves and ml <= n.leaves]
                    seen = set()
                    while work:
                        n = work.pop()
                        if n in seen or n is ZERO:
                            continue
                        seen.add(n)
                        work += X.z.get(n, ())
                        work += [a for a, d in X.z.items() if n in d and a is not ZERO]
                    tr.Z |= seen
        # zone
        live = set()
        for r, v in R.store.items():
            live |= v.leaves
            live |= r.leaves
        for v in R.g.values():
            if v.__class__ is T:
                live |= v.leaves
            elif v.__class__ is tuple:
                for x in v:
                    if x.__class__ is T:
                        live |= x.leaves
        for p in phis:
            live.add(p)
        # terms over values -> terms over phis
        for X, mm in ((A, ma), (B, mb)):
            for n in list(X.z):
                if n is ZERO:
                    continue
                for v, ps in mm.items():
                    if v is not n and v.leaves and v.leaves <= n.leaves:
                        for p in ps:
                            c = subst(n, {v: p})
                            if c is not n and kind(c) in 'nc':
                                b, k = lin(c)
                                if b is not None and b is not n:
                                    X.node(b)
                                    X.add_le(c, n)
                                    X.add_le(n, c)
        nodes = [n for n in A.z if n.leaves <= live]
        nodes += [n for n in B.z if n.leaves <= live and n not in A.z]
        for n in nodes:
            A.node(n)
            B.node(n)
        DA = {n: A.dists(n) for n in nodes}
        DB = {n: B.dists(n) for n in nodes}
        edges = {}
        for a in nodes:
            da, db = DA[a], DB[a]
            for b in nodes:
                if a is b:
                    continue
                x = da.get(b)
                if x is None:
                    continue
                y = db.get(b)
                if y is None:
                    continue
                c = x if x > y else y
                if a is ZERO and c >= 0 and nonneg(b):
                    if c > 0 or True:
                        c = min(c, 0)
                        if c == 0:
                            continue
                edges[(a, b)] = c
        R.z = {n: {} for n in nodes}
        R.dc = {}
        R.z.setdefault(ZERO, {})
        # leave out what follows from other edges
        red = reduce_edges(nodes, edges)
        for (a, b), c in red.items():
            R.z[a][b] = c
        for e in A.nz | B.nz:
            if e[0].leaves <= live and e[1].leaves <= live:
                if all((X.ev(Eq(e[0], addc(e[1], e[2]))) is False) for X in (A, B)):
                    R.nz.add(e)
        for p, x, y in self.binds:
            if kind(p) == 'n':
                for k in (0, 1, NPOS_N):
                    if A.ev(Eq(x, I(k))) is False and B.ev(Eq(y, I(k))) is False:
                        if k != NPOS_N or 'find' in (x.op, y.op) or any(e[2] == NPOS_N or e[2] == -NPOS_N for e in A.nz | B.nz):
                            R.nz.add((p, ZERO, k))
        R.gc()
        return R


def reduce_edges(nodes, edges):
    out = dict(edges)
    adj = {}
    for (a, b), c in out.items():
        adj.setdefault(a, {})[b] = c
    for (a, b), c in sorted(edges.items(), key=lambda e: (-e[1], e[0][0].id, e[0][1].id)):
        da = adj[a]
        red = False
        for k, c1 in da.items():
            if k is b:
                continue
            c2 = adj.get(k, {}).get(b)
            if c2 is None:
                if k is ZERO and nonneg(b):
                    c2 = 0
                else:
                    continue
            if c1 + c2 <= c:
                red = True
                break
        if not red and a is ZERO:
            for k in adj:
                if k is not b and k is not ZERO and nonneg(k):
                    c2 = adj[k].get(b)
                    if c2 is not None and c2 <= c:
                        red = True
                        break
        if red:
            del da[b]
            del out[(a, b)]
    return out


def end_mask(X, t):
    """the set of a character; behind the last one of a text is NUL"""
    m = X.mask(t)
    if m == FULL and t.op == 'at' and len(t.a) == 2 and X.le(size(t.a[0]), t.a[1]):
        return 1
    return m


def join(A, B, tag):
    return Joiner(A, B, tag).run()


THRESH = (-1, 0, 1)


def widen(H, N):
    """N = join(H, ..): keep only H's stable bounds"""
    R = N.copy()
    z = {n: {} for n in N.z}
    z.setdefault(ZERO, {})
    for a, d in H.z.items():
        if a not in z:
            continue
        da = None
        for b, c in d.items():
            if b not in z:
                continue
            if da is None:
                da = N.dists(a)
            x = da.get(b)
            if x is None:
                continue
            if x <= c:
                z[a][b] = c
            else:
                for t in THRESH:
                    if t > c and x <= t:
                        z[a][b] = t
                        break
    # bounds of symbols that are new in N, and bounds against constants, stay
    for a, d in N.z.items():
        for b, c in d.items():
            if a not in H.z or b not in H.z:
                z[a].setdefault(b, c)
    R.z = z
    R.dc = {}
    R.nz = {e for e in N.nz if e in H.nz}
    return R


def covers(H, N):
    tr = TR[0]
    TR[0] = None
    try:
        return covers0(H, N)
    finally:
        TR[0] = tr


def covers0(H, N):
    """does H (head so far) already include N = join(H, new)?  N is H weakened"""
    if H.store != N.store or H.imp != N.imp or H.prov != N.prov or H.g != N.g:
        return False
    for t, v in H.P.items():
        if N.ev(t) != v:
            return False
    for t, m in H.M.items():
        if N.M.get(t, FULL) & ~m:
            return False
    for a, d in H.z.items():
        if d:
            da = N.dists(a)
            for b, c in d.items():
                x = da.get(b)
                if x is None or x > c:
                    return False
    for e in H.nz:
        if e not in N.nz and (e[1], e[0], -e[2]) not in N.nz and N.ev(Eq(e[0], addc(e[1], e[2]))) is not False:
            return False
    return True
