"""Hash-consed terms: the values of the abstract domain.

A term is immutable; equal terms are the same object.  Operators:

  i n                 integer constant (also bool, null pointer)
  s bytes             string constant
  y kind name         symbol (an unknown value); kind n(umber) u(nsigned) b(ool) c(har) o(bject) p(ointer)
  + base c            base + constant, c != 0
  add, sub2, mul ...  other arithmetic
  size v              length of a string or container
  cat a b ...         concatenation
  sub s a e           characters a..e-1 of s
  upd s i c           s with position i replaced
  at s i              element i
  push v x / resize v n / erase..   containers
  put m k x / mget m k / has m k    maps
  rec cls names vals  record
  fld v f             field of an unknown record
  L ... / .f / .i / .k / .p         locations (= pointers and references)
"""

_tab = {}
_n = [0]


class T(object):
    __slots__ = ('op', 'a', 'id', 'leaves', '_kind')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


EMPTY = frozenset()


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    _n[0] += 1
    t.id = _n[0]
    t._kind = None
    if op == 'y':
        t.leaves = frozenset((t,))
    else:
        ls = EMPTY
        for x in a:
            if x.__class__ is T:
                if x.leaves and x.leaves is not ls:
                    ls = ls | x.leaves if ls else x.leaves
            elif x.__class__ is tuple:
                for y in x:
                    if y.__class__ is T and y.leaves:
                        ls = ls | y.leaves
        t.leaves = ls
    _tab[key] = t
    return t


def I(n):
    return mk('i', n)


ZERO = I(0)
ONE = I(1)
TRUE = ONE
FALSE = ZERO
NPOS_N = (1 << 64) - 1
NPOS = I(NPOS_N)


def S(b):
    if isinstance(b, str):
        b = b.encode('utf-8')
    return mk('s', bytes(b))


_fresh = [0]


def fresh(kind, name):
    _fresh[0] += 1
    return mk('y', kind, name, _fresh[0])


def sym(kind, name):
    return mk('y', kind, name, 0)


NUMOPS = {'i', '+', 'add', 'sub2', 'mul', 'div', 'mod', 'size', 'uchar', 'toupper', 'tolower', 'wrap', 'neg', 'find', 'min', 'max', 'ptrdiff', 'int', 'fpos', 'idx'}
BOOLOPS = {'cmp', 'eqs', 'not', 'prefix', 'suffix', 'has', 'and', 'or', 'ctype', 'ptreq', 'lt', 'bcall', 'isnull', 'dupd', 'streq', 'contains', 'le', 'eq', 'slt'}
LOCOPS = {'L', '.f', '.i', '.k', '.e', 'kcell', 'deref'}


def kind(t):
    k = t._kind
    if k is None:
        op = t.op
        if op == 'y':
            k = t.a[0]
            if k == 'u':
                k = 'n'
        elif op == 'at':
            k = kind_of_elem(t)
        elif op in NUMOPS:
            k = 'n'
        elif op in BOOLOPS:
            k = 'b'
        elif op in LOCOPS or op in ('it', 'rit', 'fn', 'lam'):
            k = 'p'
        elif op == 'fldn':
            k = t.a[2]
        elif op == 'fun':
            k = t.a[0]
        elif op == 'mget':
            k = t.a[2] if len(t.a) > 2 else 'o'
        else:
            k = 'o'
        if k == 'u':
            k = 'n'
        t._kind = k
    return k


def kind_of_elem(t):
    return t.a[2] if len(t.a) > 2 else 'c'


# ------------------------------------------------------------------ numbers
def lin(t):
    """(base or None, constant)"""
    if t.op == 'i':
        return None, t.a[0]
    if t.op == '+':
        return t.a[0], t.a[1]
    return t, 0


_lf = {}


def lform(t):
    """linear form: ({atom: coefficient}, constant); do not change it"""
    r = _lf.get(t)
    if r is None:
        b, c = lin(t)
        d = {}
        if b is not None:
            if b.op in ('add', 'sub2', 'neg'):
                if b.op == 'neg':
                    parts = (lform(b.a[0]) + (-1,),)
                else:
                    parts = (lform(b.a[0]) + (1,), lform(b.a[1]) + (1 if b.op == 'add' else -1,))
                for x, k, n in parts:
                    c += k * n
                    for a, m in x.items():
                        m = d.get(a, 0) + m * n
                        if m:
                            d[a] = m
                        else:
                            d.pop(a, None)
            else:
                d[b] = 1
        r = _lf[t] = (d, c)
    return r


def lcomb(*parts):
    """linear combination of (term, factor)"""
    d, c = {}, 0
    for t, n in parts:
        x, k = lform(t)
        c += k * n
        for a, m in x.items():
            m = d.get(a, 0) + m * n
            if m:
                d[a] = m
            else:
                d.pop(a, None)
    return d, c


def addc(t, c):
    if c == 0:
        return t
    b, k = lin(t)
    if b is None:
        return I(k + c)
    return b if k + c == 0 else mk('+', b, k + c)


def add(x, y):
    bx, cx = lin(x)
    by, cy = lin(y)
    if bx is None:
        return addc(y, cx)
    if by is None:
        return addc(x, cy)
    # (a - b) + b  ->  a
    for p, q in ((bx, by), (by, bx)):
        if p.op == 'sub2' and p.a[1] is q:
            return addc(p.a[0], cx + cy)
    if by.id < bx.id:
        bx, by = by, bx
    return addc(mk('add', bx, by), cx + cy)


def sub(x, y):
    bx, cx = lin(x)
    by, cy = lin(y)
    if by is None:
        return addc(x, -cy)
    if bx is by:
        return I(cx - cy)
    if bx is None:
        return addc(mk('neg', by), cx - cy)
    if bx.op == 'add':
        if bx.a[0] is by:
            return addc(bx.a[1], cx - cy)
        if bx.a[1] is by:
            return addc(bx.a[0], cx - cy)
    if bx.op == 'sub2' and by.op == 'sub2' and bx.a[1] is by.a[1]:
        return addc(sub(bx.a[0], by.a[0]), cx - cy)
    if by.op == 'sub2' and by.a[0] is bx:       # a - (a - b) -> b
        return addc(by.a[1], cx - cy)
    return addc(mk('sub2', bx, by), cx - cy)


def mul(x, y):
    if x.op == 'i' and y.op == 'i':
        return I(x.a[0] * y.a[0])
    if x.op == 'i':
        x, y = y, x
    if y.op == 'i':
        if y.a[0] == 0:
            return ZERO
        if y.a[0] == 1:
            return x
        return mk('mul', x, y)
    if y.id < x.id:
        x, y = y, x
    return mk('mul', x, y)


def size(v):
    op = v.op
    if op == 's':
        return I(len(v.a[0]))
    if op == 'cat':
        r = ZERO
        for p in v.a:
            r = add(r, size(p))
        return r
    if op == 'sub':
        return sub(v.a[2], v.a[1])
    if op in ('upd', 'mapc'):
        return size(v.a[0])
    if op in ('push', 'pushf'):
        return addc(size(v.a[0]), 1)
    if op == 'resize':
        return v.a[1]
    if op == 'vec':
        return I(len(v.a))
    if op == 'rep':
        return v.a[0]
    if op == 'chr':
        return ONE
    if op in ('eraset', 'del'):
        return addc(size(v.a[0]), -1)
    if op == 'put':
        return size(v.a[0])
    if op == 'ins':
        return addc(size(v.a[0]), 1)
    if op == 'map0':
        return ZERO
    return mk('size', v)


def cat(*ps):
    out = []
    for p in ps:
        if p.op == 'cat':
            qs = p.a
        else:
            qs = (p,)
        for q in qs:
            if q.op == 's' and not q.a[0]:
                continue
            if q.op == 'chr' and q.a[0].op == 'i':
                q = S(bytes([q.a[0].a[0] & 255]))
            if out and q.op == 's' and out[-1].op == 's':
                out[-1] = S(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return S(b'')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def substr(s, a, e):
    """characters a..e-1; the caller has made sure that 0 <= a <= e <= size"""
    if a is ZERO and e is size(s):
        return s
    if a is e:
        return S(b'')
    if s.op == 's' and a.op == 'i' and e.op == 'i':
        return S(s.a[0][a.a[0]:e.a[0]])
    if s.op == 'sub':
        return substr(s.a[0], add(s.a[1], a), add(s.a[1], e))
    if s.op == 'mapc':
        return mk('mapc', substr(s.a[0], a, e), s.a[1])
    return mk('sub', s, a, e)


def at(s, i, k='c'):
    op = s.op
    if op == 's':
        if i.op == 'i':
            n = i.a[0]
            b = s.a[0]
            if 0 <= n < len(b):
                return I(b[n] - 256 if b[n] > 127 else b[n])
            return ZERO
    elif op == 'sub':
        return at(s.a[0], add(s.a[1], i), k)
    elif op == 'upd':
        if s.a[1] is i:
            return s.a[2]
        d = sub(s.a[1], i)
        if d.op == 'i':
            return at(s.a[0], i, k)
    elif op == 'push':
        n = size(s.a[0])
        d = sub(n, i)
        if d.op == 'i':
            if d.a[0] == 0:
                return s.a[1]
            if d.a[0] > 0:
                return at(s.a[0], i, k)
    elif op == 'pushf':
        if i.op == 'i':
            return s.a[1] if i is ZERO else at(s.a[0], addc(i, -1), k)
    elif op == 'vec':
        if i.op == 'i' and 0 <= i.a[0] < len(s.a):
            return s.a[i.a[0]]
    elif op == 'rep':
        return s.a[1]
    elif op == 'chr':
        if i is ZERO:
            return s.a[0]
    elif op == 'cat':
        if i.op == 'i':
            n = i.a[0]
            for p in s.a:
                z = size(p)
                if z.op != 'i':
                    if p is s.a[0] or True:
                        break
                if n < z.a[0]:
                    return at(p, I(n), k)
                n -= z.a[0]
        else:
            # the last part, when the position is measured from the whole before
            pre = s.a[:-1]
            z = size(cat(*pre))
            d = sub(i, z)
            if d.op == 'i' and d.a[0] >= 0:
                return at(s.a[-1], d, k)
    elif op == 'mapc':
        return mapchar(s.a[1], at(s.a[0], i, k))
    if k == 'c':
        return mk('at', s, i)
    return mk('at', s, i, k)


def mapchar(f, c):
    if c.op == 'i':
        n = c.a[0]
        if f == 'toupper' and 97 <= n <= 122:
            return I(n - 32)
        if f == 'tolower' and 65 <= n <= 90:
            return I(n + 32)
        return c
    return mk(f, c)


def upd(s, i, x):
    if s.op == 'upd' and s.a[1] is i:
        s = s.a[0]
    if at(s, i, kind(x) if kind(x) != 'n' else 'c') is x:
        return s
    if s.op == 'vec' and i.op == 'i' and 0 <= i.a[0] < len(s.a):
        l = list(s.a)
        l[i.a[0]] = x
        return mk('vec', *l)
    if s.op == 's' and i.op == 'i' and x.op == 'i' and 0 <= i.a[0] < len(s.a[0]):
        b = bytearray(s.a[0])
        b[i.a[0]] = x.a[0] & 255
        return S(bytes(b))
    return mk('upd', s, i, x)


# ------------------------------------------------------------------ records
def rec(cls, names, vals):
    return mk('rec', cls, tuple(names), tuple(vals))


def fget(v, f, k='o'):
    if v.op == 'rec':
        ns = v.a[1]
        if f in ns:
            return v.a[2][ns.index(f)]
        return mk('fldn', v, f, k)
    if v.op == 'updf':
        if v.a[1] == f:
            return v.a[2]
        return fget(v.a[0], f, k)
    return mk('fldn', v, f, k)


def fput(v, f, x):
    if v.op == 'rec':
        ns = v.a[1]
        if f in ns:
            l = list(v.a[2])
            l[ns.index(f)] = x
            return rec(v.a[0], ns, l)
    if v.op == 'updf':
        if v.a[1] == f:
            return mk('updf', v.a[0], f, x)
    return mk('updf', v, f, x)


def mget(m, k, kd='o'):
    """value stored under k"""
    if m.op in ('put', 'ins'):
        if m.a[1] is k:
            return m.a[2]
        if distinct(m.a[1], k):
            return mget(m.a[0], k, kd)
    return mk('mget', m, k, kd) if kd != 'o' else mk('mget', m, k)


def mput(m, k, x):
    if m.op in ('put', 'ins') and m.a[1] is k:
        return mk(m.op, m.a[0], k, x)
    return mk('put', m, k, x)


def mins(m, k, x):
    """m with the new key k"""
    return mk('ins', m, k, x)


def distinct(a, b):
    if a is b or a.op != b.op:
        return False
    if a.op == 'rec':
        return any(distinct(x, y) for x, y in zip(a.a[2], b.a[2]))
    if a.op == '.i' and a.a[0] is b.a[0] and a.a[0].op == 'L':
        return distinct(a.a[1], b.a[1])
    return a.op in ('s', 'i')


_rebuild = {
    'add': add, 'sub2': sub, 'mul': mul, 'size': size, 'cat': cat, 'sub': substr,
    'upd': upd, 'fldn': fget, 'updf': fput, 'mget': mget, 'put': mput,
    'toupper': lambda c: mapchar('toupper', c), 'tolower': lambda c: mapchar('tolower', c),
    '+': lambda b, c: addc(b, c), 'at': at,
}


def subst(t, m, memo=None):
    """replaces terms (keys of m) in t"""
    if t in m:
        return m[t]
    if not t.leaves:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    na = []
    ch = False
    for x in t.a:
        if x.__class__ is T:
            y = subst(x, m, memo)
            if y is not x:
                ch = True
            na.append(y)
        elif x.__class__ is tuple:
            y = tuple(subst(z, m, memo) if z.__class__ is T else z for z in x)
            if y != x:
                ch = True
            na.append(y)
        else:
            na.append(x)
    if not ch:
        r = t
    else:
        f = _rebuild.get(t.op)
        r = f(*na) if f else mk(t.op, *na)
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    for x in t.a:
        if x.__class__ is T:
            subterms(x, seen)
        elif x.__class__ is tuple:
            for y in x:
                if y.__class__ is T:
                    subterms(y, seen)
    return seen


def show(t, d=0):
    if d > 6:
        return '…'
    op = t.op
    if op == 'i':
        return 'npos' if t.a[0] == NPOS_N else str(t.a[0])
    if op == 's':
        return repr(t.a[0].decode('utf-8', 'replace'))
    if op == 'y':
        return '%s%s' % (t.a[1] if isinstance(t.a[1], str) else '/'.join(map(str, t.a[1])), ('#%d' % t.a[2]) if t.a[2] else '')
    if op == '+':
        return '%s%+d' % (show(t.a[0], d + 1), t.a[1])
    if op == 'rec':
        return '%s{%s}' % (t.a[0].split('::')[-1], ', '.join('%s=%s' % (n, show(v, d + 1)) for n, v in zip(t.a[1], t.a[2])))
    if op == 'L':
        return '&' + '.'.join(str(x) for x in t.a[1:])
    if op in ('.f',):
        return '%s.%s' % (show(t.a[0], d + 1), t.a[1])
    if op in ('.i', '.k', '.e'):
        return '%s[%s]' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    return '%s(%s)' % (op, ', '.join(show(x, d + 1) if x.__class__ is T else str(x) for x in t.a))
