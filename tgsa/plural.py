"""Plural rules: what the code computes for a count, on a finite partition of int, against the formula of the header."""
import re
from .entry import *
from .terms import *
from .interp import Client
from . import tables
from .prog import Broken

INT_MIN, INT_MAX = -(1 << 31), (1 << 31) - 1

# headers of the languages the library knows (from the GNU gettext manual and the Translate Toolkit's list)
KNOWN = [l.strip() for l in '''
nplurals=1;plural=0;
nplurals=2;plural=(n!=1);
nplurals=2;plural=n!=1;
nplurals=2;plural=(n>1);
nplurals=2;plural=n==1||n%10==1?0:1;
nplurals=2;plural=(n%10==1&&n%100!=11)?0:1;
nplurals=3;plural=(n%10==1&&n%100!=11?0:n!=0?1:2);
nplurals=3;plural=n==1?0:n==2?1:2;
nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2);
nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);
nplurals=3;plural=(n==1)?0:(n>=2&&n<=4)?1:2;
nplurals=3;plural=(n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);
nplurals=4;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);
nplurals=3;plural=(n==1?0:(((n%100>19)||((n%100==0)&&(n!=0)))?2:1));
nplurals=4;plural=(n%1==0&&n==1?0:n%1==0&&n>=2&&n<=4?1:n%1!=0?2:3);
nplurals=4;plural=(n==1&&n%1==0)?0:(n>=2&&n<=4&&n%1==0)?1:(n%1!=0)?2:3;
nplurals=4;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<12||n%100>14)?1:n%10==0||(n%10>=5&&n%10<=9)||(n%100>=11&&n%100<=14)?2:3);
nplurals=4;plural=(n==1||n==11)?0:(n==2||n==12)?1:(n>2&&n<20)?2:3;
nplurals=4;plural=(n==1)?0:(n==2)?1:(n!=8&&n!=11)?2:3;
nplurals=4;plural=(n%10==1&&(n%100>19||n%100<11)?0:(n%10>=2&&n%10<=9)&&(n%100>19||n%100<11)?1:n%1!=0?2:3);
nplurals=4;plural=(n%1==0&&n%10==1&&n%100!=11?0:n%1==0&&n%10>=2&&n%10<=4&&(n%100<12||n%100>14)?1:n%1==0&&(n%10==0||(n%10>=5&&n%10<=9)||(n%100>=11&&n%100<=14))?2:3);
nplurals=4;plural=(n==1?0:(n%10>=2&&n%10<=4)&&(n%100<12||n%100>14)?1:n!=1&&(n%10>=0&&n%10<=1)||(n%10>=5&&n%10<=9)||(n%100>=12&&n%100<=14)?2:3);
nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;
nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)
nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5
'''.strip().splitlines()]


class BadFormula(Exception):
    pass


class Formula(object):
    """a C expression over n, as in a Plural-Forms header"""
    TOK = re.compile(r'\s*(\d+|n|&&|\|\||==|!=|<=|>=|[-+*/%<>?:()!])')

    def __init__(self, text):
        self.toks = []
        i = 0
        while i < len(text):
            m = self.TOK.match(text, i)
            if not m:
                raise BadFormula('%r at %d' % (text, i))
            self.toks.append(m.group(1))
            i = m.end()
        self.i = 0
        self.consts = set()
        self.mods = set()
        self.tree = self.cond()
        if self.i != len(self.toks):
            raise BadFormula('trailing text in %r' % text)

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        self.i += 1
        return self.toks[self.i - 1]

    def cond(self):
        c = self.binary(0)
        if self.peek() == '?':
            self.next()
            a = self.cond()
            if self.next() != ':':
                raise BadFormula('no :')
            return ('?', c, a, self.cond())
        return c
    LEVELS = [('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='), ('+', '-'), ('*', '/', '%')]

    def binary(self, lvl):
        if lvl == len(self.LEVELS):
            return self.unary()
        x = self.binary(lvl + 1)
        while self.peek() in self.LEVELS[lvl]:
            op = self.next()
            y = self.binary(lvl + 1)
            if op == '%' and y[0] == 'c':
                self.mods.add(y[1])
            x = (op, x, y)
        return x

    def unary(self):
        t = self.next() if self.peek() is not None else None
        if t == '!':
            return ('!', self.unary())
        if t == '(':
            x = self.cond()
            if self.peek() != ')':
                raise BadFormula('no )')
            self.next()
            return x
        if t == 'n':
            return ('n',)
        if t is not None and t.isdigit():
            self.consts.add(int(t))
            return ('c', int(t))
        raise BadFormula('unexpected %r' % t)

    def ev(self, n, t=None):
        t = t or self.tree
        o = t[0]
        if o == 'n':
            return n
        if o == 'c':
            return t[1]
        if o == '?':
            return self.ev(n, t[2] if self.ev(n, t[1]) else t[3])
        if o == '!':
            return int(not self.ev(n, t[1]))
        if o == '&&':
            return int(bool(self.ev(n, t[1]) and self.ev(n, t[2])))
        if o == '||':
            return int(bool(self.ev(n, t[1]) or self.ev(n, t[2])))
        x, y = self.ev(n, t[1]), self.ev(n, t[2])
        if o in ('/', '%'):
            if y == 0:
                raise BadFormula('division by zero')
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if o == '/' else x - q * y
        return {'==': lambda: int(x == y), '!=': lambda: int(x != y), '<': lambda: int(x < y), '>': lambda: int(x > y),
                '<=': lambda: int(x <= y), '>=': lambda: int(x >= y), '+': lambda: x + y, '-': lambda: x - y,
                '*': lambda: x * y}[o]()


def parse_header(key):
    """'Plural-Forms:nplurals=N;plural=EXPR;' -> (N, Formula)"""
    k = re.sub(r'\s', '', key)
    m = re.match(r'(?:Plural-Forms:)?nplurals=(\d+);plural=(.*?);?$', k)
    if not m:
        raise BadFormula('not a Plural-Forms header: %r' % key)
    return int(m.group(1)), Formula(m.group(2))


class Rule(object):
    """what the code associates with one header"""

    def __init__(self, prog, key, value, where):
        self.key = key
        self.where = where
        self.prog = prog
        self.value = value
        self.n = None
        self.fn = None
        self.find(value)

    def find(self, v):
        """count and function of a PluralForms or of a row that holds them"""
        for t in subterms(v):
            if t.op == 'rec' and any(x.op in ('fn', 'lam') for x in t.a[2]):
                fns = [x for x in t.a[2] if x.op in ('fn', 'lam')]
                ints = [x for x in t.a[2] if x.op == 'i' and x not in fns]
                if len(fns) == 1 and len(ints) == 1:
                    self.n, self.fn = ints[0].a[0], fns[0]


class Watch(Client):
    def __init__(self):
        self.terms = []

    def on_assume(self, ip, st, t, v):
        self.terms.append(t)


def plural_obj(prog, n, fn):
    """interpreter, state, location of a PluralForms made by its constructor"""
    raise NotImplementedError


def evaluator(prog, rule):
    """(call, constants, moduli, why): call(n) -> value of get_plural(n) for the rule's PluralForms, or None.
    constants/moduli: what the code compares n (or a remainder of n) with; why: not None when n is used in a way the
    partition does not cover"""
    getp = prog.one('tinygettext::PluralForms::get_plural')
    ctors = [f for f in prog.many('tinygettext::PluralForms::(ctor)') if len(f['params']) == 2]
    if len(ctors) != 1:
        raise Broken('anchor: constructor of PluralForms')
    w = Watch()
    ip, st = start(prog, w)
    ip.use_memo = False
    obj = object_at(ip, 'pf', rec_ty('tinygettext::PluralForms'))
    args = []
    for p in ctors[0]['params']:
        args.append(I(rule.n) if p['t'].k in ('int',) else rule.fn)
    res, thr = run(ip, st, ctors[0], obj, args)
    if len(res) != 1 or thr:
        raise Broken('constructor of PluralForms')
    st0 = res[0][0]
    n = sym('n', ('n',))
    w.terms = []
    res, thr = run(ip, st0.copy(), getp, obj, [n])
    terms = list(w.terms) + [v for _, v in res]
    consts, mods, why = set(), set(), None
    seen = set()

    def visit(t):
        nonlocal why
        if t.__class__ is tuple:
            for x in t:
                if x.__class__ is T or x.__class__ is tuple:
                    visit(x)
            return
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op == 'i':
            consts.add(t.a[0])
            return
        if n not in t.leaves:
            return
        if t.op == 'mod' and t.a[1].op == 'i':
            mods.add(abs(t.a[1].a[0]))
            b, c = lin(t.a[0])
            if b is not n:
                why = why or show(t)
        elif t.op in ('mod', 'div', 'mul', 'add', 'sub2', 'neg') and t is not n:
            why = why or show(t)
        if t.op == '+' and t.a[1]:
            consts.add(-t.a[1])
            consts.add(t.a[1])
        for x in t.a:
            if x.__class__ is T or x.__class__ is tuple:
                visit(x)
    for t in terms:
        visit(t)
    memo = {}

    def call(k):
        if k in memo:
            return memo[k]
        ip.buf = []
        res, thr = run(ip, st0.copy(), getp, obj, [I(k)])
        vs = set()
        for s, v in res:
            e = s.ev(v) if kind(v) == 'b' else None
            if e is not None:
                v = I(int(e))
            vs.add(v)
        r = None
        if not thr and len(vs) == 1:
            v = vs.pop()
            if v.op == 'i':
                r = v.a[0]
        memo[k] = r
        return r
    return call, consts, mods, why


def cells(consts, mods):
    """representatives of the classes of int that no comparison with a constant and no remainder can tell apart"""
    L = 1
    for m in mods:
        if m > 0:
            from math import gcd
            L = L * m // gcd(L, m)
    top = max([abs(c) for c in consts if abs(c) < (1 << 30)] + [1])
    span = top + L + 1
    if span > 6000:
        return None, L, top
    # inside (-top, top) every count is a class of its own; beyond, the remainder decides
    r = list(range(-span, span + 1))
    return r + [INT_MIN, INT_MAX], L, top


def rules(prog):
    f = prog.many('tinygettext::PluralForms::from_string')[0]
    assoc, errors = tables.associations(prog, f)
    out = []
    for k, v, w in assoc:
        try:
            k = k.decode('utf-8')
        except UnicodeDecodeError:
            continue
        r = Rule(prog, k, v, w)
        if r.fn is not None:
            out.append(r)
    return out, errors
