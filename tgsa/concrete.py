"""Witnesses: does a text satisfy all that a path assumes about it?  Facts are evaluated as the constant expressions they
become when the text is put in; nothing of the library is run."""
from .terms import *

NP = (1 << 64) - 1


BCALL = None    # value of a predicate of the project on given values


class Unclear(Exception):
    pass


def cev(t, env):
    """value of a term (bytes, int or bool)"""
    if t in env:
        return env[t]
    op, a = t.op, t.a
    if op == 'i':
        return a[0]
    if op == 's':
        return a[0]
    if op == 'size':
        return len(cev(a[0], env))
    if op == '+':
        return cev(a[0], env) + a[1]
    if op == 'add':
        return cev(a[0], env) + cev(a[1], env)
    if op == 'sub2':
        return cev(a[0], env) - cev(a[1], env)
    if op == 'mul':
        return cev(a[0], env) * cev(a[1], env)
    if op in ('div', 'mod'):
        x, y = cev(a[0], env), cev(a[1], env)
        if x < 0 or y <= 0:
            raise Unclear
        return x // y if op == 'div' else x % y
    if op == 'neg':
        return -cev(a[0], env)
    if op == 'cat':
        return b''.join(cev(x, env) for x in a)
    if op == 'chr':
        return bytes([cev(a[0], env) & 255])
    if op == 'sub':
        s, i, e = (cev(x, env) for x in a)
        if not 0 <= i <= e <= len(s):
            raise Unclear
        return s[i:e]
    if op == 'at' and len(a) == 2:
        s, i = cev(a[0], env), cev(a[1], env)
        if not 0 <= i <= len(s):
            raise Unclear
        c = s[i] if i < len(s) else 0
        return c - 256 if c > 127 else c
    if op in ('toupper', 'tolower'):
        c = cev(a[0], env)
        lo = 97 if op == 'toupper' else 65
        return c + (-32 if op == 'toupper' else 32) if lo <= c < lo + 26 else c
    if op == 'wrap':
        return cev(a[0], env) & NP
    if op == 'uchar':
        return cev(a[0], env) & 255
    if op in ('eq', 'ptreq'):
        return cev(a[0], env) == cev(a[1], env)
    if op == 'upd':
        s, i, c = (cev(x, env) for x in a)
        if not 0 <= i < len(s):
            raise Unclear
        return s[:i] + bytes([c & 255]) + s[i + 1:]
    if op in ('find', 'contains'):
        s, p = cev(a[0], env), cev(a[2], env)
        n = find(s, a[1], p, env)
        if op == 'contains':
            return n >= 0
        if n < 0:
            raise Unclear
        return n
    if op in ('suffix', 'prefix', 'eqs'):
        x, y = cev(a[0], env), cev(a[1], env)
        return x.endswith(y) if op == 'suffix' else x.startswith(y) if op == 'prefix' else x == y
    if op == 'slt':
        return cev(a[0], env) < cev(a[1], env)
    if op == 'bcall' and BCALL is not None:
        return BCALL(a[0], tuple(cev(x, env) for x in a[1]))
    if op == 'and':
        return cev(a[0], env) and cev(a[1], env)
    if op == 'or':
        return cev(a[0], env) or cev(a[1], env)
    if op == 'not':
        return not cev(a[0], env)
    raise Unclear


def find(s, x, p, env):
    if x.op == 'rf':
        y = cev(x.a[0], env)
        p &= NP
        return s.rfind(y, 0, len(s) if p >= len(s) else p + len(y))
    if x.op == 'charset':
        cs = cev(x.a[1], env)
        nm = x.a[0]
        no = 'not' in nm
        if 'last' in nm:
            r = range(min(len(s) - 1, p & NP), -1, -1)
        else:
            r = range(p, len(s))
        for i in r:
            if (s[i] in cs) != no:
                return i
        return -1
    if p > len(s):
        return -1
    return s.find(cev(x, env), p)


def mentions(t, x):
    return any(y is x for y in subterms(t))


def free(t):
    return any(y.op in ('fun', 'bcall') and y.a[1] != 'files' for y in subterms(t))


def agrees(st, x, w):
    """is every fact about x true of the text w?  None if one is not understood"""
    env = {x: w}

    def have(t):
        return mentions(t, x) and not (x.op == 'at' and free(t))
    clear = True
    for t, v in st.P.items():
        if have(t):
            try:
                if cev(t, env) != v:
                    return False
            except (Unclear, TypeError, AttributeError):
                clear = False
    for t, m in st.M.items():
        if have(t):
            try:
                if not m >> (cev(t, env) & 255) & 1:
                    return False
            except (Unclear, TypeError, AttributeError):
                clear = False
    for t, d in st.z.items():
        for u, k in d.items():
            if (have(t) or have(u)) and not free(t) and not free(u):
                if not (have(t) or t.op == 'i') or not (have(u) or u.op == 'i'):
                    # compared with something else that is free
                    if len(t.leaves | u.leaves) > len(x.leaves) and (t.op == 'y' or u.op == 'y' or t.op == 'size' or u.op == 'size'):
                        continue
                    clear = False
                    continue
                try:
                    if cev(t, env) - cev(u, env) > k:
                        return False
                except (Unclear, TypeError, AttributeError):
                    clear = False
    return True if clear else None


def witness(st, x, names):
    """a text of names that the path can be about, or None"""
    for w in names:
        if agrees(st, x, w):
            return w
    return None
