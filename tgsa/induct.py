"""Loops: what a term becomes from one iteration to the next, and where it begins."""
from .terms import *
from .state import *


class LoopRec(object):
    """one loop of the final round of the analysis"""
    def __init__(self, node, inst, f, before, entry, heads, trans, leave):
        self.node, self.inst, self.f = node, inst, f
        self.before, self.entry, self.heads, self.trans, self.leave = before, entry, heads, trans, leave
        self.tag = ('loop', inst)

    def where(self):
        return '%s:%s (%s)' % (self.f.get('file', '?'), self.node.get('l'), self.f['q'])

    def owns(self, t):
        """does the term depend on a value at the head of this loop?"""
        return any(self.is_phi(y) for y in t.leaves)

    def is_phi(self, y):
        if y.op != 'y':
            return False
        n = y.a[1]
        return n.__class__ is tuple and len(n) > 1 and n[0] == 'phi' and n[1] == self.tag

    def change(self, head, st):
        """values at the head -> values in the state st at the same places"""
        m = {}
        for r, v in head.store.items():
            if r in st.store and any(self.is_phi(y) for y in v.leaves):
                match(v, st.store[r], self.is_phi, m)
        return m

    def now(self, st, y):
        """value in st of the variable whose value at some head is y"""
        for k, h in self.heads.items():
            for r, v in h.store.items():
                if y in v.leaves and r in st.store:
                    m = {}
                    match(v, st.store[r], lambda z: z is y, m)
                    if y in m:
                        return m[y]
        return None

    def all_heads(self):
        return list(self.heads.items())


def match(h, b, is_phi, m):
    if h.op == 'y':
        if is_phi(h):
            m[h] = b
        return
    if not h.leaves or h.op != b.op or len(h.a) != len(b.a):
        return
    for x, y in zip(h.a, b.a):
        if x.__class__ is T and y.__class__ is T:
            match(x, y, is_phi, m)
        elif x.__class__ is tuple and y.__class__ is tuple and len(x) == len(y):
            for p, q in zip(x, y):
                if p.__class__ is T and q.__class__ is T:
                    match(p, q, is_phi, m)


class Course(object):
    """how the number t (over values at loop heads) runs through a loop: first value, step, last value"""
    def __init__(self, loop, t):
        self.loop, self.t = loop, t
        self.step = None
        self.firsts = set()
        steps = set()
        for k, h in loop.all_heads():
            old = self.at(h)
            for b in loop.trans[k]:
                new = self.at(b)
                d = sub(new, old) if old is not None and new is not None else None
                steps.add(d.a[0] if d is not None and d.op == 'i' else None)
        for s in loop.before:
            v = self.at(s)
            if v is not None:
                self.firsts.add(canon(s, v))
        if len(steps) == 1:
            self.step = steps.pop()

    def at(self, st):
        m = {}
        for y in self.t.leaves:
            if self.loop.is_phi(y):
                m[y] = self.loop.now(st, y)
                if m[y] is None:
                    return None
        return subst(self.t, m) if m else self.t

    def ends(self, limit):
        """per way out of the loop: is t the limit there? True, False or None, and the state"""
        out = []
        for k, (ex, away) in self.loop.leave.items():
            if k is None:
                # the first iteration, looked at on its own
                t = None
                for s in self.loop.before:
                    t = self.at(s) or t
                if t is None:
                    t = self.t
            else:
                t = self.at(self.loop.heads[k]) if k in self.loop.heads else None
                if t is None:
                    t = self.t
            for s in ex:
                out.append((s.ev(Eq(t, limit)), s))
            for s in away:
                out.append((False, s))
        return out


def canon(st, t):
    c = st.lower(t)
    return I(c) if c is not None and st.upper(t) == c else t
