"""Reading: abstract interpretation of the .po parser on an arbitrary stream with a typestate of the entry being read; whether
the texts read behind msgstr are empty is part of the state. Rule: on every path to an addition at least one text read behind
msgstr of this entry is not empty. Lookups: abstract interpretation of every lookup on a dictionary with arbitrary content,
with and without a fallback (whose answers are assumed to have the property), for ids that are not empty. Rule: on every path
the answer is not empty: that follows from the conditions of the path, or the answer is the id or the plural id."""
from ..parselab import *
from ..dictlab import DictLab, KINDS, ROLES, short


def check(ctx):
    lab = analyse(ctx)
    for r in ('stored', 'answered'):
        ctx.floor(r, 1)
    for what, s, w, tr, more in lab.events:
        if what == 'add':
            g = s.g
            ok = g.get('msg') == 'n'
            if not ok and g.get('msg') is None and not soft(s):
                continue        # nothing read at all: rule of C07
            if not ok and own_flags(s):
                ok = None
            ctx.judge(ok or (None if soft(s) or ok is None else False), 'stored', '%s %s' % (w, sort_of(g)), w,
                      'an entry without text (%s) is stored' % sort_of(g), tr)
    dl = DictLab(ctx.prog)
    for what, start in (('no fallback', dl.nofb), ('fallback', dl.fb)):
        for k in KINDS:
            f = dl.look[k]
            st = start.copy()
            ok = True
            for r in ROLES[k]:
                if r in ('id', 'pid'):
                    ok = ok and st.assume(Lt(ZERO, size(dl.val[r])), True)
            res, thr = dl.do_look([st], k)
            verdict, msg = (True, '') if res and ok else (None, 'no outcome')
            for s, v in res:
                e = filled(s, v)
                if e is not True and verdict is not False:
                    verdict, msg = e, 'answers with %s, which can be empty' % short(v)
            ctx.judge(verdict, 'answered', '%s (%s)' % (k, what), ctx.where(f), msg)


def own_flags(s):
    """conditions of the path on values computed by a loop, which may say something about the texts"""
    for t in s.P:
        for y in t.leaves:
            n = y.a[1] if y.op == 'y' else None
            if n.__class__ is tuple and n and n[0] == 'phi' and kind(y) in 'bn' and '/eof' not in str(n):
                return True
    return False


def filled(s, v):
    """is the text not empty?"""
    if v.op == 'app':
        return True if s.ev(Lt(ZERO, size(v.a[2][0 if 'ctxt' not in v.a[0] else 1]))) else None
    e = s.ev(Lt(ZERO, size(v)))
    if e:
        return True
    b = s.copy()
    if not b.assume(Eq(size(v), ZERO), True):
        return True
    return None if s.imp or unknown(v) else False
