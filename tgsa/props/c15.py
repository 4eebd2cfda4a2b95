"""Abstract interpretation of two public operations in sequence on a dictionary with arbitrary content: add, then look up.
Rules: the lookup of the same id (and context) answers the text just added, whatever was stored before; adding changes
the answer for no other id (compared with the answer before the addition, path by path); replacing a different text
calls the warning callback."""
from ..dictlab import *


def check(ctx):
    lab = DictLab(ctx.prog)
    ctx.floor('last one wins', 10)
    ctx.floor('other ids', 8)
    ctx.floor('warning', 4)
    for a in lab.add:
        actx = 'ctx' in lab.addroles[a]
        forms = ('txt', 'txt') if 'txt' in lab.addroles[a] else ('vec', 'vec')
        single = 'txt' in lab.addroles[a]
        starts = [('arbitrary content', lab.nofb)]
        for b in lab.add:
            if ('ctx' in lab.addroles[b]) == actx:
                r, t = lab.do_add([lab.fresh], b, {'txt': 'txt2', 'vec': 'vec2', 'pid': 'pid2'})
                starts += [('%s before, path %d' % (b, i), s) for i, (s, _) in enumerate(r)]
        for what, start in starts:
            added, thr = lab.do_add([start], a)
            for k in ('translate', 'translate_plural'):
                k2 = k.replace('translate', 'translate_ctxt') if actx else k
                sts = [s for s, _ in added]
                if single and k == 'translate_plural':
                    # forms other than the first may be those of an earlier plural entry
                    sts = [s2 for s in sts for s1, idx in lab.form(s) for s2, first in fork(lab.ip, s1, Eq(idx, ZERO)) if first]
                res, thr2 = lab.do_look(sts, k2)
                want = lambda s: lab.stored(s, k2, forms)
                lab.compare(ctx, 'last one wins', '%s after %s (%s)' % (k2, a, what), ctx.where(lab.add[a]), res, want, thr + thr2)
        for k in KINDS:
            if ('ctx' in ROLES[k]) == actx:
                unaffected(lab, ctx, 'other ids', '%s after %s' % (k, a), lab.nofb, a, k, {'id': 'id2'})
        # warning
        first, t1 = lab.do_add([lab.fresh], a, {'txt': 'txt2', 'vec': 'vec2'})
        sts = []
        x, y = (lab.val['txt'], lab.val['txt2']) if single else (lab.val['vec'], lab.val['vec2'])
        for s, _ in first:
            s.g = {k: v for k, v in s.g.items() if not k.startswith('said.')}
            if not single and not s.assume(Eq(size(y), ZERO), False):
                continue
            if s.assume(Eqs(x, y), False):
                sts.append(s)
        second, t2 = lab.do_add(sts, a)
        verdict, msg = (True, '') if second else (None, 'no outcome')
        for s, _ in second:
            if not any(k.startswith('said.') and 'warning' in k for k in s.g):
                verdict, msg = (None if s.imp else False), 'a different text is replaced without a warning'
        ctx.judge(verdict, 'warning', a, ctx.where(lab.add[a]), msg)
