"""Abstract interpretation of sequences of public operations on a dictionary with arbitrary content. Isolation: after an
addition without context, lookups with context answer what they answered before it, and the reverse, and the same for two
different contexts (compared path by path as terms). Fallback: lookups on another dictionary are opaque functions of the
question; when nothing is stored and there is a fallback, the answer must be that function of exactly the same question,
for all four kinds of lookups, and an id is never returned instead."""
from ..dictlab import *


def check(ctx):
    lab = DictLab(ctx.prog)
    ctx.floor('isolation', 16)
    ctx.floor('fallback', 8)
    ctx.floor('fallback of arbitrary content', 4)
    for what, start in (('no fallback', lab.nofb), ('fallback', lab.fb)):
        for a in lab.add:
            actx = 'ctx' in lab.addroles[a]
            for k in KINDS:
                kctx = 'ctx' in ROLES[k]
                if actx and kctx:
                    ren = {'ctx': 'ctx2'}
                elif actx == kctx:
                    continue
                else:
                    ren = {}
                unaffected(lab, ctx, 'isolation', '%s after %s (%s%s)' % (k, a, what, ', other context' if ren else ''), start, a, k, ren)
    for k in KINDS:
        f = lab.look[k]
        res, thr = lab.do_look([lab.fresh_fb], k)
        lab.compare(ctx, 'fallback', k + ' on an empty dictionary', ctx.where(f), res, lambda s: lab.untranslated(s, k, fb=True), thr)
        # whatever is stored: either a stored text or the answer of the fallback, never the id
        st = lab.fb.copy()
        res, thr = lab.do_look([st], k)
        verdict, msg = (True, '') if res else (None, 'no outcome')
        want = lab.untranslated(st, k, fb=True)[0][1]
        for s, v in res:
            s, v = lab.unify(s, v)
            apps = [t for t in subterms(v) if t.op == 'app']
            if v is want or (not apps and v not in (lab.V('id'), lab.V('pid'), lab.V('ctx'))):
                continue
            lab.sub = {}
            if s.imp or unknown(v):
                verdict = verdict and None
            else:
                verdict, msg = False, 'answers %s although there is a fallback, which should be asked %s' % (short(v), short(want))
                break
        lab.sub = {}
        if thr:
            verdict, msg = False, 'throws'
        ctx.judge(verdict, 'fallback of arbitrary content', k, ctx.where(f), msg)
    for a in lab.add:
        added, thr = lab.do_add([lab.fb], a)
        forms = ('txt', 'txt') if 'txt' in lab.addroles[a] else ('vec', 'vec')
        for k in ('translate', 'translate_plural'):
            if a in ('add', 'add_ctxt') and k == 'translate_plural':
                continue
            k2 = k.replace('translate', 'translate_ctxt') if 'ctx' in lab.addroles[a] else k
            res, thr2 = lab.do_look([s for s, _ in added], k2)
            lab.compare(ctx, 'fallback', '%s after %s' % (k2, a), ctx.where(lab.look[k2]), res,
                        lambda s: lab.stored(s, k2, forms, fb=True), thr + thr2)
