"""Abstract interpretation of the public operations in sequence, on a fresh dictionary and on one with arbitrary content:
add, then look up, with arbitrary ids, texts, counts and plural rule. Per path, the answer must be the term the rule
demands: the stored form selected by the plural rule if it exists and is not empty, else the untranslated answer (the id
for a count of 1, otherwise the plural id)."""
from ..dictlab import *


def check(ctx):
    lab = DictLab(ctx.prog)
    n = 0
    ctx.floor('untranslated', 4)
    ctx.floor('stored', 14)
    for k in KINDS:
        f = lab.look[k]
        res, thr = lab.do_look([lab.fresh], k)
        n += lab.compare(ctx, 'untranslated', k + ' on an empty dictionary', ctx.where(f), res, lambda s: lab.untranslated(s, k), thr)
    for start, what in ((lab.fresh, 'an empty dictionary'), (lab.nofb, 'an arbitrary dictionary')):
        for a in lab.add:
            added, thr = lab.do_add([start], a)
            if start is lab.nofb and a in ('add', 'add_ctxt'):
                # an arbitrary dictionary may hold further plural forms of the id already
                ks = ('translate',)
            else:
                ks = ('translate', 'translate_plural')
            forms = ('txt', 'txt') if 'txt' in lab.addroles[a] else ('vec', 'vec')
            for k in ks:
                k2 = k.replace('translate', 'translate_ctxt') if 'ctx' in lab.addroles[a] else k
                res, thr2 = lab.do_look([s for s, _ in added], k2)
                n += lab.compare(ctx, 'stored', '%s after %s on %s' % (k2, a, what), ctx.where(lab.look[k2]), res,
                                 lambda s: lab.stored(s, k2, forms), thr + thr2)
    ctx.note('paths_compared', n)
