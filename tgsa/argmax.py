"""The inductive step of a search for the best: a loop keeps the best element so far and its score."""
from .mgrlab import *


def best_step(ctx, l, best, x, cand_of, want, noun, rule='step', positive=False):
    """l: loop; best: the variable for the best so far (a value at a head); x: the element of an iteration;
    cand_of(term): is it a score?; want: what is scored against (or None);
    positive: every score is above 0"""
    where = l.where()
    tops = {}
    iters = [(h, b) for k, h in l.all_heads() for b in l.trans[k]]
    for h, b in iters:
        for h2k, h2 in l.all_heads():
            for r, v in h2.store.items():
                for y in v.leaves:
                    if l.is_phi(y) and kind(y) == 'n':
                        z = l.now(b, y)
                        if z is not None and l.now(h, y) is not z and any(cand_of(w) for w in subterms(z)):
                            tops.setdefault(y, set()).add(z)
    if len(tops) != 1:
        takes = [b for h, b in iters if l.now(b, best) is Course(l, x).at(h)]
        nums = {y for h, b in iters for r, v in h.store.items() for y in v.leaves if l.is_phi(y) and y is not best and y not in x.leaves and kind(y) in 'nu'}
        uses = any(cand_of(z) and not x.leaves <= z.leaves for h, b in iters for t in list(b.P) + list(b.z) for z in subterms(t))
        v = False if not tops and takes and not nums and not uses and not any(b.imp for b in takes) else None
        ctx.judge(v, rule, 'the score of the best is kept', where, 'nothing is kept of the score of the best' if v is False else '%d variables hold a score' % len(tops))
        return
    top = list(tops)[0]
    low = 0
    for s in l.before:
        z = l.now(s, top)
        if z is not None and z.op == 'i':
            low = min(low, z.a[0])
        ctx.judge(True if z is not None and s.ev(Le(z, ZERO)) else None if z is None or unknown(z) else False, rule, 'the first score counts as no match', where,
                  'the best score begins as %s' % (z and show(z)[:40]))
        z = l.now(s, best)
        ctx.judge(True if z is ZERO or z is S('') else None if z is None or unknown(z) else False, rule, 'in the beginning there is no best', where,
                  'the best begins as %s' % (z and show(z)[:40]))
    for h, b in iters:
        xh = Course(l, x).at(h)
        nb, ns, hb, hs = l.now(b, best), l.now(b, top), l.now(h, best), l.now(h, top)
        if None in (nb, ns, hb, hs):
            ctx.undecided(rule, 'best', where, 'the variables are not followed')
            continue
        if xh is None:
            ctx.undecided(rule, 'best', where, 'the %s is not followed' % noun)
            continue
        b2 = b.copy()
        b2.add_le(I(low), hs)
        scores = {w for t in list(b.P) + list(b.store.values()) + list(b.z) for z in subterms(t) if cand_of(z) and xh in z.a for w in (z,)}
        if nb is xh:
            key = 'a %s becomes the best: ' % noun
            ctx.judge(True if ns in scores else None if b.imp or unknown(ns) and ns is not hs and not any(cand_of(w) for w in subterms(ns)) else False, rule, key + 'its score is the best', where,
                      'the best score becomes %s' % show(ns)[:80])
            if ns not in scores:
                continue
            if want is not None:
                ctx.judge(True if want in ns.a else None if b.imp else False, rule, key + 'score against what was asked for', where, 'scores %s' % show(ns)[:100])
            ctx.judge(True if b2.ev(Le(hs, ns)) else None if b.imp else False, rule, key + 'not below the best', where, 'a worse %s is taken' % noun)
            ctx.judge(True if positive or b2.ev(Lt(ZERO, ns)) else None if b.imp else False, rule, key + 'above 0', where, 'a %s that does not match is taken' % noun)
        elif nb is hb:
            key = 'the best is kept: '
            ctx.judge(True if ns is hs else None if b.imp else False, rule, key + 'so is its score', where, 'the best score becomes %s' % show(ns)[:80])
            ctx.judge(True if any(b2.ev(Le(y, hs)) for y in scores) else None if b.imp else False, rule, key + 'not better', where, 'a better %s is left out' % noun)
        else:
            ctx.judge(None if b.imp or unknown(nb) else False, rule, 'the best is a %s' % noun, where, 'the best becomes %s' % show(nb)[:80])
