"""Constant propagation collects every (header, number of forms, plural function) association the header lookup can
return. Each plural function is then interpreted abstractly over the finite partition of int induced by the constants it
compares the count (or a remainder of the count) with: within a class all counts take the same path. Rule: for every
class, negative counts included, the index is below the number of forms."""
from .. import plural


def check(ctx):
    prog = ctx.prog
    rules, errors = plural.rules(prog)
    for q, why in errors:
        ctx.undecided('table', q, '', why)
    ncells = 0
    ctx.floor('index<forms', 20)
    for r in rules:
        call, consts, mods, why = plural.evaluator(prog, r)
        reps, L, top = plural.cells(consts, mods)
        if reps is None:
            why = why or 'too many classes of counts'
            reps = list(range(-1200, 1201)) + [plural.INT_MIN, plural.INT_MAX]
        bad = None
        und = None
        for n in reps:
            v = call(n)
            ncells += 1
            if v is None:
                und = n
            elif not 0 <= v < r.n:
                bad = (n, v)
                break
        if bad:
            ctx.bad('index<forms', r.key, r.where, 'for a count like %d the plural function selects form %d, but there are only %d forms' % (bad[0], bad[1], r.n), [r.fn.a[0]])
        elif why:
            ctx.undecided('index<forms', r.key, r.where, 'the count is used in %s' % (why,))
        elif und is not None:
            ctx.undecided('index<forms', r.key, r.where, 'no single result for a count like %d' % und)
        else:
            ctx.ok('index<forms', r.key, r.where)
    ctx.note('classes_of_counts', ncells)
