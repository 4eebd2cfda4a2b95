"""Constant propagation collects every (header, number of forms, plural function) association the header lookup can
return; the header's own formula is parsed as the C expression it is. Code and formula are compared by abstract
interpretation over the finite partition of int that the constants and moduli of both induce. Rules: every header that
was recognised when the check was written (the gettext manual's list) still is; its number of forms is the declared one;
the function selects the form the formula selects, for every class of counts; a key can be found at all, i.e. it is in
the normal form that the lookup produces (no white space)."""
import re
from .. import plural


def check(ctx):
    prog = ctx.prog
    rules, errors = plural.rules(prog)
    for q, why in errors:
        ctx.undecided('table', q, '', why)
    norm = {}
    for r in rules:
        norm.setdefault(r.key, r)
    ctx.floor('known header', 20)
    ctx.floor('function==formula', 20)
    ctx.floor('forms==nplurals', 20)
    if len(rules) < 5:
        return
    for h in plural.KNOWN:
        k = 'Plural-Forms:' + h
        r = norm.get(k)
        if r is None:
            # the table may spell the key differently, as long as the lookup does too
            c = [x for x in rules if x.key.endswith(h)]
            if len(c) == 1 and all(x.key.startswith(c[0].key[:-len(h)]) for x in rules):
                r = c[0]
        ctx.judge(r is not None, 'known header', h, rules[0].where, 'no plural forms are associated with this header any more')
    ncells = 0
    for r in rules:
        ctx.judge(not re.search(r'\s', r.key), 'key without white space', r.key, r.where,
                  'the lookup removes white space, so this key can never be found')
        try:
            n, formula = plural.parse_header(r.key)
        except plural.BadFormula as ex:
            ctx.undecided('function==formula', r.key, r.where, str(ex))
            continue
        ctx.judge(n == r.n, 'forms==nplurals', r.key, r.where, 'declared %d forms, the table says %d' % (n, r.n))
        call, consts, mods, why = plural.evaluator(prog, r)
        reps, L, top = plural.cells(consts | formula.consts, mods | formula.mods)
        if reps is None:
            why = why or 'too many classes of counts'
            reps = list(range(-1200, 1201)) + [plural.INT_MIN, plural.INT_MAX]
        bad = und = None
        for k in reps:
            if k < 0:
                continue
            v = call(k)
            ncells += 1
            if v is None:
                und = k
            elif v != formula.ev(k):
                bad = (k, v, formula.ev(k))
                break
        if bad:
            ctx.bad('function==formula', r.key, r.where, 'for a count like %d the code selects form %d, the header form %d' % bad, [r.fn.a[0]])
        elif why:
            ctx.undecided('function==formula', r.key, r.where, 'the count is used in %s' % (why,))
        elif und is not None:
            ctx.undecided('function==formula', r.key, r.where, 'no single result for a count like %d' % und)
        else:
            ctx.ok('function==formula', r.key, r.where)
    ctx.note('classes_of_counts', ncells)
