"""Adding and removing: abstract interpretation of add_directory and remove_directory on an arbitrary manager; the search
path afterwards, on every path, is compared with the specified one. Order: abstract interpretation of get_dictionary on an
arbitrary manager and language, with an unbounded search path; the index of the directory that is listed is an induction
variable of a loop, of which first value, step and last value are derived. Rule: it runs from the last directory to the
first, and the file parsed in an iteration is one of the directory listed in it (what is added last wins, rule C15)."""
from ..mgrlab import *


def check(ctx):
    prog = ctx.prog
    ctx.floor('order', 1)
    ctx.floor('search path', 1)
    mem = members(prog)
    lab = MgrLab(prog, fail=False)
    ip = lab.ip
    path = mem.get('path')
    if path is None:
        ctx.undecided('search path', 'the search path', '', 'no member that is a sequence of strings')
    else:
        loc = mk('.f', lab.M, path['name'])
        for nm, n in (('add_directory', 2), ('remove_directory', 1)):
            f = lab.public('DictionaryManager', nm, n)
            st = lab.st0.copy()
            args = sym_args(ip, st, f)
            x = ip.read(st, args[0]) if args[0].op in LOCOPS else args[0]
            old = ip.read(st, loc, path['t'])
            res, thr = run(ip, st, f, lab.M, args)
            for s, v in res:
                new = ip.read(s, loc, path['t'])
                has = s.ev(Contains(old, x, ZERO))
                if nm == 'add_directory':
                    first = s.ev(args[1])
                    want = {(True, None): old, (False, True): mk('pushf', old, x), (False, False): mk('push', old, x)}.get(
                        (has, None if has else first))
                    key = 'adding a directory that is there' if has else 'adding with precedence' if first else 'adding without precedence'
                else:
                    want = old if has is False else mk('eraset', old, mk('find', old, x, ZERO)) if has else None
                    key = 'removing a directory that is %s there' % ('' if has else 'not')
                if new is want:
                    ctx.ok('search path', key, ctx.where(f))
                elif new is old or new.op in ('push', 'pushf', 'eraset') and new.a[0] is old:
                    # known outcome, but not the right one on this path
                    dark = has is None and any(unknown(t) for d in (s.P, s.M, s.z) for t in d)
                    ctx.judge(None if s.imp or dark else False, 'search path', key if want is not None else '%s in all cases' % nm, ctx.where(f),
                              'the search path becomes %s' % show(new)[:120])
                else:
                    ctx.undecided('search path', key, ctx.where(f), 'the search path becomes %s' % show(new)[:120])
    r = lab.load()
    dirs = dir_terms(r)
    if not dirs:
        ctx.undecided('order', 'directories', ctx.where(lab.get_lang), 'no directory is listed')
    for st, w, t, p, base, idx in dirs:
        if idx is None:
            ctx.undecided('order', 'directories are read from the last to the first', w, 'lists %s' % show(p)[:80])
            continue
        v, msg, step = visits_all(r, base, idx)
        if step:
            ctx.judge(step == -1, 'order', 'directories are read from the last to the first', w, 'reads the first directory first', t)
        else:
            ctx.undecided('order', 'directories are read from the last to the first', w, msg)
    listed = {p for st, w, t, p, base, idx in dirs}
    for st, w, t, more in r.of('parse'):
        name = more[0]
        d = name.a[0] if name.op == 'cat' else None
        ctx.judge(None if d is None or st.imp else d in listed, 'order', 'the file is one of the directory listed', w, 'parses %s' % show(name)[:100], t)
