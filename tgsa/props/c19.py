"""Abstract interpretation of get_dictionary and get_languages on an arbitrary manager, where every call of the file system
object may throw, return no stream or one that is not good, and parsing may throw. A typestate follows each failure until
the error callback is called. Rules: no exception leaves the operation; no failure is pending at the end of the operation
or of an iteration of a loop; nothing is parsed from a stream that is missing or not good; the loop over the search path
(index analysis as for C16) visits every directory also when there are failures."""
from ..mgrlab import *


def check(ctx):
    prog = ctx.prog
    ctx.floor('contained', 1)
    ctx.floor('reported', 1)
    for name in ('get_dictionary', 'get_languages'):
        lab = MgrLab(prog, fail=True)
        r = lab.load() if name == 'get_dictionary' else lab.list()
        f = lab.get_lang if name == 'get_dictionary' else lab.get_languages
        n = len(r.of('open_directory')) + len(r.of('open_file'))
        if not n:
            ctx.undecided('contained', name, ctx.where(f), 'the file system is not used')
            continue
        if r.thr:
            s, t, v = r.thr[0]
            ctx.judge(None if all(x[0].imp for x in r.thr) else False, 'contained', name, ctx.where(f), 'an exception (%s) leaves the operation' % t)
        else:
            ctx.ok('contained', name, ctx.where(f))
        pend = []
        for s, v in r.res:
            if s.g.get('failed'):
                pend.append((s, ctx.where(f)))
        for l in r.loops:
            for k, bs in l.trans.items():
                pend += [(b, l.where()) for b in bs if b.g.get('failed')]
            for k, (ex, away) in l.leave.items():
                pend += [(x, l.where()) for x in ex + away if x.g.get('failed')]
        sure = [x for x in pend if not x[0].imp]
        if sure:
            ctx.bad('reported', name, sure[0][1], 'a failure is not reported through the error callback')
        elif pend:
            ctx.undecided('reported', name, pend[0][1], 'approximated')
        else:
            ctx.ok('reported', name, ctx.where(f))
        for st, w, t, more in r.of('parse'):
            if st.g.get('failed'):
                ctx.judge(None if st.imp else False, 'usable stream', name, w, 'parses a stream that could not be opened', t)
            else:
                ctx.ok('usable stream', name, w)
        for ev in r.rest:
            if ev[0] == 'oblig' and ev[1] == 'null' and ev[3] != 'ok' and not ev[6] and 'stream' in str(ev[4]):
                ctx.bad('usable stream', name, ev[2], ev[4], ev[5])
        for st, w, t, p, base, idx in dir_terms(r):
            if idx is None:
                ctx.undecided('other directories', name, w, 'lists %s' % show(p)[:80])
            else:
                v, msg, step = visits_all(r, base, idx)
                ctx.judge(v, 'other directories', name, w, msg, t)
