"""Output: inventory of every mention of the standard streams and of printing functions. Rule: only functions that are the
initial value of a callback, and functions only those use, mention them. Setters: abstract interpretation; setting one
callback changes that callback to the given function, and no other one. Delivery: a log message object hands the text
collected in it to the callback it was made with, exactly once, when it is destroyed. Unset callbacks: every function that
calls through a callback or makes a log message is interpreted on arbitrary arguments and objects with each callback set
or unset (functions it calls are replaced by their possible effects); no path calls an unset one. Severity: the warnings of
the parser go to the warning callback, its errors to the error callback, failures in a directory to the error callback."""
from .. import lint
from ..modular import Modular
from ..lab import *
from ..interp import Client

OUTPUT = {'std::cout', 'std::cerr', 'std::clog', 'std::wcout', 'std::wcerr', 'std::wclog', 'stdout', 'stderr', 'printf', 'puts', 'putchar',
          'fprintf', 'fputs', 'fputc', 'putc', 'perror', 'write', 'vprintf', 'vfprintf', 'syslog', 'std::printf', 'std::puts', 'std::putchar',
          'std::fprintf', 'std::fputs', 'std::fputc', 'std::perror', 'fwrite', 'std::fwrite', 'dprintf', 'psignal', 'warn', 'warnx', 'err', 'errx'}
SETTERS = ('log_info', 'log_warning', 'log_error')


class Calls(Modular):
    def __init__(self, keep):
        Modular.__init__(self, keep)
        self.got = []

    def on_icall(self, ip, e, st, fp, args):
        self.got.append((fp, st.is_null(fp), list(args), st.copy(), ip.where(e), ip.trace()))
        return None


def callback(fp):
    """which callback a function value is"""
    if fp.op == 'y' and isinstance(fp.a[1], tuple) and fp.a[1][:1] == ('callback',):
        return fp.a[1][1]
    return None


def check(ctx):
    prog = ctx.prog
    cbs = log_callbacks(prog)
    if len(cbs) < 3:
        raise Broken('fewer than three log callbacks found')
    ctx.floor('output', 1)
    ctx.floor('setter', 2)
    # --- output
    first = set()
    for q in cbs:
        ini = prog.globals[q].get('init')
        for n in lint.walk([ini]):
            h = n.get('f')
            if n.get('e') == 'fn':
                first.add(h['m'] if h.__class__ is dict else n.get('m'))
    allowed = lint.only_from(prog, first)
    # a default callback may be public; what counts is who prints
    seen = {}
    for f, n, q, m in lint.refs(prog):
        if q in OUTPUT:
            seen.setdefault((f['q'], q), []).append((f, n))
    for (fq, q), us in sorted(seen.items()):
        f, n = us[0]
        key = '%s in %s' % (q, fq.replace(NS, ''))
        if f['m'] in allowed or f['m'] in first:
            ctx.ok('output', key, lint.where(f, n))
        else:
            ctx.bad('output', key, lint.where(f, n), 'writes to %s instead of a callback' % q)
    ctx.put('output', 'inventory', 'ok', '', '')
    # --- setters
    for s in SETTERS:
        fs = prog.byq.get('%sLog::set_%s_callback' % (NS, s), [])
        g = '%sLog::%s_callback' % (NS, s)
        if not fs or g not in prog.globals:
            ctx.undecided('setter', s, '', 'not found')
            continue
        f = fs[0]
        ip, st = start(prog, None, logs=False)
        args = [mk('y', 'p', ('new',), 0)]
        before = {q: ip.read(st, mk('L', 'glob', q), prog.globals[q]['t']) for q in cbs}
        res, thr = run(ip, st, f, None, args)
        for s2, v in res:
            for q in cbs:
                want = args[0] if q == g else before[q]
                got = ip.read(s2, mk('L', 'glob', q), prog.globals[q]['t'])
                if got is want:
                    ctx.ok('setter', '%s: %s' % (s, q.split('::')[-1]), ctx.where(f))
                else:
                    ctx.judge(None if s2.imp else False, 'setter', '%s: %s' % (s, q.split('::')[-1]), ctx.where(f), 'becomes %s' % show(got)[:80])
    # --- delivery
    dt = [f for f in prog.byq.get(NS + 'Log::(dtor)', []) if f.get('body') is not None]
    get = prog.byq.get(NS + 'Log::get', [])
    ct = [f for f in prog.byq.get(NS + 'Log::(ctor)', []) if f.get('body') is not None and len(f['params']) == 1]
    if dt and ct and get:
        c = Calls(lambda f: True)
        ip, st = start(prog, c)
        obj = object_at(ip, 'log', rec_ty(NS + 'Log'))
        cb = mk('y', 'p', ('cb',), 0)
        st.assume(IsNull(cb), False)
        res, _ = run(ip, st, ct[0], obj, [cb])
        for s, _ in res:
            for s1, out in run(ip, s, get[0], obj, [])[0]:
                text = mk('y', 'o', ('message',), 0)
                ip.write(s1, out, text)
                c.got = []
                done, _ = run(ip, s1, dt[0], obj, [])
                calls = [x for x in c.got]
                key = 'the collected text'
                if len(done) == 1 and len(calls) == 1 and calls[0][0] is cb:
                    a = calls[0][2][0]
                    a = ip.read(calls[0][3], a) if a.op in LOCOPS else a
                    ctx.judge(expect(ip, calls[0][3], a, text), 'delivery', key, ctx.where(dt[0]), 'the callback gets %s' % show(a)[:80])
                else:
                    ctx.judge(False if not done or not done[0][0].imp else None, 'delivery', key, ctx.where(dt[0]),
                              '%d calls of the callback' % len(calls))
    else:
        ctx.undecided('delivery', 'the collected text', '', 'class Log has another form')
    # --- unset callbacks, severity
    logcls = NS + 'Log'

    def kind(t):
        while t.k == 'ref':
            t = t.to
        return ('ptr', t.to.s) if t.k == 'ptr' and t.to is not None else (t.k, t.s.replace('const ', ''))

    kinds = {kind(prog.globals[q]['t']) for q in cbs}

    def takes_callback(d):
        return d.get('cls') == logcls or any(kind(p['t']) in kinds for p in d['params'])
    sites = []
    for f in prog.funcs.values():
        if not lint.in_scope(f) or takes_callback(f) or f['q'].endswith('(lambda)::operator()'):
            continue
        hit = False
        for n, ps in lint.nodes([f.get('inits'), f.get('body')]):
            h = n.get('f')
            if n.get('e') == 'global' and n['q'] in cbs:
                hit = True
            elif n.get('e') in ('call', 'ctor') and h.__class__ is dict and h['m'] in prog.funcs and takes_callback(prog.funcs[h['m']]):
                hit = True
        if hit and not f['q'].startswith(logcls + '::'):
            sites.append(f)
    ctx.floor('unset', max(1, len(sites) // 2))
    for f in sites:
        key = f['q'].replace(NS, '') + '(%s)' % ', '.join(p['name'] or '' for p in f['params'])
        c = Calls(takes_callback)
        ip, st = start(prog, c, logs=False)
        ip.use_memo = False
        obj = object_at(ip, 'this', rec_ty(f['cls'])) if f.get('cls') and not f.get('static') else None
        try:
            run(ip, st, f, obj, sym_args(ip, st, f))
        except Exception as ex:
            ctx.undecided('unset', key, ctx.where(f), '%s: %s' % (type(ex).__name__, ex))
            continue
        mine = [(fp, nl, a, s, w, t) for fp, nl, a, s, w, t in c.got if callback(fp)]
        wrong = [x for x in mine if x[1] is not False]
        sure = [x for x in wrong if not x[3].imp]
        if sure:
            ctx.bad('unset', key, sure[0][4], 'calls %s even when it is not set' % callback(sure[0][0]).split('::')[-1], sure[0][5])
        elif wrong or not mine:
            ctx.undecided('unset', key, ctx.where(f), 'approximated' if wrong else 'no call of a callback found')
        else:
            ctx.ok('unset', key, ctx.where(f))
        want = {NS + 'POParser::warning': 'log_warning_callback', NS + 'POParser::error': 'log_error_callback',
                NS + 'list_directory': 'log_error_callback'}.get(f['q'])
        if want and mine:
            other = {callback(x[0]).split('::')[-1] for x in mine} - {want}
            ctx.judge(not other, 'severity', key, ctx.where(f), 'goes to %s' % sorted(other))
    # functions that print through a callback given to them
    ctx.note('functions_with_messages', len(sites))
