"""Constant tables: what key is associated with what value, however the table is written."""
from .prog import walk
from .terms import *
from .state import *
from .entry import start, object_at, rec_ty, run, sym_args


def reachable(prog, f):
    """functions reachable from f (static calls, function values, initialisers of the globals used) and those globals"""
    seen, globs = {}, {}
    work = [f]
    while work:
        g = work.pop()
        if g['m'] in seen:
            continue
        seen[g['m']] = g
        parts = [g.get('body'), g.get('inits')]
        todo = list(walk(parts))
        while todo:
            n = todo.pop()
            q = None
            if n.get('e') == 'global':
                q = n['q']
            elif n.get('s') == 'decl':
                for v in n['v']:
                    if v.get('static') and v.get('q'):
                        q = v['q']
            if q is not None and q not in globs:
                gl = prog.globals.get(q)
                globs[q] = gl
                if gl is not None and gl.get('init') is not None:
                    todo += list(walk([gl['init']]))
            h = n.get('f')
            if h.__class__ is dict and h.get('m') in prog.funcs:
                work.append(prog.funcs[h['m']])
    return seen, globs


def init_values(prog, g):
    """possible values of a global's initialiser"""
    ip, st = start(prog)
    ip.use_memo = False
    ini = g.get('init')
    if ini is None:
        return []
    v = ip.const_init(ini)
    if v is not None:
        return [v]
    try:
        out = []
        for s, v in ip.ev_noclean(ini, st):
            if ini.get('lv'):
                v = ip.read(s, v, g['t'])
            out.append(v)
        return out
    except Exception as ex:
        g['_tables_error'] = '%s: %s' % (type(ex).__name__, ex)
        return []


def collect(v, where, out):
    for t in subterms(v):
        if t.op in ('put', 'ins') and t.a[1].op == 's':
            out.append((t.a[1].a[0], t.a[2], where))
        elif t.op == 'rec' and len(t.a[2]) > 1:
            for x in t.a[2]:
                if x.op == 's':
                    out.append((x.a[0], t, where))


def associations(prog, f, run_body=True):
    """[(key, value term, where)] of every constant association in the tables f uses: map entries, rows of records (the
    value is the row), and returns guarded by a comparison of a string with a constant"""
    _, globs = reachable(prog, f)
    out = []
    errors = []
    for q, g in sorted(globs.items()):
        if g is None:
            continue
        where = '%s:%s (%s)' % (g.get('file', '?'), g.get('l', g.get('line', '?')), q)
        vals = init_values(prog, g)
        if g.get('_tables_error'):
            errors.append((q, g['_tables_error']))
        for v in vals:
            collect(v, where, out)
    if run_body:
        where = '%s:%s (%s)' % (f['file'], f['line'], f['q'])
        try:
            ip, st = start(prog)
            obj = None
            if f.get('cls') and not f.get('static'):
                obj = object_at(ip, 'this', rec_ty(f['cls']))
            res, _ = run(ip, st, f, obj, sym_args(ip, st, f))
            for s, v in res:
                for x in s.store.values():
                    collect(x, where, out)
                if v is not None and v.op == 'rec':
                    for t, b in s.P.items():
                        if b and t.op == 'eqs':
                            for x in t.a:
                                if x.op == 's':
                                    out.append((x.a[0], v, where))
        except Exception as ex:
            errors.append((f['q'], '%s: %s' % (type(ex).__name__, ex)))
    uniq = []
    seen = set()
    for k, v, w in out:
        if (k, v) not in seen:
            seen.add((k, v))
            uniq.append((k, v, w))
    return uniq, errors
