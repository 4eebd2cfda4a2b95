"""Entry states."""
from .terms import *
from .state import *
from .prog import Ty
from .interp import Interp, Client, Out, Frame


def rec_ty(name):
    t = Ty()
    t.k = 'rec'
    t.name = name
    t.s = name
    return t


def log_callbacks(prog):
    """globals that hold a log callback"""
    return [g['q'] for g in prog.globals.values() if g['t'].k == 'ptr' and g['t'].to is not None and g['t'].to.k == 'func']


def table_rows(prog, cls):
    """rows of the constant tables whose elements are of class cls -> [(global, [row])]; a row is a list of values"""
    ip = Interp(prog)
    out = []
    for q, g in sorted(prog.globals.items()):
        t = g['t']
        if t.k == 'arr' and t.of is not None and t.of.k == 'rec' and t.of.name == cls and g.get('init') is not None:
            v = ip.const_init(g['init'])
            if v is None or v.op != 'vec':
                continue
            out.append((q, list(v.a)))
    return out


def find_nonnull(prog):
    """pointer members of the language table that no row (but the last, which marks the end) leaves null"""
    NONNULL_FIELDS.clear()
    for cls in prog.records:
        fs = [f['name'] for f in prog.fields(cls)]
        if not fs or not all(f['t'].k == 'ptr' for f in prog.fields(cls)):
            continue
        for q, rows in table_rows(prog, cls):
            rows = [r for r in rows if not all(fget(r, f) is ZERO for f in fs)]
            if len(rows) < 2:
                continue
            for f in fs:
                if all(fget(r, f) is not ZERO for r in rows):
                    NONNULL_FIELDS.add(f)


def start(prog, client=None, logs=True):
    """interpreter + entry state; logs: every callback is set"""
    if not hasattr(prog, 'nonnull'):
        find_nonnull(prog)
        prog.nonnull = set(NONNULL_FIELDS)
    NONNULL_FIELDS.clear()
    NONNULL_FIELDS.update(prog.nonnull)
    ip = Interp(prog, client)
    ip.fr = Frame(0, {'q': '(entry)', 'm': '', 'file': '', 'line': 0}, None, None)
    st = St()
    for q in log_callbacks(prog):
        root = mk('L', 'glob', q)
        ip.root_ty[root] = prog.globals[q]['t']
        v = ip.read(st, root, prog.globals[q]['t'])
        if v.op == 'fn' or prog.globals[q].get('init') is not None:
            # may have been changed at run time
            v = mk('y', 'p', ('callback', q), 0)
            st.store[root] = v
        if logs is True:
            st.P[IsNull(v)] = False
    return ip, st


def object_at(ip, name, ty):
    loc = mk('deref', mk('y', 'p', (name,), 0))
    ip.root_ty[loc] = ty
    return loc


def sym_args(ip, st, f, names=None):
    """one unknown value per parameter; references refer to distinct objects"""
    out = []
    for i, p in enumerate(f['params']):
        n = p['name'] or 'arg%d' % i
        t = p['t']
        if t.k == 'ref':
            out.append(object_at(ip, n, t.to))
        elif t.k == 'ptr' and t.to is not None and t.to.k == 'rec':
            v = mk('y', 'p', (n,), 0)
            ip.root_ty[mk('deref', v)] = t.to
            out.append(v)
        else:
            out.append(ip.symval(t, (n,)))
    return out


def run(ip, st, f, obj, args):
    """-> list of (state, value), list of (state, exception type, value)"""
    save = ip.thr
    ip.thr = []
    try:
        res = ip.inline(f, st, obj, args, {'l': f['line'], '_id': -f['line'] - 2000000 - (hash(f['m']) % 1000) * 0})
        thr = ip.thr
    finally:
        ip.thr = save
    return res, thr
