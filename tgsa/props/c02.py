"""Abstract interpretation of every public operation on arbitrary arguments and objects (dictionaries with and without a
fallback, managers and converters in every state their invariants allow, also with failing files), and of the .po parser on
an arbitrary stream; readers of quoted text and predicates of a line each on their own, on any line. Obligations: every
index into a string, vector or table lies inside, every pointer that is followed, used as text or called is not null, every
iterator is one of an element, substrings begin inside; no std::out_of_range, std::length_error or std::logic_error leaves,
no assertion of the manager fails, the process is not ended; iconv() is given a descriptor there is and no more text and
room than there is; every constructor and operation of the manager keeps what it points to there. An obligation that does not follow from the conditions of the path is a
violation when the path is understood and, for an index into a text, there is a text among samples with which the
conditions hold and the index lies outside (loops: with their first rounds followed one by one); otherwise undecided."""
from itertools import product
from ..parselab import *
from ..lab import *
from ..interp import Client
from ..concrete import agrees, cev, Unclear
from .. import dictlab, mgrlab, iconvlab
from .c18 import chain
from .c30 import beyond

ESCAPING = ('std::out_of_range', 'std::length_error', 'std::logic_error', 'std::invalid_argument', 'std::bad_optional_access')


def samples():
    out = [b'']
    for line in (b'msgid "a"', b'msgctxt "a"', b'msgid_plural "a"', b'msgstr "a"', b'msgstr[0] "a"', b'#, fuzzy', b'# x', b'\xef\xbb\xbf# x', b'"a"', b' "a"',
                 b'\t "a\\n"', b'msgid "\\', b'msgid "\xa4', b'msgid "\xa4\\"', b'"\\', b'"\xa4', b'"a\xa4"', b'"a\\"'):
        out += [line[:n] for n in range(1, len(line) + 1)]
    for kw in (b'msgid', b'msgctxt', b'msgstr', b'msgid_plural', b'msgstr[0]'):
        out += [kw + x for x in (b'"', b' ', b' "', b' "x', b' "\xa4', b' "x\xa4', b' "\\', b' "x\\', b' "x"')]
    for n in (1, 2, 3, 4):
        out += [bytes(w) for w in product(b'a_.@p', repeat=n)]
    out += [b'po', b'.po', b'a.po', b'de_', b'de_AT', b'\xa4', b'\xa4"', b'nplurals=2;', b';', b'=', b'charset=', b'charset=x']
    return list(dict.fromkeys(out))


SAMPLES = samples()


def texts_in(*ts):
    """the texts that terms are about"""
    out = []
    for t in ts:
        for y in subterms(t):
            if y.op == 'y' and kind(y) == 'o' or y.op == 'sub':
                if y not in out:
                    out.append(y)
    return out


def about_text(y):
    return y.op in ('at', 'find', 'sub') or y.op == 'size' and y.a[0].op in ('y', 'sub', 'cat', 'phi')


def outside(st, i, n):
    """a text with which the path is taken and the index lies outside, or None"""
    for x in texts_in(i, n):
        if x.op != 'sub' and len(i.leaves | n.leaves) > 1:
            continue
        for w in SAMPLES:
            try:
                a, b = cev(i, {x: w}), cev(n, {x: w})
            except (Unclear, TypeError, AttributeError):
                continue
            if 0 <= a < b:
                continue
            if agrees(st, x, w):
                return w
    return None


class Any(Client):
    def on_icall(self, ip, e, st, fp, args):
        if fp.op == 'y' and isinstance(fp.a[1], tuple) and fp.a[1] and fp.a[1][0] == 'callback':
            return [(st, ZERO if e['t'].k == 'void' else ip.symval(e['t'], ('callback result', ip.xid(e))))]
        if e['t'].k == 'void':
            return [(st, ZERO)]
        return None


NULLABLE = {'std::getenv', 'getenv', 'std::setlocale', 'setlocale', 'std::strchr', 'strchr', 'std::strrchr', 'strrchr', 'std::strstr', 'strstr', 'std::strpbrk',
            'strpbrk', 'std::memchr', 'memchr', 'fopen', 'std::fopen', 'opendir', 'readdir', 'dlopen', 'dlsym', 'std::malloc', 'malloc', 'std::strtok', 'strtok'}


def of_library(p):
    """a pointer that a function not known to return null has returned"""
    for y in subterms(p):
        if y.op == 'y' and isinstance(y.a[1], tuple) and y.a[1]:
            o = y.a[1]
            if o[0] in ('fs', 'lib') and o[1] not in NULLABLE or o[0] in ('unk', 'icall', 'rec', 'undef', 'glob'):
                return True
    return False


WORD = {'null': 'not null', 'bounds': 'inside', 'range': 'inside', 'abort': 'no end of the process'}


class Run(object):
    """obligations of a run of one operation; deep(): the same with the first rounds of loops one by one"""
    def __init__(self, name, evs, res=(), thr=(), where='', deep=None, anyline=False, unmodelled=()):
        self.name, self.evs, self.res, self.thr, self.where, self.deep = name, evs, res, thr, where, deep
        self.anyline = anyline
        self.nonnull = lambda p: False          # pointers that an invariant says not to be null


def verdict(ev):
    """of an obligation that is not met: (False/None, remark)"""
    what, where, status, msg, trace, imp = ev[1:7]
    more = ev[7] if len(ev) > 7 else None
    if imp:
        return None, msg
    if status == 'bad' and (more is None or more[1] is None):
        return False, msg
    if more is None:
        return None, msg
    st, i, n = more
    if st.imp:
        return None, msg
    if what in ('bounds', 'range') and i is not None and n is not None:
        w = outside(st, i, n)
        if w is not None:
            return False, '%s, as with the text %r' % (msg, w)
        if unknown(i) or unknown(n):
            return None, msg
        if status == 'bad':
            return False, msg
        s = st.copy()
        if not s.add_le(n, i) or any(about_text(y) for t in (i, n) for y in subterms(t)):
            return None, msg
        return False, '%s, and nothing on the path keeps it from that' % msg
    if what == 'null' and i is not None:
        s = st.copy()
        if unknown(i) or of_library(i) or not s.assume(IsNull(i), True):
            return None, msg
        return False, msg
    if what == 'abort':
        return (None if any(unknown(t) for t in st.P) else False), msg
    return None, msg


def judge(ctx, r):
    met, open_ = {}, {}
    for ev in r.evs:
        if ev[0] != 'oblig':
            continue
        if ev[1] == 'range':        # an exception: counts if it leaves
            rule = 'inside'
            if ev[3] != 'ok':
                continue
        rule = WORD[ev[1]]
        more = ev[7] if len(ev) > 7 else None
        if ev[3] == 'ok' or rule == 'not null' and more is not None and more[1] is not None and r.nonnull(more[1]):
            met[rule] = met.get(rule, 0) + 1
            continue
        open_.setdefault((rule, ev[2]), []).append(ev)
    for (rule, w), evs in open_.items():
        v = None
        for ev in evs:
            v, msg = verdict(ev)
            if v is False:
                break
        else:
            msg = evs[0][4]
        if v is None and r.deep is not None:
            d = r.deeper()
            for ev in d.evs:
                if ev[0] == 'oblig' and ev[3] != 'ok' and ev[2] == w and WORD[ev[1]] == rule:
                    v2, m2 = verdict(ev)
                    if v2 is False:
                        v, msg = v2, m2
                        break
        ctx.judge(v, rule, '%s %s' % (r.name, w), w, msg, ev[5])
    for rule, n in met.items():
        ctx.ok(rule, '%s: %d obligations' % (r.name, n), r.where)
    out = [(s, t) for s, t, v in r.thr if t in ESCAPING]
    if out:
        v = None if all(s.imp for s, t in out) else False
        ctx.judge(v, 'no such exception', r.name, r.where, '%s leaves' % out[0][1])
    else:
        ctx.ok('no such exception', r.name, r.where)


def runs(ctx):
    prog = ctx.prog
    pub = {}
    for cls in ('Dictionary', 'PluralForms', 'Language', 'IConv', 'DictionaryManager', 'UnixFileSystem', 'Log'):
        pub[cls] = [f for f in (prog.funcs.get(m['m']) for m in prog.record(NS + cls)['methods'] if m['access'] == 0) if f is not None and f.get('body') is not None]
    # --- the parser
    lab = PLab(prog).parse()
    yield Run('POParser::parse', lab.ip.events(), (), lab.thr)
    used = sorted(lab.client.used, key=str)

    def deeper():
        evs = []
        for m, kw, consts in used:
            if kw is not None:
                evs += lab.on_lines(m, kw, consts)
        return Run('', evs)
    for r in lab.client.readers.values():
        x = Run(r.f['q'].replace(NS, ''), r.ip.events(), where=ctx.where(r.f))
        x.deep, x.deeper = True, deeper
        yield x
    # --- everything else with plain objects
    reached = set()
    todo = []
    for cls in ('PluralForms', 'Language', 'UnixFileSystem', 'Log'):
        todo += pub[cls]
    todo += mgrlab.mapping(prog)
    for f in prog.funcs.values():
        if f.get('body') is not None and f['q'].startswith(NS) and f not in todo and not f['params'] and not f.get('cls'):
            todo.append(f)
    for f in todo:
        yield alone(ctx, prog, f)
    for m in sorted(lab.client.preds):
        yield alone(ctx, prog, prog.funcs[m])
    # --- dictionaries
    lab = dictlab.DictLab(prog)
    for kind_, st in (('', lab.nofb), (' with a fallback', lab.fb)):
        for f in pub['Dictionary']:
            if f['q'].endswith('(dtor)') and f.get('body') is None:
                continue
            lab.ip.buf = []
            st1 = st.copy()
            args = sym_args(lab.ip, st1, f)
            res, thr = run(lab.ip, st1, f, lab.D, args)
            yield Run('Dictionary::' + f['q'].rsplit('::', 1)[-1] + '(%d)' % len(f['params']) + kind_, lab.ip.events(), res, thr, ctx.where(f))
    # --- converters
    for shape in ('none', 'open'):
        lab = iconvlab.IconvLab(prog)
        for f in pub['IConv']:
            st, cd = lab.shape(shape)
            if st is None or f['q'].endswith('(ctor)'):
                continue
            st.store[iconvlab.END] = ZERO
            st.store[iconvlab.INPOS] = ZERO
            st.store[iconvlab.ROOM] = ZERO
            x = converter(ctx, lab, f, st, shape)
            if shape == 'open':
                x.deep = True
                x.deeper = lambda f=f: converter(ctx, iconvlab.IconvLab(prog), f, None, 'open', 3)
            yield x
            conversion(ctx, x, lab.ip)
    # --- managers
    lab = mgrlab.MgrLab(prog)
    sh = mgrlab.Shape(lab)
    systems = [f for f in prog.fields(NS + 'DictionaryManager') if 'FileSystem' in f['t'].s]
    fixed = [lab.ip.read(lab.st0.copy(), mk('.f', lab.M, f['name']), f['t']) for f in systems]
    lab.client.on_assert = lambda ip, st, e: ip.event('assert', ip.where(e), ip.trace(), st.copy())
    for f in pub['DictionaryManager']:
        if not f['q'].endswith('(ctor)') or any(p['t'].k == 'ref' and p['t'].to.rec() == NS + 'DictionaryManager' for p in f['params']):
            continue
        st = lab.st0.copy()
        args = sym_args(lab.ip, st, f)
        given = []
        for a, p in zip(args, f['params']):
            if 'FileSystem' in p['t'].s:
                v = lab.ip.read(st, a) if a.op in LOCOPS else a
                given.append(v)
                st.assume(IsNull(v), False)
        r, args = sh.apply(st, f, args)
        x = Run('DictionaryManager::%s(%d)' % (f['q'].rsplit('::', 1)[-1], len(args)), lab.ip.events(), r.res, r.thr, ctx.where(f))
        yield x
        for s, v in r.res:
            for fl in systems:
                q = lab.ip.read(s, mk('.f', lab.M, fl['name']), fl['t'])
                n = s.is_null(q)
                ctx.judge(n is False or q in given or (None if s.imp or unknown(q) or n is None else False), 'kept pointers', x.name + ' file system', ctx.where(f),
                          'there is no file system: %s' % show(q)[:60])
    for name, st in sh.states():
        for op, f in sh.ops():
            lab.ip.buf = []
            r, args = sh.apply(st, f)
            x = Run('DictionaryManager::%s, %s' % (op, name), lab.ip.events(), r.res, r.thr, ctx.where(f))
            if not any(p['t'].rec() == NS + 'Language' or p['t'].k == 'ref' and p['t'].to.rec() == NS + 'Language' for p in f['params']):
                for ev in x.evs:
                    if ev[0] == 'assert':
                        s = ev[3]
                        ctx.judge(None if s.imp or any(unknown(t) for t in s.P) else False, 'assertions', '%s %s' % (x.name, ev[1]), ev[1], 'an assertion fails', ev[2])
                ctx.ok('assertions', x.name, ctx.where(f))
            cache = sh.get(st, 'map')
            x.nonnull = lambda p: p.op == 'mget' and p.a[0] is cache or p in fixed
            yield x
            for s, t in [(s, '') for s, v in r.res] + [(s, t) for s, t, v in r.thr]:
                puts, rest = chain(sh.get(s, 'map'))
                for op_, k, v in puts:
                    if v is not None:
                        n = s.is_null(v)
                        ctx.judge(True if n is False else None if s.imp or unknown(v) else False, 'kept pointers', x.name, ctx.where(f),
                                  'the cache holds a null pointer%s' % (t and ' when %s leaves' % t))
                for fl, p in zip(systems, fixed):
                    q = lab.ip.read(s, mk('.f', lab.M, fl['name']), fl['t'])
                    ctx.judge(q is p or s.is_null(q) is False or (None if s.imp or unknown(q) else False), 'kept pointers', x.name + ' file system', ctx.where(f),
                              'the file system is no longer there')


def converter(ctx, lab, f, st, shape, unroll=0):
    if st is None:
        st, cd = lab.shape(shape)
        for r in (iconvlab.END, iconvlab.INPOS, iconvlab.ROOM):
            st.store[r] = ZERO
    if unroll:
        lab.ip.unroll = unroll
    lab.ip.buf = []
    lab.args = args = sym_args(lab.ip, st, f)
    res, thr = run(lab.ip, st, f, lab.O, args)
    return Run('IConv::' + f['q'].rsplit('::', 1)[-1] + '(%d) %s' % (len(f['params']), shape), lab.ip.events(), res, thr, ctx.where(f))


def conversion(ctx, x, ip):
    """what iconv() is given: a descriptor there is, no more text and no more room than there is"""
    for ev in x.evs:
        if ev[0] != 'iconv':
            continue
        kind_, s, w, tr, more = ev[1:6]
        if kind_ == 'use':
            ctx.judge(True if more[0] else False if more[0] is False and not s.imp else None, 'given to iconv', x.name + ': descriptor', w, 'there is no descriptor', tr)
        elif kind_ in ('input', 'output') and more[0] is not None:
            base, i, n = more[:3]
            z = size(ip.read(s.copy(), base))
            e = s.ev(Le(add(i, n), z))
            if e is None and not s.imp and beyond(s, i, n, z):
                e = False
            ctx.judge(True if e else None if s.imp else e, 'given to iconv', x.name + ': ' + ('text' if kind_ == 'input' else 'room'), w,
                      '%s characters at %s of %s' % (show(n)[:60], show(i)[:60], show(z)[:60]), tr)


def alone(ctx, prog, f, unroll=0):
    ip, st = start(prog, Any())
    ip.use_memo = False
    if unroll:
        ip.unroll = unroll
    obj = object_at(ip, 'this', rec_ty(f['cls'])) if f.get('cls') and not f.get('static') else None
    args = sym_args(ip, st, f)
    res, thr = run(ip, st, f, obj, args)
    r = Run(f['q'].replace(NS, '') + '(%d)' % len(f['params']), ip.events(), res, thr, ctx.where(f))
    if not unroll and f['params']:
        r.deep = True
        r.deeper = lambda: alone(ctx, prog, f, 3)
    elif not unroll and r.evs and any(ev[0] == 'oblig' and ev[3] != 'ok' for ev in r.evs):
        return alone(ctx, prog, f, 1000)        # tables that are filled from constants: followed row by row
    return r


def check(ctx):
    for rule in ('not null', 'inside'):
        ctx.floor(rule, 10)
    for r in runs(ctx):
        judge(ctx, r)
