"""Dictionary managers in composed runs: parsing, the mapping of names to languages and the file system are opaque."""
from .lab import *
from .models import Contains
from .interp import Client, _fresh_n
from .induct import *
from .concrete import witness


# what a failing call throws
EXCEPTIONS = ('std::runtime_error', 'std::logic_error')


def fun(k, name, *args):
    return mk('fun', k, name, *args)


class MClient(Client):
    track_delete = True
    wants_loops = True
    lab = None

    # ---- opaque functions of the library
    def intercept(self, ip, f, obj, args, st, e):
        k = self.lab.opaque.get(f['m'])
        return k(self, ip, f, obj, args, st, e) if k is not None else None

    def on_recursion(self, ip, d, st, obj, args, e):
        return self.lab.recursion(ip, d, st, obj, args, e)

    def on_env(self, ip, e, f, st, obj, args):
        return self.lab.env(ip, e, f, st, obj, args)

    def on_icall(self, ip, e, st, fp, args):
        if fp.op == 'y' and isinstance(fp.a[1], tuple) and fp.a[1] and fp.a[1][0] == 'callback':
            nm = fp.a[1][1].rsplit('::', 1)[-1]
            if nm == 'log_error_callback':
                st.g.pop('failed', None)
            return [(st, ZERO)]
        return None

    def ev(self, ip, kind, st, e, *more):
        ip.event('mgr', kind, st.copy(), ip.where(e), ip.trace(), more)

    def on_new(self, ip, st, root, ty, e):
        self.ev(ip, 'new', st, e, root, ty)

    def on_delete(self, ip, st, p, e):
        if p.op == 'fun' and p.a[1] in ('stream', 'badstream'):
            st.store.pop(mk('deref', p), None)
            return
        if not st.is_null(p):
            prev = st.store.get(FREED)
            if prev is not None and prev.op == 'freed' and prev.a[0] is p:
                self.ev(ip, 'twice', st, e, p)
            self.ev(ip, 'delete', st, e, p)
            st.store[FREED] = mk('freed', p)

    def on_insert(self, ip, st, loc, x, e):
        self.ev(ip, 'insert', st, e, loc, x)
        st.store[GHOST] = mk('inserted', x)

    def on_write(self, ip, st, loc, v):
        # states with and without changes of the cache are not merged
        if self.lab is not None and loc is self.lab.M and v.op in ('rec', 'updf') and self.lab.cache:
            x = fget(v, self.lab.cache)
            if x.op in ('put', 'ins', 'del', 'map0'):
                st.g['cache'] = x.op
        t = ip.root_ty.get(loc)
        if t is not None and v.op == 'rec' and v.a[0] == NS + 'Dictionary' and self.lab is not None and self.lab.texts:
            xs = [fget(v, n) for n in self.lab.texts]
            if not any(unknown(x) for x in xs):
                st.g['texts'] = tuple(x.id for x in xs)

    def on_loop_done(self, ip, node, inst, before, entry, heads, trans, leave):
        ip.event('loop', LoopRec(node, inst, ip.fr.f, before, entry, heads, trans, leave))


    def on_loop_exit(self, ip, node, inst, heads, trans, exits):
        fs = {x.a[0] for x in files_in(LoopRec(node, inst, ip.fr.f, [], [], heads, trans, {}))}
        if len(fs) == 1:
            for s in exits:
                s.store[VISITED] = mk('visited', list(fs)[0])
        rec = LoopRec(node, inst, ip.fr.f, [], [], heads, trans, {})
        ds = set()
        for bs in trans.values():
            for b in bs:
                v = b.store.get(VISITED)
                for x in subterms(v):
                    if x.op == 'fun' and x.a[1] == 'files' and x.a[2].op == 'at' and kind(x.a[2].a[1]) == 'n' and rec.owns(x.a[2].a[1]):
                        ds.add(x.a[2].a[0])
        if len(ds) == 1:
            for s in exits:
                s.store[DIRS] = mk('visited', list(ds)[0])


GHOST = mk('L', 'ghost', 'inserted')
FREED = mk('L', 'ghost', 'freed')
DIRS = mk('L', 'ghost', 'directories')
VISITED = mk('L', 'ghost', 'visited')
PARSED = mk('L', 'ghost', 'parsed')


def mapping(prog):
    """the function from file names to locale names"""
    fs = prog.byq.get(NS + 'DictionaryManager::convertFilename2Language', [])
    if fs:
        return fs
    home = {f['file'] for f in prog.funcs.values() if f['q'] == NS + 'DictionaryManager::get_languages'}
    return [f for f in prog.funcs.values() if f.get('file') in home and len(f['params']) == 1 and is_str(f['params'][0]['t']) and is_str(f['rt'])]


class MgrLab(Lab):
    """fail: directories and files may fail"""
    def __init__(self, prog, fail=True):
        c = MClient()
        Lab.__init__(self, prog, c)
        self.ip.max_rec = 0
        c.lab = self
        self.fail = fail
        self.M = self.obj('M', 'DictionaryManager')
        self.cache = members(prog)['map']['name'] if 'map' in members(prog) else None
        self.texts = [f['name'] for f in prog.fields(NS + 'Dictionary') if is_str(f['t'])]
        self.opaque = {}
        self.parsers = set()
        for f in prog.byq.get(NS + 'POParser::parse', []):
            if f.get('static') and len(f['params']) >= 3:
                self.opaque[f['m']] = parse
        if not self.opaque:
            raise Broken('anchor: POParser::parse not found')
        for f in mapping(prog):
            self.opaque[f['m']] = text
        for q, k in (('Language::from_env', language), ('Language::from_spec', language), ('Language::from_name', language),
                     ('Language::match', score)):
            fs = prog.byq.get(NS + q, [])
            if not fs:
                raise Broken('anchor: %s not found' % q)
            for f in fs:
                self.opaque[f['m']] = k
        self.get_lang = self.public('DictionaryManager', 'get_dictionary', 1)
        self.get_cur = self.public('DictionaryManager', 'get_dictionary', 0)
        self.get_languages = self.public('DictionaryManager', 'get_languages', 0)
        self.lang = object_at(self.ip, 'lang', rec_ty(NS + 'Language'))
        self.st0.store[GHOST] = mk('y', 'o', ('nothing inserted',), 0)
        self.st0.store[VISITED] = mk('y', 'o', ('nothing visited',), 0)
        self.st0.store[FREED] = mk('y', 'o', ('nothing freed',), 0)
        self.st0.store[DIRS] = mk('y', 'o', ('nothing listed',), 0)
        self.st0.store[PARSED] = mk('y', 'o', ('nothing parsed',), 0)

    def recursion(self, ip, d, st, obj, args, e):
        """a dictionary of another language: opaque"""
        if d['m'] != self.get_lang['m']:
            return None
        v = vals(ip, st, args)[0]
        self.client.ev(ip, 'again', st, e, v)
        loc = mk('deref', fun('p', 'dictionary', v))
        ip.root_ty[loc] = e['t'] if e['t'].k != 'ref' else e['t'].to
        return [(st, loc)]

    def env(self, ip, e, f, st, obj, args):
        nm = f['q'].rsplit('::', 1)[-1]
        if nm not in ('open_directory', 'open_file'):
            return None
        c = self.client
        p = ip.read(st, args[0]) if args[0].op in LOCOPS else args[0]
        c.ev(ip, nm, st, e, p)
        out = []
        if self.fail:
            for x in EXCEPTIONS:
                s = st.copy()
                s.g['failed'] = True
                ip.raise_(s, x, None, e)
        if nm == 'open_directory':
            return [(st, fun('o', 'files', p))]
        t = e['t'].args[0] if e['t'].args else rec_ty('std::basic_istream')
        if self.fail:
            s = st.copy()
            s.g['failed'] = True
            out.append((s, ZERO))
            s = st.copy()
            s.g['failed'] = True
            v = fun('p', 'badstream', p)
            self.stream(ip, s, v, t, TRUE)
            out.append((s, v))
        v = fun('p', 'stream', p)
        self.stream(ip, st, v, t, FALSE)
        out.append((st, v))
        return out

    def stream(self, ip, st, v, t, failed):
        st.assume(IsNull(v), False)
        ip.root_ty[mk('deref', v)] = t
        st.store[mk('deref', v)] = rec('istream', ('pos', 'len', 'fail', 'eof'), (ZERO, fresh('u', 'len'), failed, FALSE))

    # ------------------------------------------------------------------ runs
    def load(self, st=None):
        """get_dictionary(language) of an arbitrary manager and language"""
        st = st or self.st0.copy()
        self.ip.buf = []
        spec = self.ip.read(st, mk('.f', self.lang, self.spec_field()))
        st.assume(IsNull(spec), False)
        res, thr = run(self.ip, st, self.get_lang, self.M, [self.lang])
        return Run(self, res, thr)

    def list(self, st=None):
        st = st or self.st0.copy()
        self.ip.buf = []
        res, thr = run(self.ip, st, self.get_languages, self.M, [])
        return Run(self, res, thr)

    def spec_field(self):
        fs = [f['name'] for f in self.prog.fields(NS + 'Language') if f['t'].k == 'ptr']
        if len(fs) != 1:
            raise Broken('class Language has another form')
        return fs[0]


class Run(object):
    def __init__(self, lab, res, thr):
        self.lab, self.res, self.thr = lab, res, thr
        self.mgr, self.loops, self.rest = [], [], []
        for ev in lab.ip.events():
            if ev[0] == 'mgr':
                self.mgr.append(ev[1:])
            elif ev[0] == 'loop':
                self.loops.append(ev[1])
            else:
                self.rest.append(ev)

    def of(self, kind):
        """(state, where, trace, details)"""
        return [(st, w, t, more) for k, st, w, t, more in self.mgr if k == kind]

    def loop_of(self, t):
        """the loops whose variables the term depends on"""
        return [l for l in self.loops if l.owns(t)]


def vals(ip, st, args):
    return tuple(ip.read(st, a) if a.op in LOCOPS else a for a in args)


def parse(c, ip, f, obj, args, st, e):
    pn = [p['t'] for p in ip.prog.funcs[f['m']]['params']]
    name = stream = dic = fuzzy = None
    for a, t in zip(args, pn):
        if is_str(t):
            name = vals(ip, st, [a])[0]
        elif t.k == 'bool':
            fuzzy = a
        elif t.rec() == NS + 'Dictionary' or t.k == 'ptr' and t.to.rec() == NS + 'Dictionary':
            dic = a
        elif 'stream' in t.rec():
            stream = a
    c.ev(ip, 'parse', st, e, name, stream, dic, fuzzy)
    st.store[PARSED] = mk('parsed', name)
    if c.lab.fail:
        for x in EXCEPTIONS:
            s = st.copy()
            s.g['failed'] = True
            ip.raise_(s, x, None, e)
    return [(st, ZERO)]


def language(c, ip, f, obj, args, st, e):
    v = fun('p', f['q'].rsplit('::', 1)[-1], *vals(ip, st, args))
    return [(st, rec(NS + 'Language', (c.lab.spec_field(),), (v,)))]


def score(c, ip, f, obj, args, st, e):
    a = [fget(v, c.lab.spec_field()) for v in vals(ip, st, args)]
    return [(st, fun('u', 'match', *a))]


def text(c, ip, f, obj, args, st, e):
    return [(st, fun('o', 'locale', *vals(ip, st, args)))]


# ---------------------------------------------------------------- the manager's members
def members(prog):
    """role -> field; roles: path, map, cur, lang, empty"""
    out = {}
    for f in prog.fields(NS + 'DictionaryManager'):
        t = f['t']
        n = t.name if t.k == 'rec' else ''
        if t.k == 'ptr' and t.to.rec() == NS + 'Dictionary':
            r = 'cur'
        elif t.rec() == NS + 'Dictionary':
            r = 'empty'
        elif t.rec() == NS + 'Language':
            r = 'lang'
        elif n in ('std::unordered_map', 'std::map') and t.args and t.args[0].rec() == NS + 'Language':
            r = 'map'
        elif n in ('std::deque', 'std::vector', 'std::list') and t.args and is_str(t.args[0]):
            r = 'path'
        else:
            continue
        if r in out:
            raise Broken('class DictionaryManager has another form (%s)' % r)
        out[r] = f
    return out


def settings(prog):
    """the other members: what the user sets"""
    keep = {f['name'] for r, f in members(prog).items() if r != 'path'}
    return [f for f in prog.fields(NS + 'DictionaryManager') if f['name'] not in keep]


def dir_terms(run):
    """where directories are listed: (state, where, trace, path, list of directories, index) or index None"""
    out = []
    for st, w, t, more in run.of('open_directory'):
        p = more[0]
        if p.op == 'at' and kind(p.a[1]) == 'n':
            out.append((st, w, t, p, p.a[0], p.a[1]))
        else:
            out.append((st, w, t, p, None, None))
    return out


def visits_all(run, base, idx):
    """does the index run over all elements? (verdict, text, direction)"""
    ls = run.loop_of(idx)
    if len(ls) != 1:
        return (False if not ls and idx.op == 'i' else None), 'no loop over the elements' if not ls else 'more than one loop', 0
    c = Course(ls[0], idx)
    if c.step not in (1, -1) or len(c.firsts) != 1:
        return None, 'irregular loop', 0
    first = list(c.firsts)[0]
    start = ZERO if c.step == 1 else addc(size(base), -1)
    limit = size(base) if c.step == 1 else I(-1)
    if first is not start:
        return (None if unknown(first) else False), 'begins at %s' % show(first)[:80], c.step
    worst = True
    for v, s in c.ends(limit):
        if not v:
            if v is False and not s.imp:
                return False, 'the loop at %s can end early' % ls[0].where(), c.step
            worst = None
    return worst, 'end of the loop', c.step


def files_of(run, l):
    """the file looked at by an iteration of loop l: terms at(files(...), index)"""
    return files_in(l)


def files_in(l):
    out = set()
    for k, h in l.all_heads():
        for b in l.trans[k]:
            ts = list(b.P) + list(b.store.values()) + list(b.M)
            for t in ts:
                for x in subterms(t):
                    if x.op == 'at' and x.a[0].op == 'fun' and x.a[0].a[1] == 'files' and l.owns(x.a[1]):
                        out.add(x)
    return out


def file_loops(run):
    out = []
    for l in run.loops:
        fs = files_of(run, l)
        if fs:
            out.append((l, fs))
    return out


def dir_loops(run):
    """loops over directories: (loop, terms of the files of its directory)"""
    out = []
    for l in run.loops:
        fs = set()
        for k, h in l.all_heads():
            for b in l.trans[k]:
                for t in list(b.P) + list(b.store.values()) + list(b.z):
                    for x in subterms(t):
                        if x.op == 'fun' and x.a[1] == 'files' and x.a[2].op == 'at' and l.owns(x.a[2].a[1]) and not any(l2.owns(x) for l2 in run.loops if l2 is not l):
                            fs.add(x)
        for st, w, t, p, base, idx in dir_terms(run):
            if idx is not None and l.owns(idx):
                fs.add(fun('o', 'files', p))
        if fs:
            out.append((l, fs))
    return out


def all_looked_at(run, ctx, rule, key):
    """every iteration over the directories looks at the files of its directory"""
    for l, fs in dir_loops(run):
        for k, h in l.all_heads():
            for b in l.trans[k]:
                v = b.store.get(VISITED)
                ok = v.op == 'visited' and v.a[0] in fs or any(b.ev(Eq(size(f), ZERO)) for f in fs)
                ctx.judge(True if ok else None if b.imp or v.op == 'y' and v not in h.store.values() else False, rule, key, l.where(),
                          'an iteration does not look at the files of the directory')


def all_directories(run, ctx, rule, key, where, needed=lambda s: True):
    """every result behind a loop over the directories, unless there is none"""
    m = members(run.lab.prog).get('path')
    for s, v in run.res:
        if not needed(s):
            continue
        d = s.store.get(DIRS)
        path = run.lab.ip.read(s, mk('.f', run.lab.M, m['name']), m['t']) if m else None
        ok = d.op == 'visited' and (path is None or d.a[0] is path) or path is not None and s.ev(Eq(size(path), ZERO))
        ctx.judge(True if ok else None if s.imp or d.op != 'y' or unknown(d) else False, rule, key, where, 'a result without a look at the directories')


def loaded(lab):
    """is the dictionary not in the cache in the beginning?"""
    m = members(lab.prog).get('map')
    f0 = lab.ip.read(lab.st0.copy(), mk('.f', lab.M, m['name']), m['t'])
    return lambda s: not any(t.op == 'has' and v and t.a[0] is f0 for t, v in s.P.items())


def is_po(st, f):
    return st.ev(mk('suffix', f, S('.po')))


PO_NAMES = [b'de.po', b'pt_BR.po', b'de.po.po', b'zh_tw.po', b'ca_ES@valencia.po', b'de_DE.UTF-8.po']
OTHER_NAMES = [b'de', b'de.mo', b'de.pot', b'de.po~', b'de.po.orig', b'depo', b'de.PO', b'po', b'', b'.', b'..', b'p', b'a.po.', b'xpo', b'de.po.bak2', b'.po.x', b'de_DE.UTF-8']


def other_tests(st, f, po=None):
    """does the state depend on the name in a way that is not understood?  po: names that (do not) end in .po would break the rule"""
    if po is not None:
        return witness(st, f, PO_NAMES if po else OTHER_NAMES) is None
    for t in list(st.P) + list(st.M):
        if t.op in ('suffix', 'isnull', 'bcall') or not f.leaves <= t.leaves:
            continue
        for x in subterms(t):
            if x.op == 'fun' and x.a[1] in ('from_env', 'match'):
                break
        else:
            if any(x is f for x in subterms(t)) and t.op not in ('size',):
                return True
    return False


# ---------------------------------------------------------------- histories: an invariant of managers
class Shape(object):
    """the members, and the states a manager can be in between operations"""
    def __init__(self, lab):
        self.lab = lab
        self.ip = lab.ip
        self.m = members(lab.prog)
        for r in ('map', 'cur', 'lang', 'empty'):
            if r not in self.m:
                raise Broken('class DictionaryManager has another form (no %s)' % r)

    def loc(self, role):
        return mk('.f', self.lab.M, self.m[role]['name'])

    def get(self, st, role):
        return self.ip.read(st, self.loc(role), self.m[role]['t'])

    def spec(self, st):
        """the row of the current language"""
        return fget(self.get(st, 'lang'), self.lab.spec_field())

    def states(self):
        """the current dictionary is unknown yet, or it is the one kept for the current language"""
        s = self.lab.st0.copy()
        self.ip.write(s, self.loc('cur'), ZERO)
        t = self.lab.st0.copy()
        mp, lg = self.get(t, 'map'), self.get(t, 'lang')
        k = mk('rec', lg.a[0], lg.a[1], tuple(lg.a[2])) if lg.op == 'rec' else lg
        t.assume(IsNull(self.spec(t)), False)
        t.assume(mk('has', mp, k), True)
        p = mk('mget', mp, k, 'p')
        t.assume(IsNull(p), False)
        self.ip.write(t, self.loc('cur'), p)
        return [('no current dictionary', s), ('a current dictionary', t)]

    def languages(self, st):
        """[(name, state)]: the argument language is the current one, another one, or none"""
        out = []
        l = mk('.f', self.lab.lang, self.lab.spec_field())
        cur = self.spec(st)
        s = st.copy()
        self.ip.write(s, l, cur)
        for s2, null in fork(self.ip, s, IsNull(cur)):
            out.append(('no language' if null else 'the current language', s2))
        s = st.copy()
        a = self.ip.read(s, l)
        if s.assume(mk('ptreq', *sorted((a, cur), key=lambda x: x.id)), False):
            for s2, null in fork(self.ip, s, IsNull(a)):
                out.append(('no language' if null else 'another language', s2))
        return out

    def ops(self):
        """public operations: [(name, function)]"""
        rec_ = self.lab.prog.record(NS + 'DictionaryManager')
        out = []
        for m in rec_['methods']:
            f = self.lab.prog.funcs.get(m['m'])
            nm = f['q'].rsplit('::', 1)[-1] if f is not None else ''
            if m['access'] != 0 or f is None or f.get('body') is None or f.get('static') or nm.startswith('(') or nm.startswith('operator'):
                continue
            out.append((nm + ('(%d)' % len(f['params'])), f))
        return out

    def changed(self, old, new):
        """names of the settings that (may) have changed"""
        out = []
        for f in settings(self.lab.prog):
            l = mk('.f', self.lab.M, f['name'])
            a, b = self.ip.read(old.copy(), l, f['t']), self.ip.read(new.copy(), l, f['t'])
            if a is not b and same(new, a, b) is not True:
                out.append(f['name'])
        return out

    def apply(self, st, f, args=None):
        st = st.copy()
        self.ip.buf = []
        args = sym_args(self.ip, st, f) if args is None else args
        for p, a in zip(f['params'], args):
            t = p['t'].to if p['t'].k == 'ref' else p['t']
            if t.rec() == NS + 'Language' and f['m'] == self.lab.get_lang['m']:
                st.assume(IsNull(fget(self.ip.read(st, a) if a.op in LOCOPS else a, self.lab.spec_field())), False)
        res, thr = run(self.ip, st, f, self.lab.M, args)
        return Run(self.lab, res, thr), args


def target(v):
    """the object a pointer or reference value denotes"""
    return v if v.op in LOCOPS else mk('deref', v)


def news(run):
    """dictionaries made in the run"""
    return {more[0] for st, w, t, more in run.of('new') if more[1] is not None and more[1].rec() == NS + 'Dictionary'}
