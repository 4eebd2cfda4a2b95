"""The .po parser: one analysis of POParser::parse on an arbitrary stream, followed by a typestate of the entry being read.
Readers of quoted strings (methods of the parser that return or append text) are replaced by summaries, made by analysing them
on their own; predicates over the current line are uninterpreted; additions to the dictionary, conversions and changes of
charset or plural rule are events.
g['seq']: keywords of the lines read of this entry; g['id'], g['ctx'], g['msg']: is there text in them (e: empty, n: not);
g['fz']: a flag comment of this entry says fuzzy; g['add'], g['hdr']: stored, taken for the header; g['rep']: error reported.
Roots T(kw): the text read behind that keyword; DIGIT: the digit of the last msgstr[N]."""
from .lab import *
from .prog import walk, Broken
from .effects import Effects
from . import concrete
from .interp import _fresh_n

P = NS + 'POParser'
KEYWORDS = (b'msgctxt', b'msgid_plural', b'msgid', b'msgstr[', b'msgstr')
BOM = b'\xef\xbb\xbf'
FUZZY = (b'#, fuzzy', b'#,fuzzy', b'#, c-format, fuzzy', b'#, fuzzy, c-format', b'#,  fuzzy', b'#, no-c-format, fuzzy', b'#,\tfuzzy')
SOBER = (b'#, c-format', b'# fuzzy', b'#. fuzzy', b'#: fuzzy.c:1', b'#: a.c:3', b'#| msgid "fuzzy"', b'#~ fuzzy', b'#', b'#,', b'#, no-wrap',
         b'', b' ', b'msgid "fuzzy"', b'msgctxt "fuzzy"', b'"fuzzy"', b'fuzzy', b'#fuzzy', b'msgid "x"', b'msgstr "x"', b'msgstr[0] "x"',
         b'msgid_plural "x"', b'"x"', b'x', b'# fuzzy, x', b'#. , fuzzy', b',, fuzzy')
EMPTY = (b'', b' ', b'\t', b' \t ')
COMMENT = (b'# x', b'#', b'#\tx')
BUSY = (b'msgid "x"', b'msgctxt "x"', b'msgid_plural "x"', b'msgstr "x"', b'msgstr[0] "x"', b'"x"', b' "x"', b'x', b'#, fuzzy', b'#: a.c:3',
        b'msgid', b'msgstr')
NEXT = {None: (b'# x', b'#, fuzzy', b'#: a.c:3', b'', b' ', b'msgid "x"', b'msgctxt "x"', b'msgid ""'),
        b'msgctxt': (b'msgid "x"', b'msgid ""'), b'msgid': (b'msgid_plural "x"', b'msgstr "x"', b'msgstr ""'),
        b'msgid_plural': tuple(b'msgstr[%d] "x"' % i for i in range(10)) + (b'msgstr[0] ""',),
        b'msgstr[': (b'', b' ', b'\t') + tuple(b'msgstr[%d] "x"' % i for i in range(10)),
        b'msgstr': (b'', b' ', b'\t')}
RAW = mk('L', 'ghost', 'raw')
DIGIT = mk('L', 'ghost', 'digit')


def T(kw):
    return mk('L', 'ghost', 'text', kw.decode())


def is_out(t):
    """a non-const reference to text"""
    return t.k == 'ref' and not t.to.const and (t.to.is_string() or t.to.k == 'rec' and t.to.name.split('::')[-1] in (
        'basic_ostringstream', 'basic_ostream', 'basic_stringstream', 'ostringstream', 'ostream', 'stringstream'))


def is_stream(t):
    return is_out(t) and not t.to.is_string()


class Reader(object):
    """summary of a function that reads quoted text"""
    def __init__(self, f):
        self.f = f
        self.changed = set()     # fields changed on return
        self.tchanged = set()    # fields changed when it throws
        self.throws = set()
        self.recovered = True    # at every throw of a parse error: the line is an empty one or the end is reached (None: not clear)
        self.skipped = None      # an empty line that is skipped by the recovery
        self.problems = []
        self.returns = 0


def searches(ip, m):
    """does the function look through a text by calls of the library?"""
    c = ip.__dict__.setdefault('_searches', {})
    if m not in c:
        c[m] = any(n['f'].get('q', '').rpartition('::')[2] in SEARCH for k in ip.reach(m) if k in ip.prog.funcs
                   for n in walk([ip.prog.funcs[k].get('body')]) if n.get('f').__class__ is dict)
    return c[m]


SEARCH = {'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'find_if', 'find_if_not', 'all_of', 'any_of', 'none_of', 'count_if'}


class PClient(Client):
    def __init__(self, lab):
        self.lab = lab
        self.readers = {}
        self.alone = None
        self.line_loc = None
        self.used = set()       # (reader, keyword, constant arguments)
        self.preds = {}

    # ------------------------------------------------------------- line
    def line(self, ip, st):
        """value of the current line"""
        if self.line_loc is None:
            return None
        try:
            return ip.read(st, self.line_loc)
        except Exception:
            return None

    def can_be(self, st, v, texts):
        """some text of these that the line can be: the text; None: none; False: not clear"""
        if v is None:
            return False
        unclear = False
        raw = st.store.get(RAW) if st.g.get('bom') == 4 else None
        x = v.a[0] if v.op == 'sub' and v.a[0] is raw else v
        bom = x is raw
        for w in texts:
            if v.op == 's':
                if v.a[0] == w:
                    return w
                continue
            a = concrete.agrees(st, x, BOM + w if bom else w)
            if a:
                return w
            if a is None:
                unclear = True
        return False if unclear else None

    def on_line(self, ip, st, line, e):
        """the first line: does it start with a byte order mark?"""
        if self.alone is not None or st.g.get('started') != 'first':
            return None
        out = []
        for n in range(5):
            s = st.copy()
            s.g['bom'] = n
            s.store[RAW] = line
            ok = s.assume(Lt(size(line), I(3)), n == 0) and s.assume(mk('prefix', line, S(BOM)), n == 4)
            for i in range(min(n, 3)):
                ok = ok and s.assume(Eq(at(line, I(i)), I(BOM[i] - 256)), i + 1 < n or n == 4)
            if ok:
                out.append(s)
        return out

    def before_line(self, ip, st, loc, e):
        """the current line is left"""
        self.line_loc = loc
        st.g.pop('end', None)
        if self.alone is not None:
            if st.g.get('rep'):
                v = self.line(ip, st)
                if v is not None:
                    x = self.can_be(st, v, EMPTY)
                    self.ev(ip, 'skip', st, e, x)
            return [st]
        if not st.g.get('started'):
            st.g['started'] = 'first'
            return [st]
        v = self.line(ip, st)
        if st.g.get('rep'):
            self.more(st)
            x = self.can_be(st, v, EMPTY)
            self.ev(ip, 'skip', st, e, x)
            return [st]
        if st.g.get('fz') == 'yes':
            self.more(st)
            return [st]
        yes, no = self.can_be(st, v, FUZZY), self.can_be(st, v, SOBER)
        if st.g.get('looped') and yes and no:
            yes = no = False
        self.more(st)
        out = []
        if yes:
            s = st.copy()
            s.g['fz'] = 'yes'
            s.g['fzline'] = yes
            out.append(s)
        if no or not yes:
            if yes is None and no is None and not st.g.get('seq'):
                st.g['unk'] = 'line'       # no line at all?
            if not no and (yes is False or no is False):
                st.g['fz'] = 'unclear'
            out.append(st)
        return out

    def more(self, st):
        st.g['started'] = 'more'
        st.g.pop('looped', None)
        st.g.pop('after', None)
        st.g.pop('bom', None)
        st.g.pop('strip', None)
        st.store.pop(RAW, None)

    def ev(self, ip, what, st, e, *more):
        ip.event('po', what, st.copy(), ip.where(e) if e is not None else '', ip.trace(), more)

    # ------------------------------------------------------------- hooks
    def on_icall(self, ip, e, st, fp, args):
        if fp.op == 'y' and isinstance(fp.a[1], tuple) and fp.a[1] and fp.a[1][0] == 'callback':
            if fp.a[1][1].endswith('log_error_callback'):
                if self.alone is None:
                    v = self.line(ip, st)
                    seq = st.g.get('seq', ())
                    last = seq[-1] if seq else None
                    self.ev(ip, 'error', st, e, last, self.can_be(st, v, NEXT.get(last, ())))
                    self.reset(ip, st)
                st.g['rep'] = 1
            return [(st, ZERO)]
        return None

    def on_exits(self, ip, node, inst, exits):
        for s in exits:
            if s.g.get('rep'):
                self.mark_end(ip, s)
            elif self.alone is None and s.g.get('started'):
                s.g['looped'] = 1       # what the loop has found out about the line is not known in full

    def on_throw(self, ip, st, t, e):
        if st.g.get('rep') and 'end' not in st.g:
            self.mark_end(ip, st)

    def mark_end(self, ip, s):
        if self.line_loc is not None:
            s.g['end'] = self.lab.at_end(ip, s, self.parser_of())

    def parser_of(self):
        return self.line_loc.a[0] if self.line_loc.op == '.f' else None

    def on_back(self, ip, node, inst, st, depth):
        if self.alone is None and depth == 1:
            recovered = st.g.get('rep') and st.g.get('end') is True and self.line_loc is not None
            self.reset(ip, st)
            st.g.pop('after', None)
            if recovered:
                st.g['after'] = 1           # reading goes on at an empty line, or not at all
                ip.write(st, self.line_loc, S(b''))
            for r, v in list(st.store.items()):
                if v.op == 'rec' and v.a[0] == 'istream':
                    st.store[r] = fput(fput(v, 'fail', fresh('b', 'fail')), 'eof', fresh('b', 'eof'))

    def on_backedge(self, ip, node, inst, head, back):
        if self.alone is None and ip.ldepth == 1:
            ip.event('po', 'end', back.copy(), ip.trace() and '%s:%s (%s)' % (ip.fr.f['file'], node.get('l'), ip.fr.f['q']), ip.trace(), ())

    def reset(self, ip, st):
        for k in ('seq', 'id', 'ctx', 'msg', 'fz', 'fzline', 'add', 'hdr', 'rep', 'end', 'forms', 'unk'):
            st.g.pop(k, None)
        for kw in KEYWORDS:
            st.store.pop(T(kw), None)
        st.store.pop(DIGIT, None)
        for t, l in list(st.prov.items()):
            if any(x[-1] == 'cur' for x in l if isinstance(x, tuple)):
                st.prov[t] = frozenset(x[:-1] + ('old',) if isinstance(x, tuple) and x[-1] == 'cur' else x for x in l)

    def on_write(self, ip, st, loc, v):
        if self.alone is not None or loc.op != 'L' or loc.a[0] == 'ghost':
            return
        if st.g.get('bom') is not None and not st.g.get('strip'):
            l = self.line(ip, st)
            if l is not None and l.op == 'sub' and l.a[0] is st.store.get(RAW):
                st.g['strip'] = 1
        if v.op == 'upd' and kind(v.a[2]) == 'o' and self.form(st, v.a[2]):
            self.ev(ip, 'form', st, None, v.a[1], v.a[2], v.a[0])
            st.g['forms'] = 'set'
        elif v.op == 'push' and kind(v.a[1]) == 'o' and self.form(st, v.a[1]):
            self.ev(ip, 'form', st, None, size(v.a[0]), v.a[1], v.a[0])
            st.g['forms'] = 'set'
        elif v.op == 'resize' and st.g.get('forms'):
            if any(x[0] == 'text' and x[1] == b'msgstr[' and x[-1] == 'cur' for x in st.labels(v.a[0])):
                self.ev(ip, 'grow', st, None, size(v.a[0]), v.a[1])

    def form(self, st, v):
        return any(x[0] == 'text' and x[1] == b'msgstr[' for x in st.labels(v))

    # ------------------------------------------------------------- calls
    def intercept(self, ip, f, obj, args, st, e):
        q = f['q']
        d = ip.prog.funcs.get(f['m'])
        cls = q.rpartition('::')[0]
        name = q.rpartition('::')[2]
        if cls == NS + 'Dictionary':
            return self.dictionary(ip, f, name, obj, args, st, e)
        if cls == NS + 'IConv':
            return self.iconv(ip, f, name, obj, args, st, e)
        if cls == NS + 'PluralForms' and name == 'from_string':
            v = ip.read(st, args[0]) if args[0].op in LOCOPS else args[0]
            self.ev(ip, 'rule', st, e, v)
            return [(st, ip.symval(f['rt'], ('rule', ip.xid(e))))]
        if d is None:
            return None
        if d.get('cls') == P and d.get('body') is not None and not d.get('static'):
            r = self.readers.get(f['m'])
            if r is not None and self.alone != f['m']:
                return self.read(ip, r, obj, args, st, e)
        if d.get('rt') is not None and d['rt'].k == 'bool' and (ip.heavy(f['m']) or searches(ip, f['m'])):
            return self.predicate(ip, d, obj, args, st, e)
        return None

    def predicate(self, ip, d, obj, args, st, e):
        t = ip.pure_term(d, st, obj, args)
        if t is None or not t.leaves:
            return None
        self.preds[d['m']] = d
        r = st.ev(t)
        if r is not None:
            return [(st, TRUE if r else FALSE)]
        out = []
        for v in (True, False):
            s = st.copy()
            if s.assume(t, v):
                out.append((s, TRUE if v else FALSE))
        return out

    def dictionary(self, ip, f, name, obj, args, st, e):
        if name == 'add_translation':
            vs = []
            for a, t in zip(args, f['pt']):
                vs.append(ip.read(st, a) if a.op in LOCOPS else a)
            self.ev(ip, 'add', st, e, f, tuple(vs))
            st.g['add'] = 'twice' if st.g.get('add') else 'once'
            return [(st, ZERO)]
        if name == 'set_plural_forms':
            self.ev(ip, 'setrule', st, e)
            st.g['hdr'] = 1
            return [(st, ZERO)]
        if name.startswith('get_charset'):
            v = mk('y', 'o', ('dictionary', 'charset'), 0)
            if e.get('lv'):
                loc = mk('deref', mk('y', 'p', ('dictionary', 'charset'), 0))
                st.store[loc] = v
                return [(st, loc)]
            return [(st, v)]
        if name == 'get_plural_forms' and not e.get('lv'):
            return [(st, ip.symval(f['rt'], ('plural forms', ip.xid(e), _fresh_n())))]
        return None

    def iconv(self, ip, f, name, obj, args, st, e):
        if name == 'convert':
            v = ip.read(st, args[0]) if args[0].op in LOCOPS else args[0]
            where = 'own' if obj is not None and obj.op == '.f' else 'other'
            self.ev(ip, 'convert', st, e, v, where, obj.a[1] if obj is not None and obj.op == '.f' else None)
            if v.op == 's' and not v.a[0]:
                return [(st, v)]
            return [(st, mk('fun', 'o', 'convert' if where == 'own' else 'converted by something else', v))]
        if name == 'set_charsets':
            vs = [ip.read(st, a) if a.op in LOCOPS else a for a in args]
            self.ev(ip, 'charsets', st, e, tuple(vs), obj.a[1] if obj is not None and obj.op == '.f' else None)
            st.g['hdr'] = 1
            ip.raise_(st.copy(), 'std::runtime_error', None, e)
            return [(st, ZERO)]
        return None

    # ------------------------------------------------------------- readers
    def keyword(self, ip, st):
        v = self.line(ip, st)
        if v is None:
            return None
        ks = sorted(KEYWORDS, key=len, reverse=True)
        for k in ks:
            if st.ev(mk('prefix', v, S(k))):
                return k
        can = [k for k in ks if self.can_be(st, v, (k + (b'0] "x"' if k.endswith(b'[') else b' "x"'),)) is not None]
        if can and all(k.startswith(can[-1]) for k in can):
            return can[-1]
        return None

    def forget(self, ip, st, obj, fields, e):
        for fl in fields:
            loc = ip.field(obj, fl)
            t = ip.field_type(P, fl)
            v = ip.symval(t, ('forgotten', fl, _fresh_n())) if t is not None else fresh(kind(ip.read(st, loc)), fl)
            ip.write(st, loc, v)

    def advance(self, ip, st, obj):
        """the stream goes on"""
        for r, v in list(st.store.items()):
            if v.op == 'rec' and v.a[0] == 'istream':
                np = fresh('u', 'pos')
                if st.add_le(fget(v, 'pos', 'u'), np) and st.add_le(np, fget(v, 'len', 'u')):
                    st.store[r] = fput(fput(fput(v, 'pos', np), 'fail', fresh('b', 'fail')), 'eof', fresh('b', 'eof'))

    def read(self, ip, r, obj, args, st, e):
        kw = self.keyword(ip, st) if self.alone is None else None
        line = self.line(ip, st)
        f = r.f
        if self.alone is None:
            self.used.add((f['m'], kw, tuple(a.a[0] if a.op == 'i' else None for a in args)))
            self.ev(ip, 'read', st, e, kw)
        # it throws
        for t in sorted(r.throws):
            s = st.copy()
            self.forget(ip, s, obj, r.tchanged, e)
            self.advance(ip, s, obj)
            if self.alone is None:
                self.reset(ip, s)
            s.g['rep'] = 1
            if r.recovered is not False:
                s.g['end'] = r.recovered
            ip.raise_(s, t, None, e)
        if not r.returns:
            return []
        out = []
        for empty in (True, False):
            s = st.copy()
            self.forget(ip, s, obj, r.changed, e)
            if 'stream' in r.changed or r.changed:
                self.advance(ip, s, obj)
            if empty:
                x = S(b'')
            else:
                x = fresh('o', 'text')
                if not s.add_le(ONE, size(x)):
                    continue
                s.prov[x] = frozenset([('text', kw, 'cur')])
            if self.alone is None and r.changed:
                self.more(s)
            if self.alone is None and kw is not None:
                c = 'e' if empty else 'n'
                seq = s.g.get('seq', ())
                s.g['seq'] = seq if seq and seq[-1] == kw == b'msgstr[' else seq + (kw,)
                if kw == b'msgid':
                    s.g['id'] = c
                elif kw == b'msgctxt':
                    s.g['ctx'] = 1
                elif kw in (b'msgstr', b'msgstr['):
                    if s.g.get('msg') != 'n':
                        s.g['msg'] = c
                s.store[T(kw)] = x
                if kw == b'msgstr[':
                    s.store[DIGIT] = at(line, I(len(kw)))
            elif self.alone is None:
                s.g['unk'] = 1
            val = ZERO
            for a, t in zip(args, f['pt']):
                if is_out(t):
                    old = ip.read(s, a)
                    ip.write(s, a, cat(old, x))
            if f['rt'] is not None and f['rt'].is_string():
                val = x
            elif f['rt'] is not None and f['rt'].k != 'void':
                val = ip.symval(f['rt'], ('read', ip.xid(e), f['m']))
            out.append((s, val))
        return out


class PLab(object):
    def __init__(self, prog):
        self.prog = prog
        self.eff = Effects(prog)
        self.memo = {}
        concrete.BCALL = self.pred_on
        self.client = PClient(self)

    def methods(self):
        return [f for f in self.prog.funcs.values() if f.get('cls') == P and f.get('body') is not None and not f.get('static')
                and not f['q'].endswith('(ctor)') and not f['q'].endswith('(dtor)')]

    def is_reader(self, f):
        return (f['rt'] is not None and f['rt'].is_string() or any(is_out(p['t']) for p in f['params'])) and self.reads_text(f)

    def reads_text(self, f):
        ip = Interp(self.prog, None)
        for m in ip.reach(f['m']):
            g = self.prog.funcs.get(m)
            if g is None:
                continue
            for n in walk([g.get('body')]):
                h = n.get('f')
                if h.__class__ is dict and h.get('q', '').endswith('std::getline'):
                    return True
        return False

    def pred_on(self, m, vals):
        """a predicate of the parser on given texts"""
        k = (m, vals)
        if k in self.memo:
            return self.memo[k]
        r = self.memo[k] = self.pred_on0(m, vals)
        return r

    def pred_on0(self, m, vals):
        f = self.prog.funcs[m]
        sm = self.eff.summary(m)
        if sm.impure or sm.this_whole or sm.glob_reads:
            raise concrete.Unclear
        ip, st = start(self.prog, None)
        ip.unroll = 40
        ip.use_memo = False
        vs = [S(v) if v.__class__ is bytes else I(int(v)) for v in vals]
        args = []
        for p in f['params']:
            v = vs.pop(0)
            if p['t'].k == 'ref':
                loc = mk('deref', mk('y', 'p', ('arg', len(vs)), 0))
                st.store[loc] = v
                v = loc
            args.append(v)
        obj = None
        if f.get('cls') and not f.get('static'):
            obj = object_at(ip, 'this', rec_ty(f['cls']))
            for fl in sorted(sm.this_reads):
                ip.write(st, ip.field(obj, fl), vs.pop(0))
        res, thr = run(ip, st, f, obj, args)
        got = {v.a[0] if v.op == 'i' else None for s, v in res}
        if thr or len(got) != 1 or None in got:
            raise concrete.Unclear
        return bool(got.pop())

    # ------------------------------------------------------------- summaries
    def summarise(self):
        ms = [f for f in self.methods() if self.is_reader(f)]
        ip = Interp(self.prog, None)
        ms.sort(key=lambda f: (len(ip.reach(f['m'])), f['m']))
        for f in ms:
            r = self.alone(f)
            if r is not None:
                self.client.readers[f['m']] = r
        return self.client.readers

    def alone(self, f):
        c = self.client
        c.alone = f['m']
        c.line_loc = None
        try:
            ip, st = start(self.prog, c)
            ip.use_memo = False
            ip.merge_ret = 24           # the answers of a function that maps characters are kept apart
            ip.merge_block = 24
            obj = object_at(ip, 'this', rec_ty(P))
            args = []
            for p in f['params']:
                t = p['t']
                if is_stream(t) or t.k == 'ref':
                    a = object_at(ip, p['name'] or 'arg', t.to)
                    if is_out(t):
                        st.store[a] = S(b'')
                    args.append(a)
                else:
                    args.append(ip.symval(t, (p['name'] or 'arg',)))
            before = ip.read(st, obj)
            first = {}
            for fl in self.prog.fields(P):
                if fl['t'].k != 'ref':
                    first[fl['name']] = ip.read(st, ip.field(obj, fl['name']))
            ip.buf = []
            res, thr = run(ip, st, f, obj, args)
        finally:
            c.alone = None
        r = Reader(f)
        r.returns = len(res)
        evs = ip.events()
        r.events = [ev for ev in evs if ev[0] == 'po']
        r.loops = [ev[1] for ev in evs if ev[0] == 'loop']
        r.args, r.ip = args, ip
        for s, v in res:
            for n, x in first.items():
                if ip.read(s, ip.field(obj, n)) is not x:
                    r.changed.add(n)
        r.ends = []
        for s, t, v in thr:
            r.throws.add(t)
            for n, x in first.items():
                if ip.read(s, ip.field(obj, n)) is not x:
                    r.tchanged.add(n)
            if t.endswith('POParserError') or s.g.get('rep'):
                ok = self.at_end(ip, s, obj)
                r.ends.append((ok, bool(s.g.get('rep')), s))
                if ok is not True:
                    r.recovered = None if r.recovered is None or ok is None or soft(s) else False
        r.results = res
        return r

    def at_end(self, ip, s, obj):
        """is the parser at an empty line (or at the end)?  True, a text that the line can be, or None"""
        if 'end' in s.g:
            return s.g['end']
        v = self.client.line(ip, s)
        if v is None or obj is None:
            return None
        ends = [fl['name'] for fl in self.prog.fields(P) if fl['t'].k == 'bool']
        for n in ends:
            if n == 'eof' and s.ev(ip.read(s, ip.field(obj, n))) is True:
                return True
        x = self.client.can_be(s, v, BUSY)
        return True if x is None else None if x is False else x

    # ------------------------------------------------------------- the whole parser
    def parse(self):
        fs = [f for f in self.prog.byq.get(P + '::parse', []) if f.get('static')]
        if len(fs) != 1:
            raise Broken('POParser::parse')
        f = fs[0]
        self.summarise()
        c = self.client
        c.line_loc = None
        ip, st = start(self.prog, c)
        ip.use_memo = False
        ip.buf = []
        args = sym_args(ip, st, f)
        self.fuzzy = [a for a, p in zip(args, f['params']) if p['t'].k == 'bool'][0]
        res, thr = run(ip, st, f, None, args)
        self.ip = ip
        self.res, self.thr = res, thr
        self.events = [ev[1:] for ev in ip.events() if ev[0] == 'po']
        for s, v in res:
            self.events.append(('end', s, '', (), ()))
        return self

    def on_lines(self, m, kw, consts):
        """events of the reader on sample lines of that keyword, cut off at various points"""
        f = self.prog.funcs[m]
        head = kw + (b'3]' if kw.endswith(b'[') else b'')
        tails = [b'', b' ', b'"', b' "', b' "x', b' "\\', b' "x\\', b' "\xa4', b' "x\xa4', b' "\xa4"', b'  "x', b'  ', b'"x', b'"\\', b'"\xa4', b' x', b' "x"']
        if kw.endswith(b'['):
            head = kw + b'3]'
        out = []
        for tail in tails:
            for flags in (FALSE, TRUE):
                evs = self.on_line(f, head + tail, consts, flags)
                if evs is None:
                    return out
                out += evs
        return out

    def on_line(self, f, text, consts, flags):
        ip, st = start(self.prog, Quiet())
        ip.unroll = 40
        ip.use_memo = False
        obj = object_at(ip, 'this', rec_ty(P))
        vs, consts = [], list(consts)
        for p in f['params']:
            k = consts.pop(0)
            if is_out(p['t']):
                a = object_at(ip, p['name'] or 'arg', p['t'].to)
                st.store[a] = S(b'')
                vs.append(a)
            elif k is not None:
                vs.append(I(k))
            else:
                return None
        for fl in self.prog.fields(P):
            if fl['t'].k == 'rec' and fl['t'].is_string() and 'line' in fl['name']:
                ip.write(st, ip.field(obj, fl['name']), S(text))
            elif fl['t'].k == 'bool':
                ip.write(st, ip.field(obj, fl['name']), FALSE if 'eof' in fl['name'] else flags)
            elif fl['t'].k == 'ref' and 'stream' in fl['t'].to.s:
                loc = ip.read(st, ip.field(obj, fl['name']))
                v = ip.read(st, loc, fl['t'].to)
                if v.op == 'rec':
                    st.store[loc] = fput(fput(v, 'fail', FALSE), 'eof', TRUE)
        ip.buf = []
        run(ip, st, f, obj, vs)
        return [ev[:4] + ('%s, as on the line %r' % (ev[4], text),) + ev[5:] if ev[0] == 'oblig' and ev[3] == 'bad' else ev for ev in ip.events()]

    def reads_behind(self, m, kw, consts):
        """the reader is applied to a line of that keyword: does it read the string behind it?  True, a complaint, or None"""
        f = self.prog.funcs[m]
        line = kw + (b'3] "x"' if kw.endswith(b'[') else b' "x"')
        c = Quiet()
        ip, st = start(self.prog, c)
        ip.unroll = 40
        ip.use_memo = False
        obj = object_at(ip, 'this', rec_ty(P))
        vs, outs = [], []
        consts = list(consts)
        for p in f['params']:
            k = consts.pop(0)
            t = p['t']
            if is_out(t):
                a = object_at(ip, p['name'] or 'arg', t.to)
                st.store[a] = S(b'')
                outs.append(a)
                vs.append(a)
            elif k is not None:
                vs.append(I(k))
            else:
                return None
        done = False
        for fl in self.prog.fields(P):
            if fl['t'].k == 'rec' and fl['t'].is_string() and 'line' in fl['name']:
                ip.write(st, ip.field(obj, fl['name']), S(line))
                done = True
            elif fl['t'].k == 'bool':
                ip.write(st, ip.field(obj, fl['name']), FALSE)
            elif fl['t'].k == 'ref' and 'stream' in fl['t'].to.s:
                loc = ip.read(st, ip.field(obj, fl['name']))
                v = ip.read(st, loc, fl['t'].to)
                if v.op == 'rec':
                    st.store[loc] = fput(fput(v, 'fail', FALSE), 'eof', TRUE)
        if not done:
            return None
        res, thr = run(ip, st, f, obj, vs)
        if not res:
            return 'never returns on the line %s' % line.decode()
        if thr:
            return None if any(s.imp for s, t, v in thr) else 'rejects the line %s' % line.decode()
        for s, v in res:
            x = ip.read(s, outs[0]) if outs else v
            if x is not S(b'x'):
                return None if s.imp or x.op != 's' else 'reads "%s" from the line %s' % (x.a[0].decode('latin-1'), line.decode())
        return True


class Quiet(Client):
    def on_icall(self, ip, e, st, fp, args):
        if fp.op == 'y' and isinstance(fp.a[1], tuple) and fp.a[1] and fp.a[1][0] == 'callback':
            return [(st, ZERO)]
        return None


# ------------------------------------------------------------------- the rules
def analyse(ctx):
    """the analysis of the parser, once"""
    lab = PLab(ctx.prog)
    lab.parse()
    ctx.note('states_followed', lab.ip.nsteps)
    ctx.note('functions', sorted(f.replace(NS, '') for f in lab.ip.funcs_seen))
    ctx.note('readers', sorted(r.f['q'] for r in lab.client.readers.values()))
    ctx.note('events', {k: sum(1 for e in lab.events if e[0] == k) for k in {e[0] for e in lab.events}})
    return lab


def roles(f):
    """what the parameters of add_translation are"""
    ss = [is_str(t) for t in f['pt']]
    vs = [is_vec(t) for t in f['pt']]
    n = len(ss)
    if all(ss) and n == 2:
        return (b'msgid', b'msgstr')
    if all(ss) and n == 3:
        return (b'msgctxt', b'msgid', b'msgstr')
    if n == 3 and ss[:2] == [True, True] and vs[2]:
        return (b'msgid', b'msgid_plural', b'msgstr[')
    if n == 4 and ss[:3] == [True] * 3 and vs[3]:
        return (b'msgctxt', b'msgid', b'msgid_plural', b'msgstr[')
    return None


def sort_of(g):
    """an entry in words"""
    seq = g.get('seq', ())
    r = ['plural' if b'msgid_plural' in seq else 'singular']
    if g.get('ctx'):
        r.append('with context')
    if g.get('id') == 'e':
        r.append('empty id')
    if g.get('fz'):
        r.append('fuzzy')
    return ' '.join(r)


def converted(x, t):
    """is x the text t, converted once?"""
    if x is t:
        return t.op == 's' and not t.a[0]
    if x.op == 'fun' and x.a[1] == 'convert':
        if x.a[2] is t:
            return True
        if any(y.op == 'fun' and y.a[1].startswith('convert') for y in subterms(x.a[2])):
            return False
        return None
    return None if unknown(x) else False


def soft(s):
    """not all is known of this path"""
    return s.imp or s.g.get('unk')


def shown(x):
    return show(x)[:80]
