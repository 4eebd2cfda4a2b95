"""Effect analysis by abstract interpretation: every query operation is run on arbitrary objects and arguments. Rule: on no
path does it write to memory that existed before the call (the object, its parts, the arguments, globals, function-local
statics) a value other than the one it held; temporaries, locals and the message passed to a log callback are its own. Library
functions with hidden static state may not be called. A method of the public query interface that is not const is
analysed just the same."""
from ..lab import *
from ..interp import Client

QUERIES = [
    ('Dictionary', 'translate'), ('Dictionary', 'translate_plural'), ('Dictionary', 'translate_ctxt'),
    ('Dictionary', 'translate_ctxt_plural'), ('Dictionary', 'get_plural_forms'), ('Dictionary', 'get_charset'),
    ('Dictionary', 'foreach'), ('Dictionary', 'foreach_ctxt'),
    ('PluralForms', 'get_plural'), ('PluralForms', 'get_nplural'), ('PluralForms', 'from_string'), ('PluralForms', '(conv)'),
    ('PluralForms', 'operator=='), ('PluralForms', 'operator!='),
    ('Language', 'get_language'), ('Language', 'get_country'), ('Language', 'get_modifier'), ('Language', 'get_name'),
    ('Language', 'get_localized_name'), ('Language', 'str'), ('Language', 'match'), ('Language', 'from_spec'),
    ('Language', 'from_name'), ('Language', 'from_env'), ('Language', '(conv)'), ('Language', 'operator=='),
    ('Language', 'operator!='),
    ('DictionaryManager', 'get_language'), ('DictionaryManager', 'get_use_fuzzy'),
    ('DictionaryManager', 'convertFilename2Language'),
]
FREE = ['operator<', 'Language_hash::operator()']
HIDDEN_STATE = {'strtok', 'setlocale', 'localtime', 'gmtime', 'ctime', 'asctime', 'rand', 'srand', 'strerror', 'setenv', 'putenv',
                'std::strtok', 'std::setlocale', 'std::rand', 'std::srand', 'std::locale::global'}


def base(loc):
    while loc.op in ('.f', '.i', '.k', '.e'):
        loc = loc.a[0]
    return loc


class Effects(Client):
    def on_write(self, ip, st, loc, v):
        r = base(loc)
        shared = is_entry_root(r) or (r.op == 'L' and r.a[0] == 'glob')
        if not shared:
            return
        old = self.initial(ip, r)
        if v is old:
            return
        ip.event('write', show(r)[:80], ip.trace()[-1], ip.trace(), st.imp)

    def initial(self, ip, r):
        s = St()
        s.store = {}
        return root_value(s, r)

    def on_lib(self, ip, e, f, st, obj, args):
        if f['q'] in HIDDEN_STATE:
            ip.event('hidden', f['q'], ip.where(e), ip.trace(), st.imp)

    def on_icall(self, ip, e, st, fp, args):
        # a callback of the user
        if e['t'].k == 'void':
            return [(st, ZERO)]
        return None


def check(ctx):
    prog = ctx.prog
    ctx.floor('no effect', 20)
    todo = []
    for cls, name in QUERIES:
        fs = [f for f in prog.byq.get(NS + cls + '::' + name, []) if f.get('body') is not None]
        rec_ = prog.record(NS + cls)
        pub = {m['m'] for m in rec_['methods'] if m['access'] == 0}
        fs = [f for f in fs if f['m'] in pub or name in ('foreach', 'foreach_ctxt')]
        if not fs:
            ctx.undecided('no effect', cls + '::' + name, '', 'not found')
        todo += fs
    # further const methods
    have = {f['m'] for f in todo}
    for cls in ('Dictionary', 'PluralForms', 'Language', 'DictionaryManager'):
        for m in prog.record(NS + cls)['methods']:
            f = prog.funcs.get(m['m'])
            if m['const'] and m['access'] == 0 and f is not None and f['m'] not in have and f.get('body') is not None:
                todo.append(f)
    for q in FREE:
        todo += [f for f in prog.byq.get(NS + q, []) if f.get('body') is not None]
    # the rule must recognise operations that do change the object
    seen = 0
    for cls, name in (('Dictionary', 'set_plural_forms'), ('Dictionary', 'add_translation')):
        for f in prog.many(NS + cls + '::' + name):
            ip, st = start(prog, Effects())
            ip.use_memo = False
            run(ip, st, f, object_at(ip, 'this', rec_ty(f['cls'])), sym_args(ip, st, f))
            seen += any(e[0] == 'write' for e in ip.events())
    if seen < 2:
        raise Broken('the operations that change a dictionary are not recognised')
    calls = 0
    for f in todo:
        key = f['q'].replace(NS, '') + '(%s)' % ', '.join(p['t'].s for p in f['params'])
        c = Effects()
        ip, st = start(prog, c)
        ip.use_memo = False
        obj = object_at(ip, 'this', rec_ty(f['cls'])) if f.get('cls') and not f.get('static') else None
        try:
            args = sym_args(ip, st, f)
            run(ip, st, f, obj, args)
        except Exception as ex:
            ctx.undecided('no effect', key, ctx.where(f), '%s: %s' % (type(ex).__name__, ex))
            continue
        evs = ip.events()
        calls += len(ip.calls_seen)
        w = [e for e in evs if e[0] in ('write', 'hidden')]
        sure = [e for e in w if not e[4]]
        if sure:
            e = sure[0]
            ctx.bad('no effect', key, ctx.where(f), ('writes to %s in %s' if e[0] == 'write' else 'calls %s at %s, which has hidden state') % (e[1], e[2]), e[3])
        elif w:
            ctx.undecided('no effect', key, ctx.where(f), 'approximated: ' + str(w[0][1:3]))
        elif ip.unmodelled and any('recursion' not in u for u in ip.unmodelled):
            ctx.undecided('no effect', key, ctx.where(f), 'not modelled: %s' % list(ip.unmodelled))
        else:
            ctx.ok('no effect', key, ctx.where(f))
    ctx.note('call_sites_followed', calls)
