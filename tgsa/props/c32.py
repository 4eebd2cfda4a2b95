"""Inventory of all objects with static lifetime (globals, static members, function-local statics) and of every mention of
them. Rule: each one is constant (const, and const all the way when it is a pointer into the library), or it is one of
the settings (a static member of class Log or POParser that holds a callback or a flag) and is changed only by the
setters of its class; a variable that is never mentioned in a position that can change it counts as constant. Local
statics are initialised by their declaration (which the language makes thread-safe). Functions of the C library with
hidden shared state are not called; nothing takes const away from an object with static lifetime."""
from .. import lint
from ..lab import *

HIDDEN = {'strtok', 'setlocale', 'localtime', 'gmtime', 'ctime', 'asctime', 'rand', 'srand', 'setenv', 'putenv', 'unsetenv',
          'std::strtok', 'std::setlocale', 'std::rand', 'std::srand', 'std::locale::global', 'getenv', 'std::getenv', 'readdir', 'mblen',
          'mbtowc', 'wctomb', 'std::localtime', 'std::gmtime', 'std::ctime', 'std::asctime', 'chdir', 'umask', 'tmpnam'}
SYNC = ('std::mutex', 'std::atomic', 'std::once_flag', 'std::recursive_mutex', 'std::shared_mutex', 'std::atomic_flag')


def deep_const(t):
    if t.k == 'ref':
        return t.to.const or t.to.k == 'func'
    if t.k == 'arr':
        return deep_const(t.of)
    return t.const


def check(ctx):
    prog = ctx.prog
    ctx.floor('static object', 4)
    uses = {}
    casts = 0
    for f, b in lint.bodies(prog):
        for n, ps in lint.nodes(b):
            e = n.get('e')
            if e == 'global' and n['q'] in prog.globals:
                uses.setdefault(n['q'], []).append((f, n, lint.use_kind(n, ps)))
            elif n.get('s') == 'decl':
                for v in n['v']:
                    if v.get('static') and v.get('q') in prog.globals:
                        uses.setdefault(v['q'], [])
            elif e == 'var' and n.get('q') in prog.globals:
                uses.setdefault(n['q'], []).append((f, n, lint.use_kind(n, ps)))
            h = n.get('f')
            if e in ('call', 'ctor', 'fn') and h.__class__ is dict and h.get('m') not in prog.funcs:
                if h['q'] in HIDDEN:
                    ctx.bad('hidden state', '%s in %s' % (h['q'], f['q'].replace(NS, '')), lint.where(f, n), '%s has shared state' % h['q'])
                else:
                    casts += 1
    ctx.put('hidden state', 'library functions', 'ok' if casts else 'undecided', '%d calls of library functions' % casts)
    for q, g in sorted(prog.globals.items()):
        if q.startswith('tgsa') or '/verif/' in str(g.get('file')):
            continue
        key = q.split('@')[0].replace(NS, '')
        w = '%s:%s' % (g.get('file'), g.get('l'))
        t = g['t']
        us = uses.get(q, [])
        writes = [(f, n) for f, n, k in us if k == 'write']
        other = [(f, n) for f, n, k in us if k == 'other']
        if any((t.name or '').startswith(s) for s in SYNC):
            ctx.ok('static object', key, w)
            continue
        if g.get('tls'):
            ctx.ok('static object', key, w)
            continue
        if deep_const(t) or g.get('const'):
            mutable_inside = [fl['name'] for fl in prog.fields(t.name) if fl.get('mutable')] if t.k == 'rec' else []
            if mutable_inside:
                ctx.bad('static object', key, w, 'has mutable members %s' % mutable_inside)
            else:
                ctx.ok('static object', key, w)
            continue
        cls = q.rsplit('::', 1)[0]
        setting = cls in prog.records and cls in (NS + 'Log', NS + 'POParser') and not g.get('staticlocal') and t.k in ('ptr', 'bool', 'int')
        if setting:
            wrong = [(f, n) for f, n in writes if not f['q'].startswith(cls + '::set_')]
            if wrong:
                f, n = wrong[0]
                ctx.bad('static object', key, lint.where(f, n), 'the setting %s is changed outside of its setters' % key)
            elif other:
                f, n = other[0]
                ctx.undecided('static object', key, lint.where(f, n), 'an alias of the setting is made')
            else:
                ctx.ok('static object', key, w)
            continue
        if writes:
            f, n = writes[0]
            ctx.bad('static object', key, lint.where(f, n), 'shared state: %s is changed here' % key)
        elif other:
            f, n = other[0]
            ctx.undecided('static object', key, lint.where(f, n), 'not constant, and used in a way that may change it')
        else:
            ctx.ok('static object', key, w)
    ctx.note('mentions', sum(len(u) for u in uses.values()))
