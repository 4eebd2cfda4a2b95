"""Which functions only compute: a syntactic effect analysis.

A function is pure when nothing it (or a function it calls) does can be seen
from outside but its result.  Used to remember the result of predicates."""
from .prog import walk

PURE_FREE = {'strlen', 'strcmp', 'strncmp', 'isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isblank',
             'toupper', 'tolower', 'std::min', 'std::max', 'std::operator==', 'std::operator!=', 'std::operator<',
             'std::find', 'std::equal', 'memcmp', 'std::isspace', 'std::toupper', 'std::tolower', 'std::operator+',
             '__gnu_cxx::operator!=', '__gnu_cxx::operator==', 'std::begin', 'std::end', 'std::move',
             'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::find_if_not', 'std::count_if', 'std::count'}
READS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'operator[]', 'at', 'front', 'back', 'data', 'find', 'size',
         'length', 'empty', 'c_str', 'compare', 'substr', 'operator*', 'operator->', 'count', 'rfind', 'find_first_of',
         'find_first_not_of', 'find_last_of', 'find_last_not_of', '(conv)', 'get'}


class Summary(object):
    __slots__ = ('impure', 'this_whole', 'this_reads', 'glob_reads')

    def __init__(self):
        self.impure = None
        self.this_whole = False
        self.this_reads = set()
        self.glob_reads = set()


class Effects(object):
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def summary(self, m):
        s = self.memo.get(m)
        if s is None:
            s = self.memo[m] = Summary()
            f = self.prog.funcs.get(m)
            if f is None or f.get('body') is None:
                s.impure = 'no body'
            else:
                self.scan(f, s)
        return s

    def locals_of(self, f):
        ids = {}
        for p in f['params']:
            ids[p['id']] = p['t']
        for n in walk([f.get('body'), f.get('inits')]):
            if n.get('s') == 'decl':
                for v in n['v']:
                    ids[v['id']] = v['t']
                    if v.get('static'):
                        ids[v['id']] = None
            if 'h' in n and n.get('s') == 'try':
                for h in n['h']:
                    if h.get('v'):
                        ids[h['v']['id']] = h['v']['t']
            if n.get('s') == 'rfor':
                pass
        return ids

    def base(self, e):
        while True:
            k = e.get('e')
            if k == 'member' and not e.get('arrow'):
                e = e['b']
            elif k == 'cast' or k == 'mat':
                e = e['x']
            elif k == 'index':
                e = e['x']
            elif k == 'call' and e.get('obj') is not None and e.get('f') and e['f']['q'].rsplit('::', 1)[-1] in READS:
                e = e['obj']
            else:
                return e

    def local_target(self, e, ids):
        """is this lvalue part of a local object of the function?"""
        b = self.base(e)
        if b.get('e') == 'var':
            t = ids.get(b['id'])
            if t is None:
                return False
            return t.k not in ('ref', 'ptr') and not (t.k == 'rec' and 'iterator' in t.name and b is not e and False)
        if b.get('e') in ('ctor', 'call', 'initlist', 'lambda'):
            return True
        return False

    def scan(self, f, s):
        ids = self.locals_of(f)

        def bad(why):
            s.impure = s.impure or why
        for n in walk([f.get('body'), f.get('inits')]):
            k = n.get('e')
            if k in ('assign', 'opassign'):
                if not self.local_target(n['x'], ids):
                    bad('assignment')
            elif k == 'un' and n['op'] in ('++', '--'):
                if not self.local_target(n['x'], ids):
                    bad('increment')
            elif k in ('throw', 'new', 'delete', 'lambda', 'unk'):
                if k != 'lambda':
                    bad(k)
            elif k == 'global':
                g = self.prog.globals.get(n['q'])
                if n['q'].endswith('::npos'):
                    continue
                if g is None or not g.get('const'):
                    s.glob_reads.add(n['q'])
            elif k == 'member' and n['b'].get('e') == 'this':
                if n.get('f'):
                    s.this_reads.add(n['f'])
            elif k in ('call', 'ctor'):
                g = n.get('f')
                if g is None:
                    bad('indirect call')
                    continue
                if n.get('e') == 'ctor' and g['m'] not in self.prog.funcs:
                    continue
                if g['m'] in self.prog.funcs:
                    if g.get('virtual'):
                        bad('virtual call')
                        continue
                    c = self.summary(g['m'])
                    if c.impure:
                        bad(c.impure)
                    s.glob_reads |= c.glob_reads
                    if n.get('obj') is not None:
                        s.this_reads |= c.this_reads if self.base(n['obj']).get('e') == 'this' else set()
                    if c.this_whole:
                        s.this_whole = True
                    continue
                nm = g['q'].rsplit('::', 1)[-1]
                if n.get('obj') is not None:
                    if g.get('const') or nm in READS:
                        continue
                    if not self.local_target(n['obj'], ids):
                        bad(g['q'])
                    continue
                if g['q'] in PURE_FREE or g['q'].endswith(('operator!=', 'operator==')):
                    continue
                bad(g['q'])
        for n in walk([f.get('body'), f.get('inits')]):
            if n.get('s') == 'decl':
                for v in n['v']:
                    if v.get('static') and not v.get('const'):
                        bad('static')
        # 'this' used other than for a field or a method
        if not s.this_whole:
            s.this_whole = self.this_used(f)

    def this_used(self, f):
        cnt = uses = 0
        for n in walk([f.get('body'), f.get('inits')]):
            if n.get('e') == 'this':
                cnt += 1
            if n.get('e') == 'member' and n['b'].get('e') == 'this':
                uses += 1
            if n.get('e') == 'call' and n.get('obj') is not None and self.base(n['obj']).get('e') == 'this':
                o = n['obj']
                while o.get('e') in ('cast', 'mat'):
                    o = o['x']
                if o.get('e') == 'this' and n.get('f') and n['f']['m'] in self.prog.funcs:
                    uses += 1
        return cnt > uses
