"""Runs the extractor on the current source and indexes its output."""
import glob
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TGSA_REPO', '/repo')


class Broken(Exception):
    """The analysis could not be carried out (an anchor vanished, code that
    does not compile ...): neither a pass nor a violation."""


class Ty(object):
    __slots__ = ('k', 's', 'const', 'to', 'of', 'name', 'args', 'bits', 'signed', 'char', 'n', 'lam', 'rv')

    def __init__(self):
        self.k = 'other'
        self.s = ''
        self.const = False
        self.to = self.of = None
        self.name = ''
        self.args = []
        self.bits = 0
        self.signed = True
        self.char = False
        self.n = 0
        self.lam = None
        self.rv = False

    def __repr__(self):
        return '<%s>' % self.s

    def kind(self):
        k = self.k
        if k == 'bool':
            return 'b'
        if k == 'int':
            if self.char:
                return 'c'
            return 'n' if self.signed else 'u'
        if k == 'enum':
            return 'n'
        if k in ('ptr', 'nullptr', 'ref', 'func'):
            return 'p'
        return 'o'

    def rec(self):
        """name of the record, looking through references"""
        t = self
        while t.k == 'ref':
            t = t.to
        return t.name if t.k == 'rec' else ''

    def is_string(self):
        return self.k == 'rec' and self.name in ('std::basic_string', 'std::basic_string_view')


NOTY = Ty()


class Program(object):
    def __init__(self, units):
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self.units = []
        self.nunits = 0
        for u in units:
            self.load(u)
        self.byq = {}
        for f in self.funcs.values():
            self.byq.setdefault(f['q'], []).append(f)
        self.overriders = {}
        for r in self.records.values():
            for m in r['methods']:
                for o in m['overrides']:
                    self.overriders.setdefault(o, []).append(m['m'])

    def load(self, u):
        self.nunits += 1
        self.units.append(u['file'])
        raw = u['types']
        tys = [Ty() for _ in raw]
        for t, r in zip(tys, raw):
            if r is None:
                continue
            t.k = r.get('k', 'other')
            t.s = r.get('s', '')
            t.const = r.get('const', False)
            t.name = r.get('name', '')
            t.bits = r.get('bits', 0)
            t.signed = r.get('signed', True)
            t.char = r.get('char', False)
            t.n = r.get('n', 0)
            t.lam = r.get('lambda')
            t.rv = r.get('rv', False)
            if 'to' in r:
                t.to = tys[r['to']] if r['to'] >= 0 else NOTY
            if 'of' in r:
                t.of = tys[r['of']] if r['of'] >= 0 else NOTY
            t.args = [tys[i] if i >= 0 else NOTY for i in r.get('args', [])]

        def fix(x):
            if x.__class__ is dict:
                for k, v in x.items():
                    c = v.__class__
                    if c is int:
                        if k in ('t', 'ct', 'rt', 'of'):
                            x[k] = tys[v] if v >= 0 else NOTY
                    elif c is dict:
                        fix(v)
                    elif c is list:
                        if k == 'pt':
                            x[k] = [tys[i] if i >= 0 else NOTY for i in v]
                        elif not (x.get('e') == 'str' and k == 'v'):
                            fix(v)
            elif x.__class__ is list:
                for v in x:
                    fix(v)
        for f in u['functions']:
            if f['m'] in self.funcs:
                continue
            fix(f)
            f['tu'] = u['file']
            self.funcs[f['m']] = f
        for r in u['records']:
            if r['name'] in self.records and not r['lambda']:
                continue
            fix(r)
            self.records[r['name']] = r
        for g in u['globals']:
            old = self.globals.get(g['q'])
            if old is not None and (old.get('init') is not None or g.get('init') is None):
                continue
            fix(g)
            self.globals[g['q']] = g

    # ------------------------------------------------------------ lookups
    def one(self, q, pred=None):
        fs = [f for f in self.byq.get(q, []) if pred is None or pred(f)]
        if len(fs) != 1:
            raise Broken('anchor: expected exactly one definition of %s, found %d' % (q, len(fs)))
        return fs[0]

    def many(self, q, pred=None):
        fs = [f for f in self.byq.get(q, []) if pred is None or pred(f)]
        if not fs:
            raise Broken('anchor: no definition of %s found' % q)
        return fs

    def record(self, name):
        r = self.records.get(name)
        if r is None:
            raise Broken('anchor: class %s not found' % name)
        return r

    def fields(self, name):
        """fields of a class and of its bases"""
        r = self.records.get(name)
        if r is None:
            return []
        out = []
        for b in r['bases']:
            out += self.fields(b)
        return out + r['fields']


def walk(x):
    """all dictionaries (nodes) below x"""
    st = [x]
    while st:
        y = st.pop()
        if y.__class__ is dict:
            yield y
            st.extend(v for v in y.values() if v.__class__ in (dict, list))
        elif y.__class__ is list:
            st.extend(v for v in y if v.__class__ in (dict, list))


def sources(repo):
    src = sorted(glob.glob(repo + '/src/*.cpp') + glob.glob(repo + '/src/**/*.cpp', recursive=True))
    out = []
    for s in src:
        if s not in out:
            out.append(s)
    return out


def extract(repo=None, extra=(), flags=()):
    repo = repo or REPO
    subprocess.run(['bash', HERE + '/setup.sh'], check=True, stdout=sys.stderr)
    src = sources(repo)
    if not src:
        raise Broken('no sources found in %s/src' % repo)
    inst = HERE + '/extract/instances.cpp'
    cmd = [HERE + '/build/tgx', '--root=%s/src' % repo, '--root=%s/include' % repo, '--root=' + HERE + '/extract']
    cmd += src + [inst] + list(extra) + ['--', '-std=c++17', '-I%s/include' % repo, '-w'] + list(flags)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Broken('extractor failed (%d): %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-2000:]))
    units = json.loads(p.stdout)
    for u in units:
        if u['errors']:
            raise Broken('%s does not compile' % u['file'])
    return Program(units)
