"""python3 -m tgsa.check C10 [--tier quick|thorough]: decides one property on the current source.

exit 0: every obligation holds (or is a listed known finding)
exit 1: a violation, with a line VIOLATION property=<id> replay=<path>
exit 2: no verdict (an anchor vanished, the source does not compile, the
        analysis could not decide anything)"""
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import prog as P

VERIF = P.HERE


class Ctx(object):
    def __init__(self, prop, tier, repo=None):
        self.prop = prop
        self.tier = tier
        self.repo = repo or P.REPO
        self.items = []          # (rule, key, result, where, msg, trace)
        self.index = {}
        self.floors = {}
        self.assumptions = []
        self.notes = {}
        self._prog = None
        self.level_note = ''
        self.explanation = ''

    # ---------------------------------------------------------------- source
    @property
    def prog(self):
        if self._prog is None:
            self._prog = P.extract(self.repo)
        return self._prog

    def where(self, f):
        return '%s:%s (%s)' % (f['file'], f['line'], f['q'])

    # ---------------------------------------------------------- obligations
    RANK = {'ok': 0, 'undecided': 1, 'bad': 2}

    def put(self, rule, key, result, where='', msg='', trace=()):
        """one obligation; reported again with another result, the worst counts"""
        k = (rule, key)
        i = self.index.get(k)
        if i is None:
            self.index[k] = len(self.items)
            self.items.append([rule, key, result, where, msg, tuple(trace)])
        elif self.RANK[result] > self.RANK[self.items[i][2]]:
            self.items[i] = [rule, key, result, where, msg, tuple(trace)]

    def ok(self, rule, key, where='', msg=''):
        self.put(rule, key, 'ok', where, msg)

    def bad(self, rule, key, where='', msg='', trace=()):
        self.put(rule, key, 'bad', where, msg, trace)

    def undecided(self, rule, key, where='', msg=''):
        self.put(rule, key, 'undecided', where, msg)

    def judge(self, cond, rule, key, where='', msg='', trace=()):
        """cond: True, False or None (could not be decided)"""
        if cond is None:
            self.undecided(rule, key, where, msg)
        elif cond:
            self.ok(rule, key, where)
        else:
            self.bad(rule, key, where, msg, trace)
        return cond

    def floor(self, rule, n):
        """the rule must have been decided for at least n instances"""
        self.floors[rule] = n

    def note(self, k, v):
        self.notes[k] = v

    def count(self, rule=None, result=None):
        return sum(1 for x in self.items if (rule is None or x[0] == rule) and (result is None or x[2] == result))


def load_known():
    out = []
    p = VERIF + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) rule=(\S+) key=(.*?)(?: -- (.*))?$', l.strip())
            if m:
                out.append(m.groups())
    return out


def strip(rel):
    return rel


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    sys.setrecursionlimit(20000)
    t0 = time.time()
    ctx = Ctx(prop, tier)
    mod = importlib.import_module('tgsa.props.' + prop.lower())
    broken = None
    try:
        mod.check(ctx)
    except P.Broken as ex:
        broken = str(ex)
    except Exception as ex:
        broken = 'internal: %s: %s' % (type(ex).__name__, ex)
        traceback.print_exc()
    bad = [x for x in ctx.items if x[2] == 'bad']
    und = [x for x in ctx.items if x[2] == 'undecided']
    ok = [x for x in ctx.items if x[2] == 'ok']
    known = [k for k in load_known() if k[0] == prop]
    new = []
    for x in bad:
        for k in known:
            if k[1] == x[0] and k[2] == x[1]:
                print('KNOWN-FINDING: property=%s %s: %s' % (prop, x[1], x[4]))
                break
        else:
            new.append(x)
    if broken is None:
        for r, n in ctx.floors.items():
            have = sum(1 for x in ctx.items if x[0] == r)
            if have < n and not und:
                broken = 'rule %s: %d instances examined, expected at least %d' % (r, have, n)
        if not ctx.items:
            broken = broken or 'no obligations'
    by_rule = {}
    for x in ctx.items:
        d = by_rule.setdefault(x[0], {'ok': 0, 'undecided': 0, 'bad': 0})
        d[x[2]] += 1
    samples = []
    for r in by_rule:
        for x in [x for x in ctx.items if x[0] == r][:4]:
            samples.append('%s | %s | %s | %s' % (x[0], x[1], x[3], x[2]))
    cov = {
        'explanation': (mod.__doc__ or '').strip(),
        'obligations': len(ctx.items),
        'discharged': len(ok),
        'undecided': len(und),
        'rules': by_rule,
        'samples': samples[:40],
    }
    if und:
        cov['undecided_items'] = ['%s | %s | %s | %s' % (x[0], x[1], x[3], x[4]) for x in und[:40]]
    if ctx._prog is not None:
        p = ctx._prog
        cov['translation_units'] = len(p.units)
        cov['functions_in_scope'] = sum(1 for f in p.funcs.values() if f.get('body') is not None and 'tgsa' not in f['q'])
    cov.update(ctx.notes)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': cov, 'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % prop, 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print('%s: %d obligations, %d ok, %d undecided, %d violated (%.1f s)' % (prop, len(ctx.items), len(ok), len(und), len(bad), time.time() - t0))
    for r, d in by_rule.items():
        print('  %-28s ok %d undecided %d bad %d' % (r, d['ok'], d['undecided'], d['bad']))
    for x in und[:20]:
        print('  undecided: %s | %s | %s | %s' % (x[0], x[1], x[3], str(x[4])[:300]))
    if new:
        os.makedirs(VERIF + '/replay', exist_ok=True)
        path = VERIF + '/replay/%s.txt' % prop
        with open(path, 'w', encoding='utf-8') as f:
            for x in new:
                f.write('property %s, rule %s\n  instance: %s\n  at: %s\n  %s\n' % (prop, x[0], x[1], x[3], x[4]))
                for t in x[5]:
                    f.write('    in %s\n' % (t,))
        for x in new[:20]:
            print('  violated: %s | %s | %s | %s' % (x[0], x[1], x[3], str(x[4])[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if broken is not None:
        print('BROKEN %s: %s' % (prop, broken))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
