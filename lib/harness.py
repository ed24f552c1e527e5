"""Common part of every check: collects what was analysed, reports violations, writes evidence."""
import hashlib
import json
import os
import sys
import time
import traceback

import build

VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.violations = {}      # key -> text
        self.items = {}           # category -> set/list of analysed things
        self.obligations = 0
        self.discharged = 0
        self.rules = []
        self.notes = []
        self.assumptions = []
        self.floors = {}

    # -- what was analysed
    def analysed(self, cat, what):
        self.items.setdefault(cat, set()).add(what)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def oblig(self, good, key, text):
        """one obligation; a failed one is a violation identified by key"""
        self.obligations += 1
        if good:
            self.discharged += 1
        else:
            self.violate(key, text() if callable(text) else text)
        return good

    def violate(self, key, text):
        self.violations.setdefault(key, text)

    def floor(self, cat, n):
        self.floors[cat] = n

    # -- parallel map: fn(check, *item) with a private Check, merged in order
    def pmap(self, fn, items, procs=None):
        import multiprocessing as mp
        items = list(items)
        global _WORK
        _WORK = (fn, items, self.prop, self.tier, self.seed)
        if len(items) <= 1:
            parts = [_work(i) for i in range(len(items))]
        else:
            with mp.get_context('fork').Pool(procs or min(8, os.cpu_count() or 2)) as pool:
                parts = pool.map(_work, range(len(items)), chunksize=max(1, len(items) // 64))
        res = []
        for viol, its, ob, di, rules, notes, ret in parts:
            for k, v in viol.items():
                self.violations.setdefault(k, v)
            for k, v in its.items():
                self.items.setdefault(k, set()).update(v)
            self.obligations += ob
            self.discharged += di
            for r in rules:
                self.rule(r)
            for n in notes:
                if n not in self.notes:
                    self.notes.append(n)
            res.append(ret)
        return res

    # -- end
    def finish(self):
        for cat, n in self.floors.items():
            have = self.obligations if cat == 'obligations' else len(self.items.get(cat, ()))
            if have < n:
                self.violate('floor:' + cat, 'only %d %s analysed, at least %d exist in the confirmed tree: '
                             'an anchor of the rule is missing' % (have, cat, n))
        known = load_known(self.prop)
        new = []
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        for key in sorted(self.violations):
            text = self.violations[key]
            if key in known:
                print('KNOWN-FINDING: property=%s %s [%s]' % (self.prop, known[key], key))
                continue
            new.append(key)
        rep = []
        for key in new[:40]:
            h = hashlib.sha256(key.encode()).hexdigest()[:10]
            path = os.path.join(EVID, 'replay', '%s-%s.txt' % (self.prop, h))
            with open(path, 'w') as f:
                f.write('property %s\nviolation key: %s\n\n%s\n' % (self.prop, key, self.violations[key]))
            rep.append(path)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  key: ' + key)
            print('  ' + self.violations[key].split('\n')[0][:400])
        if len(new) > 40:
            print('  ... and %d more' % (len(new) - 40))
        cov = {
            'explanation': 'Static analysis of the source compiled from /repo: ' + '; '.join(self.rules),
            'rules': self.rules,
            'obligations': self.obligations,
            'discharged': self.discharged,
            'analysed': {k: {'count': len(v), 'sample': sorted(map(str, v))[:60]} for k, v in self.items.items()},
            'floors': self.floors,
            'known_findings': sorted(k for k in self.violations if k in known),
        }
        if self.notes:
            cov['notes'] = self.notes
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': cov,
            'assumptions': self.assumptions or DEFAULT_ASSUMPTIONS,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d violations, %s, %.1fs' % (
            self.prop, self.obligations, self.discharged, len(new),
            ', '.join('%d %s' % (len(v), k) for k, v in self.items.items()), time.time() - self.t0))
        return 1 if new else 0


_WORK = None


def _work(i):
    fn, items, prop, tier, seed = _WORK
    c = Check(prop, tier, seed)
    it = items[i]
    ret = None
    try:
        ret = fn(c, *it)
    except build.BuildError as e:
        c.violate('build', 'the analysed program does not compile: %s' % e)
    except Exception as e:
        c.violate('analysis:%s' % (it,), 'the analysis could not decide the property for %s: %s\n%s' % (it, e, traceback.format_exc()))
    return c.violations, c.items, c.obligations, c.discharged, c.rules, c.notes, ret


DEFAULT_ASSUMPTIONS = [
    'rustc front end and MIR construction (nightly) are faithful to the source',
    'the hand-written summaries of std/bitvec functions in lib/stdmodel.py are faithful',
]


def load_known(prop):
    out = {}
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                # known: property=<id> key=<key> :: <what fails>
                if rest.startswith('key='):
                    key, _, what = rest[4:].partition(' :: ')
                    out[key.strip()] = what.strip()
    except FileNotFoundError:
        pass
    return out


def main(prop, tier):
    import checks
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(prop, tier, seed)
    try:
        checks.TABLE[prop](c)
    except build.BuildError as e:
        c.violate('build', 'the analysed program does not compile: %s' % e)
    except Exception as e:
        c.violate('analysis', 'the analysis could not decide the property: %s\n%s' % (e, traceback.format_exc()))
    return c.finish()


if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER', 'quick')
    args = [a for a in sys.argv[1:]]
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    sys.setrecursionlimit(20000)
    sys.exit(main(args[0], tier))
