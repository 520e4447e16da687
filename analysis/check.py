"""Common driver of all property checks: obligations, known findings, evidence, exit status."""
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import facts

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class AnchorMissing(Exception):
    pass


def slug(s):
    return re.sub(r'[^A-Za-z0-9_.:<>\-\[\]=&|!()+*/ ]', '', str(s))[:160]


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []                 # (rule, construct, ok, detail)
        self.functions = set()
        self.counts = {}
        self.samples = []
        self.rules = {}
        self._progs = {}
        self.assumptions = []

    # -- program access
    def prog(self, cfg='base'):
        from .program import Program
        if cfg not in self._progs:
            self._progs[cfg] = Program(cfg)
        return self._progs[cfg]

    @property
    def P(self):
        return self.prog('base')

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, construct, ok, detail=''):
        """one obligation: `rule` at `construct` (no line numbers in the key)."""
        self.obs.append((rule, slug(construct), bool(ok), str(detail)))
        return ok

    def saw(self, *paths):
        for p in paths:
            if isinstance(p, (set, list, tuple, frozenset)):
                self.saw(*p)
            else:
                self.functions.add(p)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, value, minimum):
        """fail closed when the analysis saw less than was counted by hand."""
        self.counts[name] = value
        if value < minimum:
            raise AnchorMissing('%s: saw %d, expected at least %d' % (name, value, minimum))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:400])

    # -- finish
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', l.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        bad = [(r, c, d) for r, c, ok, d in self.obs if not ok]
        known = dict(self.known())
        viol = []
        hit = set()
        for r, c, d in bad:
            key = '%s @ %s' % (r, c)
            if key in known:
                hit.add(key)
            else:
                viol.append((key, d))
        for k in sorted(hit):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the MIR of /repo\'s current working tree. obligations = rule instances decided on this run; '
                               'functions_analysed = bodies inspected or inlined by the dataflow engine.',
                'obligations': len(self.obs), 'discharged': len([1 for o in self.obs if o[2]]),
                'distinct_constructs': len(set(o[1] for o in self.obs)),
                'functions_analysed': len(self.functions),
                'counts': self.counts,
                'rules': self.rules,
                'samples': self.samples or ['%s @ %s: %s' % (r, c, 'holds' if ok else 'BROKEN ' + d[:200]) for r, c, ok, d in self.obs[:8]],
                'source_hash': facts.repo_hash()[:16],
            },
            'wall_s': round(time.time() - self.t0, 2),
        }
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        if viol:
            ev['violations'] = [{'construct': k, 'detail': d[:600]} for k, d in viol[:40]]
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.pid + '.json')
        json.dump(ev, open(path + '.tmp', 'w'), indent=1)
        os.replace(path + '.tmp', path)
        print('%s: %d obligations, %d discharged, %d functions analysed, %.1fs' % (self.pid, len(self.obs), ev['coverage']['discharged'], len(self.functions), ev['wall_s']))
        if not self.obs:
            print('error: no obligations generated')
            return 2
        if viol:
            for k, dd in viol[:12]:
                print('  broken: %s -- %s' % (k, dd[:300]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        return 0


def run(pid, tier, seed):
    c = Check(pid, tier, seed)
    try:
        mod = importlib.import_module('analysis.props.' + pid.lower())
        mod.check(c)
    except AnchorMissing as ex:
        print('error: %s: anchor missing: %s' % (pid, ex))
        return 2
    except Exception:
        traceback.print_exc()
        print('error: %s: the check itself failed' % pid)
        return 2
    return c.finish()


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if argv and argv[0] == 'setup':
        facts.build_driver()
        for cfg in ('base', 'serde'):
            facts.load(cfg)
        return 0
    if argv and argv[0] == 'all':
        rc = 0
        for pid in sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, 'analysis', 'props')) if re.match(r'c\d+\.py$', f)):
            r = run(pid, tier, seed)
            rc = rc or r
        return rc
    return run(argv[0], tier, seed)
