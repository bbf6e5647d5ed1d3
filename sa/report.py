"""Obligations, verdicts, evidence and known findings."""
import fnmatch
import json
import os
import sys
import time
from . import poly as pl
from . import values as vl
from .poly import Poly, Cond, P, TRUE, FALSE
from .numeval import Val, Unknown, Undefined
from .interp import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def _mag(v, p):
    """Sum of absolute values of the terms (scale for the comparison)."""
    s = 0.0
    for m, c in p.t.items():
        s += abs(v.poly(Poly({m: c})))
    return s


class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.proven = 0
        self.identity = 0
        self.undecided = []
        self.viol = []
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.interps = []
        self.known = []
        self.kf = load_known(pid)
        self.points = 6            # valuations of an identity test
        self.tries = 60            # valuations looked at, admissible or not
        self.tol = 1e-8
        self.reduce = True         # try cancelling roots exactly before testing at points
        self.total = False         # a derived term without a value counts as different

    # -- recording ---------------------------------------------------------
    def interp(self, it):
        self.interps.append(it)
        return it

    def ok(self, key, how='rule'):
        self.proven += 1
        if len(self.samples) < 12:
            self.samples.append({'obligation': key, 'verdict': how})

    def unsure(self, key, why):
        self.undecided.append((key, str(why)[:300]))

    def fail(self, key, msg, where=None):
        for k in self.kf:
            if fnmatch.fnmatchcase(key, k['key']):
                k['hits'] = k.get('hits', 0) + 1
                if k not in self.known:
                    self.known.append(k)
                return
        self.viol.append({'key': key, 'message': msg, 'where': where or ''})

    # -- comparing values ------------------------------------------------
    def same(self, key, got, want, facts=None, sampler=None, where=None, leaf=None, quiet_known=None):
        """Obligation: got == want under facts.  Returns verdict string."""
        if not isinstance(got, (Poly, Cond)):
            if isinstance(got, bool):
                got = TRUE if got else FALSE
            else:
                self.unsure(key, 'value not scalar: %r' % (got,))
                return 'undecided'
        got, want = P(got), P(want)
        if facts is not None:
            saved = vl.CUR[0]
            vl.CUR[0] = facts
            try:
                for _ in range(2):
                    m = facts.mapper(leaf)
                    got, want = m.poly(got), m.poly(want)
            finally:
                vl.CUR[0] = saved
        if got == want:
            self.ok(key, 'normal forms equal')
            return 'proven'
        if got.bad:
            self.unsure(key, got.bad)
            return 'undecided'
        d = got - want
        try:
            if self.reduce and len(d.t) < 3000 and pl.is_zero(d):
                self.ok(key, 'difference reduces to zero')
                return 'proven'
        except RecursionError:
            pass
        verdict, info = self.identify(got, want, facts, sampler)
        if verdict == 'equal':
            self.identity += 1
            if len(self.samples) < 12:
                self.samples.append({'obligation': key, 'verdict': 'terms agree (identity test)'})
            return 'identity'
        if verdict == 'unknown':
            self.unsure(key, info)
            return 'undecided'
        hits = sorted(vl.HITS)
        loc = where or ''
        if hits:
            loc = (loc + '; ' if loc else '') + 'stored at ' + ', '.join(hits[:4])
        self.fail(key, 'derived value differs from the specified one: derived %s | specified %s | %s'
                  % (pl.show(got, 200)[:400], pl.show(want, 200)[:400], info), loc)
        return 'violated'

    def identify(self, got, want, facts, sampler):
        n, tried = 0, 0
        last = 'no admissible valuation'
        for k in range(self.tries):
            v = sampler(k + 101 * self.seed) if sampler else Val(seed=k + 101 * self.seed)
            if v is None:
                break
            tried += 1
            try:
                if facts is not None and not all(v.cond(c) for c in facts.conds):
                    continue
                b = v.poly(want)
                try:
                    a = v.poly(got)
                except Undefined as ex:
                    if self.total:
                        return 'differ', 'no value: %s' % ex
                    raise
                sc = _mag(v, got) + _mag(v, want)
            except Unknown as ex:
                last = str(ex)
                continue
            except (OverflowError, ZeroDivisionError) as ex:
                last = str(ex)
                continue
            if abs(a - b) > self.tol * sc + 1e-13:
                env = {k_: round(x, 4) for k_, x in v.env.items() if k_ != 'pi'}
                return 'differ', 'at %s: %.9g versus %.9g' % (env, a, b)
            n += 1
            if n >= self.points:
                break
        if n >= 2:
            return 'equal', ''
        return 'unknown', last

    # -- finishing ---------------------------------------------------------
    def finish(self, minimum=1):
        decided = self.proven + self.identity + len(self.viol) + sum(k.get('hits', 0) for k in self.known)
        funcs = {}
        for it in self.interps:
            for f, n in it.funcs_seen.items():
                funcs[f] = funcs.get(f, 0) + n
        ev = {
            'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
            'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'obligations': decided + len(self.undecided),
                'proved_by_normal_form': self.proven,
                'discharged_by_term_identity': self.identity,
                'undecided': len(self.undecided),
                'undecided_examples': ['%s: %s' % u for u in self.undecided[:8]],
                'violated': len(self.viol),
                'known_findings': [k['key'] for k in self.known],
                'functions_analysed': len(funcs),
                'functions': sorted(funcs)[:80],
                'call_sites_evaluated': sum(it.ncalls for it in self.interps),
                'branches_joined': sum(it.nbranches for it in self.interps),
                'loops_summarised': sum(it.nloops for it in self.interps),
                'samples': self.samples,
            },
            'assumptions': self.assumptions,
            'violations': len(self.viol),
            'wall_s': round(time.time() - self.t0, 3),
        }
        ev['coverage'].update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print('%s: %d obligations: %d proved, %d by term identity, %d undecided, %d violated, %d known (%.1fs)'
              % (self.pid, decided + len(self.undecided), self.proven, self.identity, len(self.undecided),
                 len(self.viol), len(self.known), time.time() - self.t0))
        for u in self.undecided[:5]:
            print('  undecided %s: %s' % u)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.viol:
            path = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
            with open(path, 'w') as f:
                for v in self.viol:
                    f.write('%s\n  rule: %s\n  where: %s\n  %s\n' % (v['key'], self.rule, v['where'], v['message']))
            for v in self.viol[:6]:
                print('  violated %s\n    where: %s\n    %s' % (v['key'], v['where'], v['message'][:700]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if decided < minimum:
            print('%s: only %d obligations decided (needs %d): the analysed constructs were not found'
                  % (self.pid, decided, minimum))
            return 2
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                d = json.loads(line)
                if d['property'] == pid:
                    out.append(d)
    return out
