#!/usr/bin/env python3
"""Decides one property: tools/check.py <ID>.

Reads VERIF_SEED and VERIF_TIER, rebuilds the code under check, lets TLC check the models of
the specification and generate behaviours, replays them into the code, and lets TLC judge the
recorded traces.  Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: no verdict.
"""
import bisect
import json
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402
from vlib import VERIF, ToolError  # noqa: E402

REGISTRY = {}


def prop(pid):
    def reg(f):
        REGISTRY[pid] = f
        return f
    return reg


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.models = []          # (name, generated, distinct) of models checked exhaustively
        self.gen = 0              # states of generator state machines
        self.gent = 0             # ... and the steps they took
        self.judged = 0           # states of trace specifications
        self.traces = 0           # behaviours replayed and judged
        self.calls = {}           # operation -> number of calls judged
        self.samples = []
        self.bad = []             # (replay text, reason)
        self.known = []
        self.notes = {}

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def generated(self, st):
        self.gen += st[1] or st[0]
        self.gent += st[0]

    # ------------------------------------------------------------ models of the specification
    def model(self, module, cfg, name=None, **kw):
        kw.setdefault('args', ['-workers', str(vlib.CORES)])
        g, d = vlib.model_check(module, cfg, **kw)
        self.models.append((name or module, g, d))

    def mutant(self, module, cfg, name, **kw):
        """The model must be able to fail: a broken rule has to be noticed."""
        kw.setdefault('args', ['-workers', str(vlib.CORES)])
        rc, out = vlib.tlc(module, cfg, **kw)
        if rc not in (12, 13):
            raise ToolError('model %s does not notice the broken rule %s (%d):\n%s' % (module, name, rc, out[-2000:]))

    # ------------------------------------------------------------ behaviours against the code
    def conform(self, exe, module, histories, env=None, consts='', only=None, shards=None, keep=lambda ev, why: True, timeout=300):
        """Replays histories (lists of script lines) and judges the recorded traces."""
        n = max(1, min(shards or vlib.CORES, (len(histories) + 3) // 4))
        parts = [histories[i::n] for i in range(n)]

        def one(hs):
            lines = [c for h in hs for c in h]
            tr = vlib.replay(exe, lines, timeout=timeout)
            rej, st = vlib.judge(module, tr, env=env, consts=consts, only=only)
            return hs, lines, tr, rej, st
        with vlib.pool(vlib.CORES) as ex:
            for hs, lines, tr, rej, st in ex.map(one, parts):
                self.account(hs, tr, st)
                self.collect(exe, module, hs, lines, tr, rej, env, keep)

    def account(self, hs, tr, st):
        self.traces += len(hs)
        self.judged += st
        for t in tr:
            op = re.match(r'\{"op":"(\w+)"', t).group(1)
            m = re.search(r'"f":"([\w*+=/-]+)"', t)
            self.calls[op + (' ' + m.group(1) if m else '')] = self.calls.get(op + (' ' + m.group(1) if m else ''), 0) + 1
        for h in hs[:1]:
            if len(self.samples) < 4:
                self.samples.append([c if len(c) < 160 else c[:157] + '...' for c in h[:12]] + (['... %d calls in all' % len(h)] if len(h) > 12 else []))

    def collect(self, exe, module, hs, lines, tr, rej, env, keep):
        if not rej:
            return
        starts, at = [], 0
        for h in hs:
            starts.append(at)
            at += len(h)
        for line, why in rej:
            ev = json.loads(tr[line - 1])
            why = why.replace('\\"', '"').replace('\\\\', '\\')
            if ev['op'] not in ('crash', 'hang') and not keep(ev, why):
                continue
            k = bisect.bisect_left(starts, line) - 1
            h = hs[k]
            self.bad.append((h[:line - starts[k]], tr[line - 1], module, why))

    # ------------------------------------------------------------ result
    def finish(self):
        known = known_findings(self.pid)
        fresh = []
        for h, ev, module, why in self.bad:
            hit = [f for f in known if re.search(f['match'], (h[-1] if h else '') + ' | ' + why)]
            if hit:
                self.known.append(hit[0]['what'])
            else:
                fresh.append((h, ev, module, why))
        wall = time.time() - self.t0
        cov = {
            'states': sum(d for _, _, d in self.models) + self.gen + self.judged,
            'transitions': sum(g for _, g, _ in self.models) + self.gent + sum(self.calls.values()),
            'traces_validated_against_impl': self.traces,
            'samples': self.samples or ['none'],
            'models_checked': [{'model': n, 'states_generated': g, 'distinct_states': d} for n, g, d in self.models],
            'generator_states': self.gen,
            'trace_states': self.judged,
            'calls_judged': dict(sorted(self.calls.items())),
        }
        cov.update(self.notes)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.pid), 'w') as f:
            json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
                       'assumptions': ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(fresh)}, f, indent=1)
        for w in sorted(set(self.known)):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        print('%s %s seed=%d: %d model states, %d behaviours, %d calls judged, %d rejected, %.1f s' % (
            self.pid, self.tier, self.seed, cov['states'], self.traces, sum(self.calls.values()), len(fresh), wall))
        if not fresh:
            return 0
        path = '%s/evidence/%s.replay' % (VERIF, self.pid)
        with open(path, 'w') as f:
            for h, ev, module, why in fresh[:200]:
                f.write('# rejected by %s: %s\n# recorded: %s\n' % (module, why, ev))
                f.write('\n'.join(h) + '\n\n')
        for h, ev, module, why in fresh[:3]:
            print('  rejected: %s -- %s' % ((h[-1] if h else '')[:150], why[:400]))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1


ASSUMPTIONS = [
    'numbers of the specification are evaluated with 42 digits by spec/java (CNum)',
    'the drivers report calls and results of the code faithfully',
]


def known_findings(pid):
    """Open findings of a property: known_findings.txt is never written by a check."""
    out = []
    for line in open(VERIF + '/known_findings.txt'):
        m = re.match(r'open: property=(\w+) match=(\S+) (.*)', line)
        if m and m.group(1) == pid:
            out.append({'match': m.group(2), 'what': m.group(3)})
    return out


def main():
    if len(sys.argv) != 2:
        print('usage: check.py <property>')
        return 2
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        if pid == 'setup':
            vlib.classes()
            vlib.driver('core')
            vlib.driver('sm')
            vlib.driver('user')
            vlib.driver('sm', double=True)
            return 0
        run = Run(pid, tier, seed)
        REGISTRY[pid](run)
        return run.finish()
    except ToolError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    import families  # noqa: F401
    sys.exit(main())
