# coding=utf-8
"""Common machinery of the checks: reporting, sharding over processes, explicit-state search, known findings."""
from __future__ import print_function

import json
import os
import pickle
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MAX_VIOLATIONS = 5
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


def load_known(prop):
    """Known findings: lines "finding: property=<id> key=<key> <description>"."""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith('finding: property=%s key=' % prop):
                rest = line.split('key=', 1)[1].rstrip('\n')
                key, _, text = rest.partition(' ')
                known[key] = text
    return known


class Stop(Exception):
    """Enough violations."""


class Check(object):
    """Accumulates what one check explores and finds.

    `case(desc)` counts one exploration; `fail(what, **replay)` reports a violation.
    `distinct` is a set of hashable outcomes or inputs that counts distinct, non trivial explorations.
    """

    def __init__(self, prop, level, rule, tier=None):
        self.prop, self.level, self.rule = prop, level, rule
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.nviolations = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.known = load_known(prop)
        self.known_hit = {}
        self.exhaustive = True
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # --- Counting

    def count(self, n=1):
        self.evaluations += n

    def seen(self, key):
        self.distinct.add(key if isinstance(key, int) else hash(key))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s if isinstance(s, (str, int, dict, list)) else repr(s)[:500])

    # --- Findings

    def fail(self, message, known_key=None, **replay):
        if known_key is not None and known_key in self.known:
            self.known_hit[known_key] = self.known_hit.get(known_key, 0) + 1
            return
        self.nviolations += 1
        if len(self.violations) < MAX_VIOLATIONS:
            replay = {k: v if isinstance(v, (int, str, list, dict, bool, type(None))) else repr(v)
                      for k, v in replay.items()}
            self.violations.append(dict(replay, message=message))
        if self.nviolations >= 50:
            raise Stop()

    def expect(self, cond, message, **replay):
        if not cond:
            self.fail(message, **replay)
        return cond

    # --- Merging the work of forked workers

    def dump(self):
        return dict(evaluations=self.evaluations, distinct=self.distinct, samples=self.samples,
                    violations=self.violations, nviolations=self.nviolations, states=self.states,
                    transitions=self.transitions, traces=self.traces, extra=self.extra,
                    known_hit=self.known_hit)

    def merge(self, d):
        self.evaluations += d['evaluations']
        self.distinct |= d['distinct']
        for s in d['samples'][:2]:
            self.sample(s)
        self.violations = (self.violations + d['violations'])[:MAX_VIOLATIONS]
        self.nviolations += d['nviolations']
        self.states += d['states']
        self.transitions += d['transitions']
        self.traces += d['traces']
        for k, v in d['known_hit'].items():
            self.known_hit[k] = self.known_hit.get(k, 0) + v
        for k, v in d['extra'].items():
            if isinstance(v, int):
                self.extra[k] = self.extra.get(k, 0) + v
            elif isinstance(v, (set, dict)):
                self.extra.setdefault(k, type(v)()).update(v)
            else:
                self.extra[k] = v

    def fresh(self):
        """An empty Check like this one, for a worker."""
        return Check(self.prop, self.level, self.rule, self.tier)

    def parallel(self, fn, items, nproc=None, collect=None):
        """Runs fn(check, item) for all items, in forked workers (strided), merges the results.

        If collect is given, fn return values (picklable) are passed, item order per worker, to collect(item_index, value).
        """
        items = list(items)
        nproc = max(1, min(nproc or NPROC, len(items)))

        def worker(k):
            sub = self.fresh()
            out = []
            try:
                for i in range(k, len(items), nproc):
                    try:
                        r = fn(sub, items[i])
                    except (Stop, KeyboardInterrupt):
                        raise
                    except Exception:
                        sub.fail('unexpected exception', item=repr(items[i])[:2000], traceback=traceback.format_exc())
                        r = None
                    if collect is not None:
                        out.append((i, r))
            except Stop:
                pass
            return sub.dump(), out

        for dump, out in fork_map(worker, range(nproc)):
            self.merge(dump)
            if collect is not None:
                for i, r in out:
                    collect(i, r)
        if self.nviolations >= 50:
            raise Stop()

    # --- The end

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.extra)
        cov = {k: (len(v) if isinstance(v, set) else v) for k, v in cov.items()}
        cov.update(samples=self.samples or ['(none)'])
        if self.level == 'model_checking':
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                       evaluations=self.evaluations, exhaustive=self.exhaustive, rule=self.rule)
            if self.distinct:
                cov['distinct_nontrivial'] = len(self.distinct)
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                       exhaustive=self.exhaustive)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(wall, 2), violations=self.nviolations)
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % self.prop), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        for key in sorted(self.known_hit):
            print('KNOWN-FINDING: property=%s key=%s %s' % (self.prop, key, self.known[key]))
        print('%s tier=%s evaluations=%d distinct=%d states=%d transitions=%d traces=%d violations=%d wall=%.1fs' % (
            self.prop, self.tier, self.evaluations, len(self.distinct), self.states, self.transitions, self.traces,
            self.nviolations, wall))
        if self.nviolations:
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            for n, v in enumerate(self.violations):
                path = os.path.join(rdir, '%s-%d.json' % (self.prop, n))
                with open(path, 'w') as f:
                    json.dump(dict(v, property=self.prop, tier=self.tier, seed=self.seed,
                                   rerun='bash /verif/run.sh %s %s' % (self.prop, self.tier)),
                              f, indent=1, default=repr)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  %s' % str(v.get('message'))[:400])
                for k in sorted(v):
                    if k != 'message':
                        print('    %s: %s' % (k, str(v[k])[-700:]))
            return 1
        return 0


CHILDREN = set()


def fork_map(fn, items):
    """Runs fn(item) in one forked process per item; yields the results."""
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for item in items:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            CHILDREN.clear()
            try:
                os.close(r)
                for rr, _ in procs:
                    os.close(rr)
                data = pickle.dumps(fn(item), protocol=4)
                with os.fdopen(w, 'wb') as f:
                    f.write(struct.pack('>Q', len(data)))
                    f.write(data)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        CHILDREN.add(pid)
        procs.append((r, pid))
    results = []
    for r, pid in procs:
        with os.fdopen(r, 'rb') as f:
            head = f.read(8)
            data = f.read(struct.unpack('>Q', head)[0]) if len(head) == 8 else None
        os.waitpid(pid, 0)
        CHILDREN.discard(pid)
        if data is None:
            raise RuntimeError('a worker died')
        results.append(pickle.loads(data))
    return results


def in_fork(fn):
    """Runs fn() in a pristine fork of this process, returns its result."""
    return fork_map(lambda _: fn(), [0])[0]


# --- Explicit-state search

def bfs(check, ops, run, depth, memory=0):
    """Breadth-first search over histories of operations.

    run(check, history) replays the whole history on fresh real objects next to the model, checking each step (or at
    least the last one, as the others were checked before), and returns a hashable state key or None when the branch must not be extended.
    Every run is a trace validated against the implementation. Histories are extended once per different state and last
    `memory` operations, so that hidden state of the implementation has chances to show.
    """
    def expand(sub, hists):
        out = []
        for hist in hists:
            for op in ops:
                h = hist + (op,)
                out.append((h, run(sub, h)))
                sub.transitions += 1
                sub.traces += 1
        return out

    def mem(h):
        return h[-memory:] if memory else ()

    seen = {(run(check, ()), ())}
    states = {k for k, _ in seen}
    check.traces += 1
    frontier = [()]
    level = 0
    while frontier and level < depth:
        nxt = []

        def collect(_, results):
            for h, k in results or ():
                if k is None or (k, mem(h)) in seen:
                    continue
                seen.add((k, mem(h)))
                states.add(k)
                nxt.append(h)
        n = max(1, min(200, len(frontier) // (4 * NPROC) + 1))
        chunks = [frontier[i:i + n] for i in range(0, len(frontier), n)]
        results = {}
        check.parallel(expand, chunks, collect=lambda i, r: results.__setitem__(i, r))
        for i in sorted(results):
            collect(i, results[i])
        frontier = nxt
        level += 1
        if check.violations:
            break
    check.states += len(states)
    check.extra['bfs_depth'] = max(check.extra.get('bfs_depth', 0), level)
    check.extra['histories_extended'] = check.extra.get('histories_extended', 0) + len(seen)
    check.extra['fixpoints'] = check.extra.get('fixpoints', 0) + (0 if frontier else 1)
    return states


def de_bruijn(k, n):
    """A cyclic sequence over range(k) containing each window of length n exactly once."""
    a = [0] * k * n
    sequence = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                sequence.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))
    db(1, 1)
    return sequence


def outcome(fn, *args, **kwargs):
    """("ok", value) or ("error", exception type name)."""
    try:
        return 'ok', fn(*args, **kwargs)
    except Exception as e:
        return 'error', type(e).__name__


# --- Main

def import_whatami():
    sys.path.insert(0, REPO)
    import whatami
    assert os.path.abspath(whatami.__file__).startswith(os.path.abspath(REPO) + os.sep), whatami.__file__
    return whatami


def main(prop, level, rule, body, timeout=840, jit=True):
    """Runs body(check); unexpected exceptions and hangs of the code under test are violations.

    Use jit=False for checks that define many classes: compiled code keeps them alive, so everything gets slower.
    """
    check = Check(prop, level, rule)
    if not jit:
        try:
            import pypyjit
            pypyjit.set_param('off')
        except ImportError:
            pass
    if check.thorough:
        timeout = int(os.environ.get('VERIF_TIMEOUT', '7200'))

    def on_alarm(*_):
        raise RuntimeError('the check did not finish in %d seconds' % timeout)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    try:
        import_whatami()
        body(check)
    except Stop:
        check.exhaustive = False
    except Exception:
        tb = traceback.format_exc()
        check.exhaustive = False
        check.nviolations += 1
        check.violations.append(dict(message='unexpected exception', traceback=tb))
    signal.alarm(0)
    for pid in CHILDREN:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    code = check.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
