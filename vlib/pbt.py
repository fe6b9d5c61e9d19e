"""A small property-based testing engine.

Test cases are generated from a sequence of bounded integer choices (the
"choice sequence" representation used by Hypothesis).  That gives, for free:
 * integrated shrinking (shrink the choices, re-run the generator),
 * exact replay (a replay file stores the choices),
 * corpus mutation (mutate the choices), guided by line coverage of the
   package under test.
"""
import hashlib
import json
import multiprocessing
import os
import queue as _queue
import random
import resource
import signal
import sys
import time
import traceback


class Discard(BaseException):
    """The generated case is outside of the property's domain."""


class Known(BaseException):
    """The case hit a listed known finding."""

    def __init__(self, kid):
        self.kid = kid


class Violation(Exception):
    """The property does not hold for the generated case."""


class Hang(BaseException):
    """One case used more CPU time than any case may."""


class Overrun(Discard):
    pass


class Source:
    """Draws bounded integers; records them as the case's choice sequence."""

    __slots__ = ('prefix', 'rng', 'choices', 'limit', 'notes', 'pool')

    def __init__(self, prefix=None, rng=None, limit=6000):
        self.prefix = prefix or []
        self.rng = rng
        self.choices = []
        self.limit = limit
        self.notes = []

    def draw(self, n):
        """An integer in [0, n]; smaller is simpler."""
        i = len(self.choices)
        if i >= self.limit:
            raise Overrun()
        if i < len(self.prefix):
            v = self.prefix[i]
            if v > n:
                v = n
        elif self.rng is not None:
            v = self.rng.randint(0, n)
        else:
            v = 0
        self.choices.append(v)
        return v

    # -- helpers ---------------------------------------------------------
    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def bool(self, num=1, den=2):
        """True with probability num/den; False is simpler."""
        return self.draw(den - 1) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first one is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total - 1)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def sint(self, lo, hi):
        """Signed integer, with the sign drawn second so that it shrinks to positives."""
        m = max(abs(lo), abs(hi))
        v = self.draw(m)
        if lo < 0 and v != 0 and self.bool():
            v = -v
        return min(max(v, lo), hi)

    def size(self, lo, hi, avg=None):
        """A length, geometric-ish: small ones are common but hi is reachable."""
        k = self.draw(3)
        if k < 3:
            mid = min(hi, lo + max(1, (hi - lo) // 4))
            return lo + self.draw(mid - lo)
        return lo + self.draw(hi - lo)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


# ---------------------------------------------------------------------------

CASE_CPU_S = 25


def _alarm(signum, frame):
    raise Hang()


class Coverage:
    """Counts lines of the package under test seen by this process."""

    TOOL = 3

    def __init__(self, root):
        self.root = root
        self.lines = set()
        self.new = False
        self.ok = False

    def start(self):
        try:
            mon = sys.monitoring
            mon.use_tool_id(self.TOOL, 'verif')
            mon.register_callback(self.TOOL, mon.events.LINE, self._line)
            mon.set_events(self.TOOL, mon.events.LINE)
            self.ok = True
        except Exception:
            self.ok = False

    def _line(self, code, line):
        fn = code.co_filename
        if fn.startswith(self.root):
            key = (fn, line)
            if key not in self.lines:
                self.lines.add(key)
                self.new = True
        return sys.monitoring.DISABLE


class T:
    """What a case function gets besides its Source."""

    def __init__(self, env):
        self.env = env            # shared per-worker environment (see vlib.sut.Env)
        self.keys = set()
        self.samples = []
        self.labels = {}
        self._text = None
        self._key = None
        self._labels = []
        self.collect = True

    def begin(self):
        self.hang_ok = False      # set by cases that make no claim about time
        self._text = None
        self._key = None
        self._labels = []

    def show(self, text):
        """Human readable form of this case."""
        self._text = text

    def nt(self, key=True):
        """This case is non-trivial by the property's rule; key identifies it."""
        self._key = key

    def label(self, name):
        self._labels.append(name)

    def end(self):
        if self._key is not None:
            k = self._key if self._key is not True else self._text
            h = hashlib.blake2b(repr(k).encode('utf8', 'surrogatepass'), digest_size=8).digest()
            if h not in self.keys:
                self.keys.add(h)
                if self._text is not None and len(self.samples) < 400:
                    self.samples.append(self._text if isinstance(self._text, str) else repr(self._text))
        for l in self._labels:
            self.labels[l] = self.labels.get(l, 0) + 1


def run_case(fn, src, t):
    """Runs one case. Returns (status, info): ok / discard / known / fail."""
    t.begin()
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        fn(src, t)
        return 'ok', None
    except Known as k:
        return 'known', k.kid
    except Discard:
        return 'discard', None
    except Violation as v:
        return 'fail', str(v)
    except Hang:
        if t.hang_ok:
            return 'discard', None
        return 'fail', 'no answer within {} CPU seconds: {!r}'.format(CASE_CPU_S, t._text)
    except RecursionError:
        return 'fail', 'RecursionError: {!r}\n{}'.format(t._text, traceback.format_exc(limit=-4))
    except MemoryError:
        return 'fail', 'MemoryError: {!r}'.format(t._text)
    except Exception:
        return 'fail', 'unexpected exception for {!r}\n{}'.format(t._text, traceback.format_exc(limit=-8))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def shrink(fn, choices, t, budget_s=25):
    """Minimises the choice sequence of a failing case."""
    end = time.time() + budget_s
    best = list(choices)
    cache = {}

    def fails(c):
        key = tuple(c)
        if key in cache:
            return cache[key]
        t.env.refresh()
        src = Source(prefix=list(c))
        status, info = run_case(fn, src, t)
        r = None
        if status == 'fail' and not (info or '').startswith('no answer'):
            used = src.choices
            r = used
        cache[key] = r
        return r

    r = fails(best)
    if r is None:
        return None
    best = r
    improved = True
    while improved and time.time() < end:
        improved = False
        # delete chunks
        for k in (16, 8, 4, 3, 2, 1):
            i = len(best) - k
            while i >= 0 and time.time() < end:
                cand = best[:i] + best[i + k:]
                r = fails(cand)
                if r is not None and (len(r), r) < (len(best), best):
                    best = r
                    improved = True
                i -= 1
                if i > len(best) - k:
                    i = len(best) - k
        # zero chunks
        for k in (8, 4, 2, 1):
            i = 0
            while i + k <= len(best) and time.time() < end:
                if any(best[i:i + k]):
                    cand = best[:i] + [0] * k + best[i + k:]
                    r = fails(cand)
                    if r is not None and (len(r), r) < (len(best), best):
                        best = r
                        improved = True
                i += 1
        # lower values
        i = 0
        while i < len(best) and time.time() < end:
            lo, hi = 0, best[i]
            while lo < hi and time.time() < end:
                mid = (lo + hi) // 2
                cand = best[:i] + [mid] + best[i + 1:]
                r = fails(cand)
                if r is not None and len(r) <= len(best):
                    if (len(r), r) < (len(best), best):
                        best = r
                        improved = True
                    if i >= len(best):
                        break
                    hi = min(mid, best[i])
                else:
                    lo = mid + 1
            i += 1
    return best


class Group:
    """One generator/oracle pair of a property."""

    def __init__(self, name, fn, weight=1):
        self.name = name
        self.fn = fn
        self.weight = weight


REFRESH = 60


def worker(prop, groups, make_env, seed, shard, deadline, max_cases, q, stop, heart, root, replay_dir):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(3000)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    cov = Coverage(root)
    cov.start()
    env = make_env(seed, shard)
    t = T(env)
    corpus = {g.name: [] for g in groups}
    stats = {'evaluations': 0, 'discarded': 0, 'known': {}, 'per_group': {g.name: 0 for g in groups}, 'corpus': 0, 'mutated': 0}
    total = sum(g.weight for g in groups)
    history = []
    n = 0
    rng0 = random.Random('{}/{}/{}/sched'.format(prop, seed, shard))
    failure = None
    while n < max_cases and time.time() < deadline and not stop.is_set():
        n += 1
        heart[0] = n
        heart[1] = time.time()
        if n % REFRESH == 1:
            env.refresh()
            history = []
        r = rng0.random() * total
        for g in groups:
            r -= g.weight
            if r < 0:
                break
        rng = random.Random('{}/{}/{}/{}'.format(prop, seed, shard, n))
        prefix = None
        pool = corpus[g.name]
        if pool and rng.random() < 0.25:
            prefix = list(rng.choice(pool))
            for _ in range(rng.randint(1, 4)):
                k = rng.random()
                if not prefix:
                    break
                i = rng.randrange(len(prefix))
                if k < 0.5:
                    prefix[i] = rng.choice([rng.randint(0, 3), rng.randint(0, 40), rng.randint(0, 10 ** 6), prefix[i] + 1, max(0, prefix[i] - 1)])
                elif k < 0.65:
                    prefix = prefix[:i]
                elif k < 0.8:
                    other = rng.choice(pool)
                    prefix = prefix[:i] + list(other[rng.randrange(len(other) + 1):]) if other else prefix
                else:
                    j = rng.randrange(len(prefix))
                    i, j = min(i, j), max(i, j)
                    prefix = prefix[:j] + prefix[i:]
            stats['mutated'] += 1
        cov.new = False
        src = Source(prefix=prefix, rng=rng)
        status, info = run_case(g.fn, src, t)
        history.append((g.name, src.choices))
        if status == 'discard':
            stats['discarded'] += 1
            continue
        stats['evaluations'] += 1
        stats['per_group'][g.name] += 1
        if status == 'known':
            stats['known'][info] = stats['known'].get(info, 0) + 1
            continue
        if status == 'ok':
            t.end()
            if cov.new and len(src.choices) < 2500:
                pool.append(src.choices)
                stats['corpus'] += 1
            continue
        # a failure: confirm on fresh calculators, shrink, else keep the whole history
        stop.set()
        text = t._text
        failure = {'property': prop, 'group': g.name, 'message': info, 'case': text if isinstance(text, str) else repr(text),
                   'seed': seed, 'shard': shard, 'n': n}
        if info.startswith('no answer'):
            env.refresh()
            s2 = Source(prefix=src.choices)
            st2, inf2 = run_case(g.fn, s2, t)
            failure['choices'] = src.choices
            failure['confirmed'] = st2 == 'fail'
            if st2 == 'ok':
                # only slow once (a loaded machine): not a failure
                stop.clear()
                failure = None
                continue
        else:
            small = shrink(g.fn, src.choices, t)
            if small is not None:
                env.refresh()
                s2 = Source(prefix=small)
                st2, inf2 = run_case(g.fn, s2, t)
                failure.update({'choices': small, 'message': inf2 or info, 'confirmed': True,
                                'case': t._text if isinstance(t._text, str) else repr(t._text)})
            else:
                failure.update({'choices': src.choices, 'confirmed': False,
                                'history': history})
        break
    q.put({'shard': shard, 'stats': stats, 'keys': t.keys, 'samples': t.samples, 'labels': t.labels,
           'lines': len(cov.lines), 'lineset': cov.lines if cov.ok else set(), 'failure': failure})


def explore(prop, groups, make_env, seed, budget_s, max_cases, jobs, root, replay_dir, stuck_ok=False):
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    stop = ctx.Event()
    start = time.time()
    deadline = start + budget_s
    procs = []
    hearts = []
    for shard in range(jobs):
        heart = ctx.Array('d', 2, lock=False)
        heart[1] = time.time()
        hearts.append(heart)
        p = ctx.Process(target=worker, args=(prop, groups, make_env, seed, shard, deadline, max_cases, q, stop, heart, root, replay_dir))
        p.daemon = True
        p.start()
        procs.append(p)
    results = {}
    failure = None
    crashed = []
    while len(results) + len(crashed) < jobs:
        try:
            r = q.get(timeout=1)
            results[r['shard']] = r
            continue
        except _queue.Empty:
            pass
        for shard, p in enumerate(procs):
            if shard in results or shard in crashed:
                continue
            if not p.is_alive():
                try:
                    r = q.get(timeout=2)
                    results[r['shard']] = r
                    continue
                except _queue.Empty:
                    pass
                crashed.append(shard)
                if failure is None:
                    failure = {'property': prop, 'group': None, 'message': 'the process running case {} of shard {} died (exit {})'.format(int(hearts[shard][0]), shard, p.exitcode),
                               'case': None, 'seed': seed, 'shard': shard, 'n': int(hearts[shard][0]), 'choices': None, 'confirmed': False}
                stop.set()
            elif time.time() - hearts[shard][1] > 150 and not stop.is_set():
                # stuck somewhere a signal cannot interrupt
                p.kill()
                crashed.append(shard)
                if stuck_ok:
                    continue
                if failure is None:
                    failure = {'property': prop, 'group': None, 'message': 'case {} of shard {} did not finish within 150 s'.format(int(hearts[shard][0]), shard),
                               'case': None, 'seed': seed, 'shard': shard, 'n': int(hearts[shard][0]), 'choices': None, 'confirmed': False}
                stop.set()
            elif time.time() - hearts[shard][1] > 240:
                p.kill()
                crashed.append(shard)
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    agg = {'evaluations': 0, 'discarded': 0, 'known': {}, 'per_group': {}, 'corpus': 0, 'mutated': 0}
    keys = set()
    samples = []
    labels = {}
    lines = set()
    for shard in sorted(results):
        r = results[shard]
        for k in ('evaluations', 'discarded', 'corpus', 'mutated'):
            agg[k] += r['stats'][k]
        for k, v in r['stats']['known'].items():
            agg['known'][k] = agg['known'].get(k, 0) + v
        for k, v in r['stats']['per_group'].items():
            agg['per_group'][k] = agg['per_group'].get(k, 0) + v
        keys |= r['keys']
        lines |= r['lineset']
        samples.extend(r['samples'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        if r['failure'] is not None and (failure is None or failure['choices'] is None or
                                         (r['failure'].get('choices') is not None and len(r['failure']['choices']) < len(failure['choices']))):
            failure = r['failure']
    agg['distinct_nontrivial'] = len(keys)
    agg['samples'] = samples
    agg['labels'] = labels
    agg['lines'] = len(lines)
    agg['wall_s'] = time.time() - start
    return agg, failure
