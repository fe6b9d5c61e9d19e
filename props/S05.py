"""Calculators do not depend on each other, or on the thread they are used in."""
import sys
import threading
import time
from decimal import getcontext

from vlib import fuzz, script, sut
from vlib.pbt import Discard
from vlib.sut import check, Err, ModularCalculator, Number

RULE = ('two to four calculators, each with its own features, settings (size, places, rounding, unit simplification and its parameters, preferred unit systems, symbols, date format) and history of 1 to 5 programs; used one statement or program after the other in a random order, '
        'in the main thread, in a thread each, in a new thread each time, or all at the same time (a history each, or short programs over and over), with results shown at once or at the end in any thread; oracle: the same history on the calculator alone. '
        'Non-trivial: at least two calculators with different settings, or another thread, calculate a result.')
ASSUMPTIONS = ['a calculator is used by one thread at a time']

ROUNDINGS = ['ROUND_HALF_UP', 'ROUND_HALF_EVEN', 'ROUND_DOWN', 'ROUND_UP', 'ROUND_FLOOR', 'ROUND_CEILING', 'ROUND_HALF_DOWN', 'ROUND_05UP']
LINES = ['1/3', '2/3', '-2/3', '1/7 + 1/9', '123456789012345678901234567890123456789 + 1', '0.1 + 0.2', 'round(2/3, 5)', 'round(2.5)', 'round(-0.125, 2)', 'sqrt(2)', '2 ^ 0.5', 'exp(2)', 'log(3)', '1/3 m to km', '5/9 km to m', 'pi', 'pi * 10 ^ 20',
         '(1/3) as percentage', '(2/7) as scientific', '(2/3) as hexadecimal', "'x' +$ (2/3)", 'a = 1/3', 'a * 3', 'a', 'sum([1/3, 2/3, 1/7])', 'mean([1, 2, 4])', 'stdev([1, 2, 4])', '98765432109876543210987654321 * 12345678901234567890', '[1/3, 1/6] * 7',
         '1/3 feet to inches', '100 kelvin to fahrenheit', 'compact(123456.789 m)', 'format(1234567.891 seconds)', 'sin(1)', 'f = {PARAM1 / 7}', '@f(3)', '10 ^ 40 / 3', 'fact(30)', '2 ^ 100', '0x1F / 3', '50% / 3', '1E30 / 7', 'floor(10 ^ 30 + 0.5)', 'abs(-1/3)']

# with the symbols of the calculator: scientific notation, arrays, comments
SYMLINES = ['1§e5 / 7', '3§e-2 * 2', '(1/3) as scientific', 'scientific(2/7, 3)', '§o1, 2§c * 3', '§o1..4§c / 3', 'sum(§o1, 2, 3§c)', '5 §k five', '12 + 1 §k 3', "'2§e3' + 1", "dateadd('2001-02-03', 1 day)", "'2001/02/03' -% (1 day)", "'03 Feb 2001' +% (36 hours)"]
PINTS = ['1 pint to ml', '3 gallons to litres', '1 fluid ounce + 1 ml', '2 tons to kg', '5 dram to grams', '1 quart to pints', '7 cups to ml', 'format(123.45 pints)', '1 hundredweight to kg']
SIMPLIFY = ['5 m * 2 km', '3 N * 2 m', '12 J / 3 s', '5 kg * 2 m / (1 s^2)', '123456 Pa * 1 m^2', '1 W * 1 hour', '1 V * 2 A']
SYSTEMS = ['si', 'us', 'uk', 'asu', 'nautical', 'iec', 'gregorian']


class Sub:
    """One calculator's part of a case."""

    def __init__(self, s):
        self.preset = s.pick(['Computing', 'Computing', 'Scientific', 'Advanced'])
        self.size = s.pick([100, 100, 60, 80, 150, 300]) if s.bool() else None
        self.places = s.pick([30, 0, 1, 2, 5, 10, 20, 40]) if s.bool(2, 3) else None
        self.rounding = s.pick(ROUNDINGS) if s.bool() else None
        self.simplify = s.bool(1, 4)
        self.symbols = None
        self.prefer = self.knobs = None
        lines = [LINES]
        if s.bool(1, 3):
            lines.append(SYMLINES)
            self.symbols = {'e': s.pick(['E', 'Q', 'P', 'QE', 'EQ']), 'o': s.pick(['[', '<:', '[[']), 'c': s.pick([']', ':>', ']]']), 'k': s.pick(['#', '//', '##']), 'd': s.pick([None, '%Y/%m/%d', '%d %b %Y'])}
        if s.bool(1, 4):
            lines.append(PINTS)
            self.prefer = s.shuffle(SYSTEMS)
        if self.simplify:
            lines.append(SIMPLIFY)
            if s.bool():
                self.knobs = (s.bool(), s.pick([1, 3, -2]), s.pick(['0.1', '10']))
        g = script.Gen(s, script.PRESETS[self.preset])
        self.progs = []
        for _ in range(s.int(1, 5)):
            k = s.draw(2)
            self.progs.append(self.symboled(s.pick(s.pick(lines))) if k else script.text(g.program(1, 2, 1)))
        # when the settings are made: before this program
        self.when = [s.int(0, len(self.progs) - 1) if s.bool(1, 3) else 0 for _ in range(4)]

    def symboled(self, line):
        for k in 'eock':
            line = line.replace('§' + k, {'e': 'E', 'o': '[', 'c': ']', 'k': '#'}[k] if self.symbols is None else self.symbols[k])
        return line

    def settings(self):
        return (self.size, self.places, self.rounding) + tuple(x for x in (self.symbols, self.prefer, self.knobs) if x is not None)

    def make(self):
        c = ModularCalculator(self.preset)
        o = c.feature_options
        if self.symbols is not None:
            for f, k, v in (('numerical.expnumbers', 'Symbol', 'e'), ('arrays.arrays', 'Open', 'o'), ('arrays.arrays', 'Close', 'c'), ('nonfunctional.comments', 'Symbol', 'k'), ('dates.dates', 'Date Format', 'd')):
                if f in o and self.symbols[v] is not None:
                    o[f][k] = self.symbols[v]
        n = c.unit_normaliser
        if n is not None:
            if self.prefer is not None:
                n.systems_preference[:] = [x for x in self.prefer if x in n.systems_preference]
            if self.knobs is not None:
                n.simplify_allow_prefixed_units = self.knobs[0]
                n.simplify_preferred_magnitude = self.knobs[1]
                n.simplify_penalise_below = Number(self.knobs[2])
        return c

    def setup(self, c, i):
        if self.size is not None and self.when[0] == i:
            c.number_size_set(self.size)
        if self.places is not None and self.when[1] == i:
            c.number_prec_set(self.places)
        if self.rounding is not None and self.when[2] == i:
            c.number_set_rounding(self.rounding)
        if self.simplify and self.when[3] == i and c.unit_normaliser is not None:
            c.unit_simplification_set(True)

    def calc(self, c, i):
        """The raw result of program i."""
        self.setup(c, i)
        return sut.run(c, self.progs[i])

    def show(self, c, i, r):
        if isinstance(r, Err):
            return ('error', r.exc.find_pos(self.progs[i]), None if ' object at 0x' in r.message else r.message, tuple(sut.snap_all(r.exc.response, c)))
        return ('fine', tuple(sut.snap_all(r, c)))


def alone(sub, late):
    c = sub.make()
    raw, out = [], []
    for i in range(len(sub.progs)):
        raw.append(sub.calc(c, i))
        if not late:
            out.append(sub.show(c, i, raw[-1]))
    if late:
        out = [sub.show(c, i, r) for i, r in enumerate(raw)]
    return out


class Thread:
    """Runs functions one at a time in a thread of its own."""

    def __init__(self):
        self.res = self.exc = None

    def call(self, fn):
        def run():
            try:
                self.res = fn()
            except BaseException as e:
                self.exc = e
        t = threading.Thread(target=run, daemon=True)
        t.start()
        t.join()
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e
        return self.res


def here(fn):
    return fn()


def there(fn):
    return Thread().call(fn)


def interleaved(s, t):
    """One after the other, in a random order and random threads."""
    subs = [Sub(s) for _ in range(s.int(1, 4))]
    late = s.bool(1, 3)
    how = s.pick(['main', 'threads', 'mixed'])
    if len(subs) == 1 and how == 'main':
        how = 'threads'
    t.show('{}: {}'.format(how, ' ||| '.join('{} {} {}'.format(x.preset, x.settings(), x.progs) for x in subs)))
    want = [alone(x, late) for x in subs]

    def run(fn):
        return {'main': here, 'threads': there, 'mixed': s.pick([here, there])}[how](fn)
    calcs = [run(x.make) for x in subs] if s.bool(2, 3) else [None] * len(subs)
    at = [0] * len(subs)
    raws, got = [[] for _ in subs], [[] for _ in subs]
    while True:
        todo = [k for k, x in enumerate(subs) if at[k] < len(x.progs)]
        if not todo:
            break
        k = s.pick(todo)
        x = subs[k]
        if calcs[k] is None:
            calcs[k] = run(x.make)
        c, i = calcs[k], at[k]
        raws[k].append(run(lambda: x.calc(c, i)))
        if not late:
            got[k].append(run(lambda: x.show(c, i, raws[k][i])))
        at[k] += 1
    if late:
        for k in s.shuffle(list(range(len(subs)))):
            got[k] = [run(lambda: subs[k].show(calcs[k], i, r)) for i, r in enumerate(raws[k])]
    compare(t, subs, want, got, how)


def compare(t, subs, want, got, how):
    if how != 'main' or len({repr(x.settings()) for x in subs}) > 1:
        if any(y[0] == 'fine' for w in want for y in w):
            t.nt()
    for x, w, g in zip(subs, want, got):
        for i in range(len(w)):
            check(g[i] == w[i], '{} (size, places, rounding {}) in company of {} [{}]: {} is {}; alone it is {}', x.progs[:i + 1], x.settings(), [(y.preset, y.settings()) for y in subs if y is not x], how, x.progs[i], g[i], w[i])
    t.label(how)


def parallel(s, t):
    """All at the same time."""
    subs = [Sub(s) for _ in range(s.int(2, 4))]
    late = s.bool(1, 3)
    t.show('parallel: {}'.format(' ||| '.join('{} {} {}'.format(x.preset, x.settings(), x.progs) for x in subs)))
    want = [alone(x, late) for x in subs]
    calcs = [x.make() for x in subs]
    got, errs = [[] for _ in subs], []
    start = threading.Barrier(len(subs))

    def work(k):
        try:
            x, c, raw = subs[k], calcs[k], []
            start.wait()
            for i in range(len(x.progs)):
                raw.append(x.calc(c, i))
                if not late:
                    got[k].append(x.show(c, i, raw[-1]))
            if late:
                got[k].extend(x.show(c, i, r) for i, r in enumerate(raw))
        except BaseException as e:
            errs.append(e)
            start.abort()
    before = sys.getswitchinterval()
    sys.setswitchinterval(s.pick([1e-6, 1e-5, 1e-4]))
    try:
        ths = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(subs))]
        for x in ths:
            x.start()
        for x in ths:
            x.join()
    finally:
        sys.setswitchinterval(before)
    if errs:
        raise errs[0]
    compare(t, subs, want, got, 'parallel')


def host(s, t):
    """The decimal context of the program around is neither needed nor changed by a calculation."""
    x = Sub(s)
    t.show('{} {} {}'.format(x.preset, x.settings(), x.progs))
    want = alone(x, False)
    c = x.make()
    ctx = getcontext()
    saved = (ctx.prec, ctx.rounding)
    try:
        got = []
        for i in range(len(x.progs)):
            x.setup(c, i)
            ctx.prec = s.pick([5, 9, 28, 50, 400])
            ctx.rounding = s.pick(ROUNDINGS)
            now = (ctx.prec, ctx.rounding)
            r = sut.run(c, x.progs[i])
            got.append(x.show(c, i, r))
            check((getcontext().prec, getcontext().rounding) == now, 'the decimal context of the program around is {} after {}, it was {}', (getcontext().prec, getcontext().rounding), x.progs[i], now)
    finally:
        ctx.prec, ctx.rounding = saved
    t.nt()
    for i in range(len(want)):
        check(got[i] == want[i], '{} {}: {} is {} when the program around has another decimal context, and {} otherwise', x.settings(), x.progs[:i + 1], x.progs[i], got[i], want[i])


# preset, size, places, rounding, symbols, preferred unit systems, simplification
POOL = [('Computing', 100, 30, 'ROUND_HALF_UP', 'E[]#', None, False), ('Computing', 60, 5, 'ROUND_DOWN', 'Q[]#', ['uk', 'si', 'us'], False), ('Computing', 150, 50, 'ROUND_HALF_EVEN', 'E<:>//', None, True),
        ('Scientific', 80, 10, 'ROUND_UP', 'PQ[]##', ['us', 'si'], True), ('Computing', 100, 0, 'ROUND_CEILING', 'Q<:>//', ['asu', 'us', 'si', 'uk'], False), ('Advanced', 100, 30, 'ROUND_HALF_UP', 'E[]#', None, False)]


class Racer:
    def __init__(self, row):
        preset, size, places, rounding, sym, prefer, simplify = row
        e = sym[:2] if sym[:2] == 'PQ' else sym[0]
        o, c, k = ('<:', ':>', '//') if '<' in sym else ('[', ']', '##' if '##' in sym else '#')
        x = self.sub = Sub.__new__(Sub)
        x.preset, x.prefer, x.knobs = preset, prefer, None
        x.symbols = {'e': e, 'o': o, 'c': c, 'k': k, 'd': {'Q': '%Y/%m/%d', 'P': '%d %b %Y'}.get(e[0])}
        self.calc = x.make()
        if preset == 'Advanced':
            x.symbols['e'] = 'E'
        self.calc.number_size_set(size)
        self.calc.number_prec_set(places)
        self.calc.number_set_rounding(rounding)
        if simplify:
            self.calc.unit_simplification_set(True)
        self.row = row

    def once(self, progs):
        """The results of the programs on new variables."""
        self.calc.vars = {}
        out = []
        for p in progs:
            r = sut.run(self.calc, p)
            out.append(('error', r.exc.find_pos(p), None if ' object at 0x' in r.message else r.message) if isinstance(r, Err) else ('fine', tuple(sut.snap_all(r, self.calc))))
        return out


def race(s, t):
    """The same short programs over and over, in several threads at the same time."""
    pool = t.env.cache.get('S05')
    if pool is None:
        pool = t.env.cache['S05'] = [Racer(row) for row in POOL]
    racers = s.shuffle(pool)[:s.int(2, 4)]
    progs = []
    same = s.bool()
    for x in racers:
        g = script.Gen(s, script.PRESETS[x.row[0]])
        lines = [LINES, SYMLINES, PINTS, SIMPLIFY]
        if same and progs:
            # the same lines in the symbols of each
            progs.append([x.sub.symboled(y) for y in raw])
            continue
        raw = [s.pick(s.pick(lines)) if s.bool(4, 5) else script.text(g.program(1, 2, 1)) for _ in range(s.int(1, 3))]
        progs.append([x.sub.symboled(y) for y in raw])
    rounds = s.pick([10, 20, 40])
    t.show('race, {} rounds: {}'.format(rounds, ' ||| '.join('{} {}'.format(x.row, p) for x, p in zip(racers, progs))))
    took = time.process_time()
    want = [x.once(p) for x, p in zip(racers, progs)]
    took = time.process_time() - took
    rounds = min(rounds, int(3 / max(took, 0.001)) + 1)
    errs, wrong = [], []
    start = threading.Barrier(len(racers))

    def work(k):
        try:
            start.wait()
            for _ in range(rounds):
                got = racers[k].once(progs[k])
                if got != want[k]:
                    wrong.append((k, got))
                if wrong:
                    break
        except BaseException as e:
            errs.append(e)
            start.abort()
    before = sys.getswitchinterval()
    sys.setswitchinterval(s.pick([1e-6, 1e-6, 1e-5, 1e-4]))
    try:
        ths = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(racers))]
        for x in ths:
            x.start()
        for x in ths:
            x.join()
    finally:
        sys.setswitchinterval(before)
    if errs:
        raise errs[0]
    t.nt()
    for k, got in wrong[:1]:
        for p, g, w in zip(progs[k], got, want[k]):
            check(g == w, '{} of {} is {} while other threads calculate with {}; alone it is {}', p, racers[k].row, g, [y.row for y in racers if y is not racers[k]], w)


REPLAY_TRIES = 40

GROUPS = [('interleaved', interleaved, 5), ('parallel', parallel, 2), ('race', race, 4), ('host', host, 1)]
