"""Installing features is order-independent and closed under dependencies."""
from modularcalculator.features.feature import MetaFeature

from vlib import gen, script, sut
from vlib.pbt import Discard
from vlib.sut import check, Err, ModularCalculator, CalculatorException

RULE = ('random sets of features (a preset with some features left out or added, or a handful of any), installed in sorted order and in a random order, repeated, in one call or in several; '
        'programs of 1 to 5 statements over the whole language plus lines chosen to be sensitive to the order of units, operators and number types; presets against larger presets; '
        'unknown names at every place. Non-trivial: at least five features and a program with a result.')
ASSUMPTIONS = ['when features are installed by several calls, a feature another one declares to come after is installed no later than it']

PRESET_NAMES = ['Basic', 'Advanced', 'Scientific', 'Computing']

LINES = [
    '5 m + 3 km', '1 km / (2 hours) to miles/hour', '5 kg m/s^2', '10 N * 3 m', '3 kW * 2 hours', 'compact(123456 m)', 'format(1234567 seconds)', 'format(12345 inches)', '5 V * 2 A', '1000000 bytes to MB', '1 MiB to kB',
    'compact(0.00001 m)', '3 feet + 2 inches', '12 gallons to liters', '1 pint to ml', '5 km * 3 m', '3 m^2 * 2 m', '100 kelvin to celsius', '5 c', '2 au', '4 lb to kg', '1 ton to kg', '1 J/s', '9.8 m/s^2 * 10 s',
    '7 cm to micrometers', '3 lightyears to petameters', '5 mm^2 to inches^2', '90 degrees to radians', 'sin(90 degrees)', '2 Hz * 5 s', '1 day to femtoseconds', '5 m to km as hexadecimal',
    "'0x10' + 1", "'1E3' * 2", "'0b101' + '0o7'", "'50%' + 1", "'36zZ' + 1", "'12' + 3", '0x1F + 0b11', '0b11 + 0x1F', '1E3 + 50%', '50% + 1E3', '36zZ + 1', '0o17 * 2', '10% of 5', '1E3', '12E2', '0xE2', '3zE2', '0b1', '0z1',
    '2 + 3 * 4 ^ 2', '2 ^ 3 ^ 2', '7 \\ 2 % 3', '5 & 3 | 4 ^^ 1', '1 << 2 + 3', 'not true and false', '~5 & 7', '1 < 2 == true', 'true then 1 else 2', '5 == 5 then 3 + 4 else 1 to', "'a' +$ 'b' *$ 3", "'abc' =~ 'b'",
    "'a' <~ 'B' and 1 < 2", '-2 ^ 2', '5 -3', '5 - -3', 'a = 3\na += 2\na * a', 'x = [1..5]\nsum(x)', '[1..10 step 3]', '[5, 3, 1] * 2', 'sort([3, 1, 2])', "'2020-01-31' +% 1 month", "'2020-01-31' +% 3 days",
    "datedifference('2020-01-01', '2021-01-01', days)", 'f = {PARAM1 + 1}\n@f(3)', '5 # comment', 'pi * 2', 'e', 'pi', 'log(10)', 'hex(255)', 'base(10, 2)', 'max(1, 2, 3)', "upper('abc')", '16 as hexadecimal', '0x10 as decimal',
    '5 as binary', '1/3', '1 / 0', 'nosuch + 1', 'nosuch(2)', '5 nosuch', '(1 + 2) * 3', '2(3 + 4)', '3 pi', 'a = 5\nb = a * 2\n-b', 'delete(a)', "regexsplit('a1b2', '[0-9]')", "join(split('a,b', ','), '-')",
    'f = 3\n@f(1)', "f = 'nosuchfile'\n@f(1)", 'true', 'false xor true', "'text'", '[[1, 2], [3]]', '5 m == 500 cm', 'a ||= 4\na', '3 m to nosuch', '5 m/s to', 'now(', '{1}', '@x(1)', '5 si', '5 km to uk', 'format(5 m, us)',
    'g0', 'speedoflight', 'h', 'c', '5 week', 'gamma(5)', 'fact(5)', 'floor(2.5)', 'round(2.345, 2)', 'abs(-5)', "length('abc')", '5 mol', '3 cd', '2 ohms * 3 A', '1 F', '1 T', '1 Wb', '1 lx', '1 lm', '1 Bq', '1 Gy', '1 Sv', '1 kat',
]


class World:
    pass


_W = None


def world():
    """Names, declared dependencies and orderings of all features."""
    global _W
    if _W is None:
        c = ModularCalculator()
        w = World()
        w.features = c.feature_list
        w.names = sorted(c.feature_list)
        w.presets = {p: list(c.preset_list[p]) for p in c.preset_list}
        w.deps = {n: list(f.dependencies()) + (list(f.subfeatures()) if issubclass(f, MetaFeature) else []) for n, f in c.feature_list.items()}
        w.after = {n: list(f.after()) for n, f in c.feature_list.items()}
        _W = w
    return _W


def closure(w, names):
    out, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo += w.deps[n]
    return out


def feature_set(s, w):
    """(features asked for, what programs may use)"""
    k = s.draw(7)
    if k < 4:
        p = s.weighted([(1, 'Basic'), (1, 'Advanced'), (3, 'Scientific'), (4, 'Computing')])
        names = list(w.presets[p])
        for _ in range(s.pick([0, 0, 1, 2, 5])):
            names.pop(s.int(0, len(names) - 1))
            if len(names) == 1:
                break
        for _ in range(s.pick([0, 0, 1, 2, 5])):
            names.append(s.pick(w.names))
        return sorted(set(names)), script.PRESETS[p]
    base = list(w.presets['Basic']) + ['nonfunctional.space', 'structure.terminator', 'structure.innerexpressions', 'state.assignment', 'structure.functions']
    names = [n for n in base if s.bool(5, 6)]
    names += [s.pick(w.names) for _ in range(s.int(1, 14))]
    return sorted(set(names)), script.ALL


def program(s, have):
    k = s.draw(2)
    lines = []
    if k:
        lines.append(script.text(script.Gen(s, have).program(1, 3, 1)))
    if k != 1:
        lines += [s.pick(LINES) for _ in range(s.int(1, 4))]
    return lines


_WORDS = None


def words():
    """Every word of the language with everything installed."""
    global _WORDS
    if _WORDS is None:
        c = ModularCalculator()
        c.install_features(sorted(c.feature_list))
        us = c.unit_normaliser.list_units()
        _WORDS = {'unit': sorted({n for u in us for n in list(u.names()) + list(u.symbols())}), 'func': sorted(c.funcs), 'op': sorted(o for o in c.ops_list if not o.isupper()), 'constant': sorted(c.constants),
                  'type': sorted(c.number_types)}
    return _WORDS


VALUES = ['3', '2', '0x1F', '0b11', '1E3', '50%', '1.5', '5 m', '3 km', '2 s', "'abc'", "'12'", 'true', 'false', '[1, 2]', "'2020-01-31'", '-4', 'x', 'meters', 'pi', '0']


def word_line(s):
    """A short line around any word of the language."""
    w = words()
    k = s.weighted([(4, 'unit'), (3, 'func'), (4, 'op'), (1, 'constant'), (1, 'type')])
    x = s.pick(w[k])
    v = lambda: s.pick(VALUES)
    if k == 'unit':
        return s.pick(['5 {0}', '2 {0} * 3 s', '1 {0} + 1 {0}', '7 {0}^2']).format(x)
    if k == 'func':
        if x in ('exp', 'now', 'fact'):
            return x + '(3)'
        if x.startswith('sp_'):
            return '{}({})'.format(x, ', '.join(s.pick(['1', '2', '0.5']) for _ in range(s.int(1, 4))))
        return '{}({})'.format(x, ', '.join(v() for _ in range(s.int(0, 3))))
    if k == 'op':
        y = s.pick(w['op'])
        if '^' in (x, y) or '<<' in (x, y) or '*$' in (x, y):
            v = lambda: s.pick(['3', '2', '0b11', '1.5', '5 m', "'abc'", 'true'])
        line = '{} {} {} {} {}'.format(v(), x, v(), y, v())
        return 'x = 2\n' + line if 'x' in line else line
    if k == 'constant':
        return '2 {0}'.format(x)
    return '{} as {}'.format(v(), x)


def make(calls, skip=False):
    c = ModularCalculator()
    for names in calls:
        if skip:
            c.install_features(names, skipMissing=True)
        else:
            c.install_features(names if len(names) != 1 else names[0])
    return c


def outcome(calc, line):
    r = sut.run(calc, line)
    if isinstance(r, Err):
        resp = getattr(r.exc, 'response', None)
        return ('error', r.exc.find_pos(line), tuple(sut.snap_all(resp, calc)) if resp is not None else None, r.exc.message)
    return ('fine', tuple(sut.snap_all(r, calc)), tuple(x.expression for x in r.results))


def clean(o):
    """Messages may show an object's address."""
    return o[:3] if o[0] == 'error' else o


def order(s, t):
    """Any order, repeats and splitting into calls give the same calculator."""
    w = world()
    names, have = feature_set(s, w)
    want = closure(w, names)
    ref = make([names])
    check(set(ref.installed_features) == want, 'install_features({}) installs {} more and {} less than asked for', names, sorted(set(ref.installed_features) - want), sorted(want - set(ref.installed_features)))
    seq = s.shuffle(list(names))
    for _ in range(s.pick([0, 0, 1, 3])):
        seq.insert(s.int(0, len(seq)), s.pick(names))
    parts = s.pick([1, 1, 2, 3, max(len(seq), 1)])
    calls = [seq] if parts == 1 else split(s, w, seq, parts, want)
    t.show('install {}'.format(calls))
    other = make(calls)
    check(set(other.installed_features) == want, 'install {} installs {} more and {} less than asked for', calls, sorted(set(other.installed_features) - want), sorted(want - set(other.installed_features)))
    lines = program(s, have) + [word_line(s) for _ in range(s.pick([3, 6, 12]))]
    for line in lines:
        t.show('install {}\n{}'.format(calls, line))
        a, b = outcome(ref, line), outcome(other, line)
        if a[0] == 'fine' and len(want) >= 5:
            t.nt()
        check(clean(a) == clean(b), 'install {} : {} is {}; installed in sorted order: {}', calls, line, b, a)
        t.label(a[0])
    if not {'state.assignment', 'numerical.decimalnumbers'} <= want:
        return
    va, vb = sut.snap_vars(ref), sut.snap_vars(other)
    check(va == vb, 'install {} : {} leaves {}; installed in sorted order: {}', calls, lines, vb, va)


def split(s, w, seq, parts, want):
    """Several calls, with whatever others come after in no later one."""
    size = max(1, (len(seq) + parts - 1) // parts)
    calls = [seq[i:i + size] for i in range(0, len(seq), size)]
    done = set()
    for call in calls:
        changed = True
        while changed:
            changed = False
            have = done | closure(w, call)
            for n in sorted(have - done):
                for g in w.after[n]:
                    if g in want and g not in have:
                        call.append(g)
                        changed = True
                if changed:
                    break
        done |= closure(w, call)
    return calls


def presets(s, t):
    """What a preset accepts a larger one gives the same result for."""
    small = s.pick(PRESET_NAMES[:-1])
    big = s.pick(PRESET_NAMES[PRESET_NAMES.index(small) + 1:])
    a, b = t.env.calc(small), t.env.calc(big)
    a.vars, b.vars = {}, {}
    g = script.Gen(s, script.PRESETS[small])
    for _ in range(s.int(1, 3)):
        if small == 'Basic':
            line = g.stmt(0).text().replace(' ', '')
        else:
            line = script.text([g.stmt(1) for _ in range(s.int(1, 3))])
        x = outcome(a, line)
        t.show('{}: {}'.format(small, line))
        if x[0] != 'fine':
            return
        t.nt()
        y = outcome(b, line)
        check(x == y, '{} gives {} with {} and {} with {}', line, x, small, y, big)
    if small != 'Basic':
        va, vb = sut.snap_vars(a), sut.snap_vars(b)
        check(va == vb, 'the variables are {} with {} and {} with {}', va, small, vb, big)


def unknown(s, t):
    """Unknown features are refused or skipped; the calculator stays usable and as it was."""
    w = world()
    names, have = feature_set(s, w)
    first = [n for n in names if s.bool(1, 3)] if s.bool() else []
    c = make([first]) if first else ModularCalculator()
    installed = set(c.installed_features)
    bad = list(s.shuffle(list(names)))
    odd = s.pick(['nosuch', '', 'numerical', 'basicarithmetic', 'numerical.nosuch', 'Computing', 'numerical.basicarithmetic ', 'NUMERICAL.BASICARITHMETIC', 'units'])
    bad.insert(s.int(0, len(bad)), odd)
    if s.bool(1, 4):
        bad.insert(s.int(0, len(bad)), 'other.missing')
    t.show('{} installed; install_features({})'.format(first, bad))
    t.nt()
    if s.bool():
        try:
            c.install_features(bad if s.bool(5, 6) else odd)
        except CalculatorException as e:
            check(bool(e.message), 'no message')
        else:
            check(False, 'install_features({}) is not refused', bad)
        check(set(c.installed_features) == installed, 'the refused install_features({}) leaves {} installed besides {}', bad, sorted(set(c.installed_features) - installed), sorted(installed))
        rest = [n for n in names if s.bool()] or names
        if not order_ok(w, installed, rest):
            raise Discard()
        c.install_features(rest)
        ref = make(([first] if first else []) + [rest])
        want = closure(w, first + rest)
    else:
        if not order_ok(w, installed, names):
            raise Discard()
        c.install_features(bad, skipMissing=True)
        ref = make(([first] if first else []) + [names])
        want = closure(w, first + names)
    check(set(c.installed_features) == want, 'after install_features({}): {} more and {} less than asked for', bad, sorted(set(c.installed_features) - want), sorted(want - set(c.installed_features)))
    for line in program(s, have):
        t.show('{} installed; install_features({}); {}'.format(first, bad, line))
        a, b = outcome(ref, line), outcome(c, line)
        check(clean(a) == clean(b), 'after install_features({}): {} is {} instead of {}', bad, line, b, a)


def order_ok(w, installed, names):
    new = closure(w, names)
    return not any(g in new and g not in installed for n in installed for g in w.after[n])


def total(s, t):
    """Whatever is installed, a program gives a result or the calculator's own error."""
    w = world()
    k = s.draw(3)
    if k == 0:
        names, have = [s.pick(w.names) for _ in range(s.int(0, 4))], script.ALL
    else:
        names, have = feature_set(s, w)
    c = make([names]) if names else ModularCalculator()
    for line in program(s, have) + [s.pick(LINES), word_line(s), word_line(s)]:
        t.show('install {}\n{}'.format(names, line))
        t.nt()
        r = sut.run(c, line)
        if not isinstance(r, Err):
            for x in r.results:
                if x.has_result():
                    sut.snap(x.value, x.unit, c)


GROUPS = [('order', order, 5), ('presets', presets, 2), ('unknown', unknown, 2), ('total', total, 2)]
