"""Array and statistics functions compute what they name."""
import math
from fractions import Fraction

from vlib import gen, prog, sut, units as U
from vlib.sut import check, Err, Number, frac, snap, unitpowers

RULE = ('arrays of 1 to 60 numbers (all notations, numeric strings, quotients, duplicates), quantities of one dimension in mixed units, and values of any type; every function '
        'vs a Fraction reference, given as array or as separate arguments or as several arrays; histories of array functions on variables vs a list model. Non-trivial: at '
        'least 3 elements, or 3 operations.')
ASSUMPTIONS = ['mean, median, mode and stdev to 80 significant digits of the largest element']


class El:
    __slots__ = ('text', 'val')

    def __init__(self, text, val):
        self.text = text
        self.val = val      # in SI base units


QUANT = ['length', 'time', 'mass', 'data', 'volume', 'area', 'velocity', 'energy', 'pressure', 'power', 'force']


def quantities():
    return {q: [u for u in us if not u.tol and not u.offset] for q, us in U.QUANTITIES.items() if len([u for u in us if not u.tol and not u.offset]) >= 2}


GOOD = quantities()


def number(s):
    k = s.draw(13)
    if k < 8:
        x, v = gen.num_lit(s, big=False)
        return x, v
    if k == 8:
        v = s.draw(300)
        return s.pick([hex, bin, oct])(v), Fraction(v)
    if k == 9:
        v = Fraction(s.draw(2000), 10)
        return prog.num_text(v) + '%', v / 100
    if k == 10:
        a, b = s.int(-30, 30), s.pick([3, 7, 9, 11])
        return '({} / {})'.format(a, b), Fraction(a, b)
    if k == 11:
        a, b = s.int(1, 99), s.int(-6, 9)
        return '{}E{}'.format(a, b), Fraction(a) * Fraction(10) ** b
    v = s.int(-5, 5)
    return str(v), Fraction(v)


def array(s, n, family=None):
    """(elements, units or None)"""
    family = family or s.weighted([(5, 'plain'), (4, 'quantity'), (1, 'strings')])
    out = []
    us = None
    if family == 'quantity':
        us = GOOD[s.pick(sorted(GOOD))]
        us = [s.pick(us) for _ in range(s.int(1, 3))]
    for _ in range(n):
        if out and s.bool(1, 4):
            e = s.pick(out)
            if s.bool(1, 4) and e.val:
                # a neighbour that is the same to a floating point number
                u = s.pick(us) if us else None
                v = e.val + s.pick([1, -1]) * Fraction(1, 10 ** s.int(8, 40)) * max(Fraction(1), abs(e.val))
                q = v / u.scale if u else v
                if max(gen.digits(q.numerator), gen.digits(q.denominator)) <= 55:
                    x = prog.num_text(q)
                    if Fraction(x) != q or s.bool():
                        x = '({} / {})'.format(q.numerator, q.denominator)
                    out.append(El('{} {}'.format(x, s.pick(u.names)) if u else x, v))
                    continue
            if us is None or s.bool():
                out.append(El(e.text, e.val))
                continue
            # the same quantity in another unit
            u = s.pick(us)
            v = e.val / u.scale
            x = '({} / {})'.format(v.numerator, v.denominator)
            out.append(El('{} {}'.format(x, s.pick(u.names)), e.val))
            continue
        x, v = number(s)
        if us:
            u = s.pick(us)
            x = '{} {}'.format(x, s.pick(u.names))
            v = v * u.scale
        elif family == 'strings' and s.bool() and not x.startswith('('):
            x = "'" + x + "'"
        out.append(El(x, v))
    return out, us


def within(els, us):
    """Can everything be computed exactly within 100 digits?"""
    scale = [u.scale for u in us] if us else [Fraction(1)]
    l = 1
    m = 0
    for sc in scale:
        l = 1
        for e in els:
            v = e.val / sc
            l = math.lcm(l, v.denominator)
            m = max(m, abs(v))
            if l > 10 ** 60:
                return False
        if gen.digits(math.ceil(m * l * len(els))) > 90:
            return False
    return True


def dims(value_unit):
    return {k: v for k, v in unitpowers(value_unit).items()}


def si(v, u):
    """The SI value of a result."""
    x = frac(v) if isinstance(v, Number) else None
    for name, p in unitpowers(u).items():
        x = x * U.BY_NAME[name].scale ** int(p)
    return x


def sqrt_frac(q, digits=100):
    k = 10 ** (2 * digits)
    # scale up so that the root has enough digits
    n = q.numerator * k * q.denominator
    return Fraction(math.isqrt(n), q.denominator * 10 ** digits)


def near(a, b, scale):
    return abs(a - b) <= scale * Fraction(1, 10 ** 80)


def call(s, f, els):
    xs = [e.text for e in els]
    if len(xs) > 1 and s.bool(1, 3):
        return '{}({})'.format(f, ', '.join(xs))
    return '{}([{}])'.format(f, ', '.join(xs))


def plain(r):
    v, u = r
    return frac(v) if isinstance(v, Number) else v, unitpowers(u)


def reference(f, vals):
    n = len(vals)
    if f == 'sum':
        return sum(vals)
    if f == 'mean':
        return sum(vals) / n
    if f == 'median':
        o = sorted(vals)
        return o[n // 2] if n % 2 else (o[n // 2 - 1] + o[n // 2]) / 2
    if f == 'mode':
        return max(vals, key=lambda v: vals.count(v))      # the first of the most frequent
    if f == 'stdev':
        m = sum(vals) / n
        return sqrt_frac(sum((v - m) ** 2 for v in vals) / (n - 1))
    if f == 'max':
        return max(vals)
    if f == 'min':
        return min(vals)


STATS = ['sum', 'mean', 'median', 'mode', 'stdev', 'max', 'min']


def statistics(s, t):
    n = s.weighted([(1, 1), (2, 2), (6, s.int(3, 8)), (2, s.int(9, 60))])
    els, us = array(s, n)
    if not within(els, us):
        return
    f = s.pick(STATS)
    text = call(s, f, els)
    t.show(text)
    t.label(f + (' of quantities' if us else ''))
    calc = t.env.calc()
    calc.vars = {}
    got = sut.last(calc, text)
    if f == 'stdev' and n == 1:
        check(isinstance(got, Err), '{} is {}', text, got)
        return
    check(not isinstance(got, Err), '{} fails: {}', text, got)
    vals = [e.val for e in els]
    want = reference(f, vals)
    if f in ('max', 'min'):
        # the element itself, with its unit (the notation is the first one in the array)
        first = [e for e in els if e.val == want][0]
        one = sut.last(calc, first.text)
        check(plain(got) == plain(one), '{} is {} instead of {}', text, plain(got), plain(one))
    else:
        check(isinstance(got[0], Number), '{} is {}', text, got)
        x = si(*got)
        if us:
            check(len(unitpowers(got[1])) == 1 and list(unitpowers(got[1]))[0] in [u.singular for u in us], '{} has the unit {}', text, got[1])
        else:
            check(got[1] is None, '{} has the unit {}', text, got[1])
        scale = max(abs(v) for v in vals)
        if f == 'sum':
            check(x == want, '{} is {} instead of {}', text, x, want)
        else:
            check(near(x, want, scale), '{} is {} instead of {}', text, x, want)
    if n >= 3:
        t.nt()


def orders(s, t):
    """sort, reverse, count, element, filter, concat on one array; several arrays at once."""
    n = s.weighted([(1, 1), (2, 2), (6, s.int(3, 8)), (2, s.int(9, 60))])
    f = s.pick(['sort', 'sort', 'reverse', 'count', 'element', 'filter', 'concat', 'rows', 'temps', 'mixed'])
    calc = t.env.calc()
    calc.vars = {}
    t.label(f)
    if f == 'temps':
        return temps(s, t, calc, n)
    els, us = array(s, n)
    if f in ('reverse', 'count', 'element', 'filter', 'concat') and s.bool():
        els = els + [El(s.pick(["'abc'", 'true', '[1, 2]', "''", '5 m', '3 seconds', '0x0F', 'false']), None) for _ in range(s.int(1, 3))]
        els = s.shuffle(els)
        n = len(els)
    if not within([e for e in els if e.val is not None], us):
        return
    if n >= 3:
        t.nt()
    if f == 'mixed':
        # different dimensions, or some without a unit
        bad = s.pick(['3 m', '3 kg', '4 seconds', '2 m/s', '7'])
        i = s.draw(n)
        xs = [e.text for e in els]
        xs.insert(i, bad)
        g = s.pick(STATS + ['sort'])
        text = '{}([{}])'.format(g, ', '.join(xs))
        d = sut.last(calc, bad)[1]
        a, b = sut.last(calc, els[0].text)[1], d
        if (a is None) == (b is None) and (a is None or same_dim(a, b)):
            return
        t.show(text)
        got = sut.last(calc, text)
        check(isinstance(got, Err), '{} is {}', text, got)
        return
    if f == 'rows':
        # several arrays: one call per position
        g = s.pick(STATS)
        rows = [array(s, n, 'plain')[0] if s.bool(3, 4) else None for _ in range(s.int(1, 3))]
        rows = [els if us is None else array(s, n, 'plain')[0]] + [r if r else [El(*number(s))] for r in rows]
        text = '{}({})'.format(g, ', '.join('[{}]'.format(', '.join(e.text for e in r)) if i == 0 or len(r) == n and n > 1 else r[0].text for i, r in enumerate(rows)))
        single = []
        for i in range(n):
            single.append('{}({})'.format(g, ', '.join(r[i].text if k == 0 or len(r) == n and n > 1 else r[0].text for k, r in enumerate(rows))))
        t.show(text)
        got = sut.last(calc, text)
        want = [sut.last(calc, x) for x in single]
        check(not isinstance(got, Err), '{} fails: {}', text, got)
        check([snap(v.value, v.unit, calc) for v in got[0]] == [snap(v, u, calc) for v, u in want], '{} is {} instead of {}', text, got, want)
        return
    lit = '[{}]'.format(', '.join(e.text for e in els))
    one = lambda e: snap(*sut.last(calc, e.text), calc)
    if f == 'sort':
        text = call(s, f, els)
        want = [one(e) for e in sorted(els, key=lambda e: e.val)]
    elif f == 'reverse':
        text = call(s, f, els) if not any(e.text.startswith('[') for e in els) else 'reverse({})'.format(lit)
        want = [one(e) for e in reversed(els)]
    elif f == 'count':
        text = call(s, f, els) if not any(e.text.startswith('[') for e in els) else 'count({})'.format(lit)
        want = len(els)
    elif f == 'element':
        i = s.weighted([(8, s.int(1, n)), (1, 0), (1, n + 1), (1, -1), (1, -n)])
        text = 'element({}, {})'.format(lit, i)
        want = one(els[i - 1]) if 1 <= i <= n else None
    elif f == 'filter':
        mask = [s.bool() for _ in els]
        text = 'filter({}, [{}])'.format(lit, ', '.join('true' if m else 'false' for m in mask))
        want = [one(e) for e, m in zip(els, mask) if m]
    else:
        more = array(s, s.int(1, 4))[0]
        text = 'concat({}, [{}])'.format(lit, ', '.join(e.text for e in more))
        want = [one(e) for e in els + more]
    t.show(text)
    got = sut.last(calc, text)
    if want is None:
        check(isinstance(got, Err), '{} is {}', text, got)
        return
    check(not isinstance(got, Err), '{} fails: {}', text, got)
    check(got[1] is None or f == 'element', '{} has the unit {}', text, got[1])
    if f == 'count':
        check(isinstance(got[0], Number) and frac(got[0]) == want, '{} is {} instead of {}', text, got, want)
    elif f == 'element':
        check(snap(*got, calc) == want, '{} is {} instead of {}', text, snap(*got, calc), want)
    else:
        res = [snap(v.value, v.unit, calc) for v in got[0]]
        check(res == want, '{} is {} instead of {}', text, res, want)


def same_dim(a, b):
    def d(u):
        out = U.ONE
        for name, p in unitpowers(u).items():
            out = U.dmul(out, U.BY_NAME[name].dim, p)
        return out
    return d(a) == d(b)


TEMPS = [('kelvin', Fraction(1), Fraction(0)), ('celsius', Fraction(1), Fraction('273.15')), ('fahrenheit', Fraction(5, 9), Fraction('459.67') * Fraction(5, 9))]


def temps(s, t, calc, n):
    els = []
    for _ in range(n):
        v = Fraction(s.int(-400, 6000), 10)
        name, k, o = s.pick(TEMPS)
        els.append(El('{} {}'.format(prog.num_text(v), name), v * k + o))
    f = s.pick(['sort', 'max', 'min'])
    text = call(s, f, els)
    t.show(text)
    got = sut.last(calc, text)
    check(not isinstance(got, Err), '{} fails: {}', text, got)
    one = lambda e: snap(*sut.last(calc, e.text), calc)
    if f == 'sort':
        want = [one(e) for e in sorted(els, key=lambda e: e.val)]
        res = [snap(v.value, v.unit, calc) for v in got[0]]
    else:
        best = (max if f == 'max' else min)(els, key=lambda e: e.val)
        want, res = plain(sut.last(calc, best.text)), plain(got)
    check(res == want, '{} is {} instead of {}', text, res, want)
    if n >= 3:
        t.nt()


# -- histories: nothing changes the arrays it is given ------------------------

def history(s, t):
    calc = t.env.calc()
    calc.vars = {}
    names = ['a1', 'b1', 'c1']
    model = {}
    lines = []
    k = s.int(2, 8)
    fam = s.pick(['plain', 'quantity'])
    us = None
    for name in names[:s.int(1, 3)]:
        els, u = array(s, s.int(1, 6), 'plain')
        if fam == 'quantity':
            els = [El('{} {}'.format(e.text, w), e.val * f) for e in els for w, f in [s.pick([('m', 1), ('km', 1000), ('cm', Fraction(1, 100)), ('feet', Fraction('0.3048'))])]]
        lines.append('{} = [{}]'.format(name, ', '.join(e.text for e in els)))
        model[name] = [(snap(*sut.last(calc, e.text), calc), e.val) for e in els]
    shown = '\n'.join(lines)
    r = sut.run(calc, shown)
    check(not isinstance(r, Err), '{} fails: {}', shown, r)
    for _ in range(k):
        x = s.pick(sorted(model))
        y = s.pick(sorted(model))
        op = s.pick(['sort', 'reverse', 'concat', 'max', 'min', 'sum', 'mean', 'median', 'mode', 'count', 'element', 'filter', 'copy', 'plus', 'nested'])
        want = None
        m = model[x]
        if op == 'sort':
            text, want = 'sort({})'.format(x), sorted(m, key=lambda e: e[1])
        elif op == 'reverse':
            text, want = 'reverse({})'.format(x), m[::-1]
        elif op == 'concat':
            text, want = 'concat({}, {})'.format(x, y), m + model[y]
        elif op == 'copy':
            text, want = s.pick([x, '({})'.format(x)]), m
        elif op == 'filter':
            lim = s.pick(m)[1]
            text, want = 'filter({}, {} >= {})'.format(x, x, '({}/{}){}'.format(lim.numerator, lim.denominator, ' m' if fam == 'quantity' else '')), [e for e in m if e[1] >= lim]
        elif op == 'nested':
            text, want = 'reverse(sort(concat({}, {})))'.format(x, y), sorted(m + model[y], key=lambda e: e[1])[::-1]
        elif op == 'element':
            text = 'element({}, {})'.format(x, s.int(1, len(m) if m else 1))
        elif op == 'plus':
            text = '{} + {}'.format(x, '1 m' if fam == 'quantity' else '1')
        else:
            text = '{}({})'.format(op, x)
        if want is not None and (len(want) > 40 or not within([El('', e[1]) for e in want], None)):
            continue
        target = s.pick(names) if want is not None and s.bool(2, 3) else None
        if target:
            text = '{} = {}'.format(target, text)
        shown += '\n' + text
        r = sut.last(calc, text)
        if isinstance(r, Err):
            check(not m and op in ('max', 'min', 'mean', 'median', 'mode', 'element', 'filter', 'sum'), '{} fails: {}', shown, r)
        elif want is not None:
            res = [snap(v.value, v.unit, calc) for v in r[0]]
            check(res == [w[0] for w in want], '{} gives {} instead of {}', shown, res, [w[0] for w in want])
            if target:
                model[target] = want
        now = {n: [snap(v.value, v.unit, calc) for v in val[0]] for n, val in sut.vars_of(calc).items() if n in model}
        expect = {n: [w[0] for w in want_] for n, want_ in model.items()}
        check(now == expect, 'after {} the variables are {} instead of {}', shown, now, expect)
    t.show(shown)
    if k >= 3:
        t.nt()


GROUPS = [('statistics', statistics, 4), ('orders', orders, 4), ('history', history, 3)]
