"""Arithmetic on quantities, against sizes in base units."""
from fractions import Fraction

from vlib import gen, sut, units
from vlib.gen import cost
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard
from vlib.units import Compound, ONE, dmul

RULE = ('expressions of + - * / ^ and comparisons over quantities with compound units (up to 4 parts, powers -3 to 3) and plain numbers, with unit '
        'simplification on and off, in one expression or through variables; oracle: exact size in base units and dimension vector of every '
        'node, from the independent unit table. Non-trivial: two or more quantities, or a unit with two or more parts.')
ASSUMPTIONS = ['exact when numbers and scales of the units together fit 70 digits, to 60 significant digits otherwise', 'plain Celsius and Fahrenheit only as parts of compound units, where they are differences']

SIMPLE = ['meter', 'second', 'kilogram', 'gram', 'kilometer', 'hour', 'minute', 'newton', 'joule', 'watt', 'kelvin', 'ampere', 'volt', 'mole', 'byte', 'bit', 'inch', 'mile', 'foot', 'pound', 'liter',
          'hertz', 'coulomb', 'pascal', 'ohm', 'centimeter', 'millisecond', 'kilowatt', 'yard', 'radian', 'candela', 'lux', 'lumen', 'hectare', 'acre', 'knot', 'gee', 'tonne', 'ounce', 'day', 'year', 'milliliter',
          'US gallon', 'UK pint', 'gray', 'sievert', 'becquerel', 'farad', 'tesla', 'weber', 'henry', 'siemens', 'katal', 'steradian', 'atmosphere']


class Q:
    """A node: text, size in base units, dimension, and bookkeeping."""

    def __init__(self, text, size, dim, cost, prec, n=1, parts=0, tol=0):
        self.text, self.size, self.dim, self.cost, self.prec, self.n, self.parts = text, size, dim, cost, prec, n, parts
        self.leaf = False
        self.combos = 1
        self.pows = {}


def calcs(t):
    off = t.env.cache.get('u02off')
    if off is None:
        off = t.env.fresh()
        off.unit_simplification_set(False)
        t.env.cache['u02off'] = off
    return {'on': t.env.calc(), 'off': off}


def unit(s, pool):
    if s.bool(2, 3):
        return units.BY_NAME[s.pick(SIMPLE)]
    return units.pick_unit(s, pool)


def compound(s, pool='exact', maxparts=4):
    parts = []
    seen = set()
    for _ in range(s.weighted([(6, 1), (4, 2), (3, 3), (1, 4)])):
        u = unit(s, pool)
        if u.singular in seen or len(parts) >= maxparts:
            continue
        if parts and s.bool(1, 4):
            # something of the dimension of a part we already have
            v = units.same_dim(s, s.pick(parts)[0])
            if v.singular not in seen:
                u = v
        seen.add(u.singular)
        p = s.weighted([(6, 1), (3, -1), (2, 2), (2, -2), (1, 3), (1, -3)])
        parts.append((u, p))
    return Compound(parts)


def number(s):
    if s.bool(3, 4):
        v = s.int(1, 40)
        if s.bool(1, 5):
            v = -v
        if s.bool(1, 4):
            f = Fraction(v, s.pick([2, 4, 5, 8, 10, 100]))
            return dec(f), f
        return str(v), Fraction(v)
    t, v = gen.num_lit(s, big=False)
    if v == 0 and s.bool(3, 4):
        return '7', Fraction(7)
    return t, v


def dec(f):
    from decimal import Decimal
    d = '{:f}'.format(Decimal(f.numerator) / Decimal(f.denominator))
    assert Fraction(d) == f
    return d


def leaf(s, pool='exact', maxparts=4):
    xt, x = number(s)
    c = compound(s, pool, maxparts)
    if pool == 'difference' and len(c.parts) == 1 and c.parts[0][0].offset and c.parts[0][1] == 1:
        raise Discard()
    if c.dim == ONE:
        raise Discard()
    return quantity(s, xt, x, c)


def quantity(s, xt, x, c):
    e = '{} {}'.format(xt, units.compound_text(s, c.parts))
    q = Q('(' + e + ')', x * c.scale, c.dim, cost(x) + 2 * c.cost, cost(x), 1, len(c.parts))
    q.leaf = True
    for u, p in c.parts:
        q.pows[u.singular] = q.pows.get(u.singular, 0) + abs(p)
    return q


def merged(a, b):
    out = dict(a.pows)
    for k, p in b.pows.items():
        out[k] = out.get(k, 0) + p
    return out


def weight(pows):
    # simplification considers all combinations of the powers of the parts
    w = 1
    for p in pows.values():
        w *= p + 1
    return w


def plain(s):
    xt, x = number(s)
    q = Q(xt, x, ONE, cost(x), cost(x), 0, 0)
    q.leaf = True
    return q


def like(s, q):
    """A quantity of the dimension of q, written in its own way."""
    if q.dim == ONE:
        if q.n:
            # a ratio of quantities may still carry a unit (meters/mile)
            raise Discard()
        return plain(s)
    parts = []
    d = list(q.dim)
    # take one derived unit out of it now and then
    for _ in range(2):
        if s.bool(1, 3):
            u = unit(s, 'exact')
            if all(abs(a - b) <= abs(a) for a, b in zip(d, u.dim)) and u.singular not in [p[0].singular for p in parts]:
                parts.append((u, 1))
                d = [a - b for a, b in zip(d, u.dim)]
    for b, x in zip(units.BASE, d):
        if x:
            if abs(x) > 6:
                raise Discard()
            cands = [c for c in units.BY_DIM[units.dim(**{b: 1})] if not c.tol and not c.offset]
            u = s.pick(cands)
            if u.singular in [p[0].singular for p in parts]:
                continue
            parts.append((u, int(x)))
    c = Compound(parts)
    if c.dim != q.dim:
        raise Discard()
    xt, x = number(s)
    return quantity(s, xt, x, c)


def tree(s, depth, ops, pool='exact'):
    if depth <= 0 or s.bool(1, 8):
        if s.bool(1, 7):
            return plain(s)
        return leaf(s, pool, 2 if depth < 0 else 4)
    op = s.pick(ops)
    a = tree(s, depth - 1, ops, pool)
    if op == '^':
        n = s.weighted([(5, 2), (2, 3), (3, -1), (2, -2), (1, 0), (1, 1)])
        if a.size == 0:
            raise Discard()
        if a.cost * max(1, abs(n)) > 160:
            raise Discard()
        q = Q('({}^{})'.format(a.text, n), a.size ** n, tuple(x * n for x in a.dim), a.cost * max(1, abs(n)), 0, a.n, a.parts)
        q.pows = {k: p * max(1, abs(n)) for k, p in a.pows.items()}
        if weight(q.pows) > 300:
            raise Discard()
        return q
    if op in '+-':
        b = like(s, a)
    else:
        b = tree(s, depth - 1, ops, pool)
    if op == '/' and b.size == 0:
        raise Discard()
    size = {'+': lambda: a.size + b.size, '-': lambda: a.size - b.size, '*': lambda: a.size * b.size, '/': lambda: a.size / b.size}[op]()
    dim = a.dim if op in '+-' else dmul(a.dim, b.dim, 1 if op == '*' else -1)
    if any(abs(x) > 9 for x in dim):
        raise Discard()
    text = '({} {} {})'.format(a.text, op, b.text)
    if a.leaf and b.leaf and s.bool(1, 4) and simple(a.text) and simple(b.text):
        text = '({} {} {})'.format(a.text[1:-1] if a.text[0] == '(' else a.text, op, b.text[1:-1] if b.text[0] == '(' else b.text)
    q = Q(text, size, dim, a.cost + b.cost, 0, a.n + b.n, max(a.parts, b.parts))
    q.pows = merged(a, b) if op in '*/' else dict(a.pows)
    if weight(q.pows) > 300:
        raise Discard()
    return q


def exact(q):
    # degrees, which have some 50 digits, can come and go when radians are simplified
    return q.cost <= 70 and 'radian' not in q.pows


def simple(text):
    return '(' not in text[1:] and '/' not in text and '^' not in text and 'per' not in text and '-' not in text[2:]


def check_value(t, calc, e, q, value, unit, is_exact):
    check(isinstance(value, Number), '{} gave {}', e, value)
    powers = sut.unitpowers(unit)
    known = units.of_powers(powers)
    check(known is not None, '{} has unit {}', e, powers)
    scale, d, tol = known
    check(d == q.dim, '{} has unit {} of another dimension', e, powers)
    got = frac(value) * scale
    if is_exact and not tol:
        check(got == q.size, '{} is {} {}: {} in base units, want {}', e, frac(value), powers, got, q.size)
    else:
        check(abs(got - q.size) <= abs(q.size) * (Fraction(1, 10 ** 60) + tol * 2), '{} is {} {}: {} in base units, want {}', e, frac(value), powers, float(got), float(q.size))


def c_tree(s, t, ops=('+', '-', '*', '/', '*', '/', '^'), pool='exact'):
    def make(s):
        q = tree(s, s.weighted([(5, 1), (4, 2), (1, 3)]), ops, pool)
        if q.cost > 200 or (q.size == 0 and '+' not in ops):
            raise Discard()
        return q
    q = retry(make, s, 3)
    e = q.text
    if e.startswith('(') and s.bool() and e.count('(') == 1:
        e = e[1:-1]
    t.show(e)
    t.nt(q.n >= 2 or q.parts >= 2)
    t.label('exact' if exact(q) else 'approx')
    for name, calc in calcs(t).items():
        r = sut.last(calc, e)
        check(not isinstance(r, Err) and r is not None, '{} (simplification {}) gave {}', e, name, r)
        check_value(t, calc, e + ' (simplification ' + name + ')', q, r[0], r[1], exact(q))


def c_product(s, t):
    c_tree(s, t, ('*', '/', '*', '/', '^'))


def c_difference(s, t):
    """Celsius and Fahrenheit inside compound units."""
    q = tree(s, s.int(1, 2), ('*', '/'), 'difference')
    if 'elsius' not in q.text.lower() and 'ahrenheit' not in q.text.lower() and 'deg ' not in q.text and '\u00b0' not in q.text:
        u = units.BY_NAME[s.pick(['Celsius', 'Fahrenheit'])]
        c = Compound([(u, s.pick([-1, 2, -2]))])
        b = quantity(s, '3', Fraction(3), c)
        q = Q('({} * {})'.format(q.text, b.text), q.size * b.size, dmul(q.dim, b.dim), q.cost + b.cost, 0, q.n + 1, q.parts)
    if q.cost > 200:
        raise Discard()
    t.show(q.text)
    t.nt(True)
    for name, calc in calcs(t).items():
        r = sut.last(calc, q.text)
        check(not isinstance(r, Err) and r is not None, '{} (simplification {}) gave {}', q.text, name, r)
        check_value(t, calc, q.text + ' (simplification ' + name + ')', q, r[0], r[1], exact(q))


def retry(make, s, n=12):
    """The first attempt that is within the bounds."""
    for _ in range(n):
        try:
            return make(s)
        except Discard:
            pass
    raise Discard()


def vars_of(s):
    a = tree(s, s.int(0, 1), ('*', '/', '+'))
    b = like(s, a)
    c = leaf(s, maxparts=2)
    k = plain(s)
    if b.size == 0 or c.size == 0 or k.size == 0:
        raise Discard()
    if a.cost + b.cost + c.cost * 2 + k.cost > 80 or 'radian' in {**a.pows, **b.pows, **c.pows}:
        raise Discard()
    return a, b, c, k


def c_vars(s, t):
    """The same through variables, and used more than once."""
    calc = t.env.fresh() if s.bool(1, 30) else calcs(t)['on']
    a, b, c, k = retry(vars_of, s)
    lines = ['a = ' + a.text, 'b = ' + b.text, 'c = ' + c.text, 'k = ' + k.text]
    finals = [('a + b', a.size + b.size, a.dim), ('(a - b) * k', (a.size - b.size) * k.size, a.dim), ('a * c / k', a.size * c.size / k.size, dmul(a.dim, c.dim)),
              ('a / b', a.size / b.size, ONE), ('a c / c', a.size, a.dim), ('b * k + a', b.size * k.size + a.size, a.dim), ('(a + b) / c', (a.size + b.size) / c.size, dmul(a.dim, c.dim, -1)),
              ('a', a.size, a.dim), ('c^2 / c', c.size, c.dim), ('a / c / c', a.size / c.size ** 2, dmul(a.dim, c.dim, -2))]
    picks = [s.pick(finals) for _ in range(3)]
    lines += [p[0] for p in picks]
    text = '\n'.join(lines)
    t.show(text)
    t.nt(True)
    r = sut.run(calc, text)
    check(not isinstance(r, Err), '{} gave {}', text, r)
    rs = sut.results(r)
    check(len(rs) == 7, '{} gave {} results', text, len(rs))
    for (e, size, d), res in zip(picks, rs[4:]):
        check_value(t, calc, text + ' -> ' + e, Q(e, size, d, 0, 0), res.value, res.unit, True)


def pair_of(s):
    a = tree(s, s.int(0, 1), ('*', '/', '+'))
    if a.dim == ONE:
        raise Discard()
    b = like(s, a)
    kind = s.draw(3)
    if kind:
        # (nearly) equal quantities
        m = b.size
        if m == 0 or a.size == 0:
            raise Discard()
        f = a.size / m
        eps = s.pick([Fraction(0), Fraction(0), Fraction(1, 10 ** s.int(1, 12)), Fraction(-1, 10 ** s.int(1, 12))])
        f += eps
        b = Q('({} * {} / {})'.format(b.text, f.numerator, f.denominator), m * f, b.dim, b.cost + cost(f), 0)
    if a.cost + b.cost > 90:
        raise Discard()
    return a, b


def c_compare(s, t):
    a, b = retry(pair_of, s)
    want = {'==': a.size == b.size, '!=': a.size != b.size, '<': a.size < b.size, '>': a.size > b.size, '<=': a.size <= b.size, '>=': a.size >= b.size}
    op = s.pick(list(want))
    e = '{} {} {}'.format(a.text, op, b.text)
    t.show(e)
    t.nt(True)
    t.label('equal' if a.size == b.size else 'different')
    for name, calc in calcs(t).items():
        r = sut.last(calc, e)
        check(not isinstance(r, Err) and r is not None and r[0] is want[op], '{} (simplification {}) gave {}, want {}', e, name, r, want[op])


def c_refuse(s, t):
    a = tree(s, s.int(0, 1), ('*', '/', '+'))
    b = tree(s, s.int(0, 1), ('*', '/', '+')) if s.bool(2, 3) else plain(s)
    if a.dim == b.dim:
        raise Discard()
    if s.bool():
        a, b = b, a
    e = '{} {} {}'.format(a.text, s.pick(['+', '-', '==', '!=', '<', '>', '<=', '>=']), b.text)
    t.show(e)
    t.nt(True)
    for name, calc in calcs(t).items():
        r = sut.last(calc, e)
        check(isinstance(r, Err), '{} (simplification {}) gave {}, but the dimensions differ', e, name, r)


def c_root(s, t):
    """A square root halves the powers of the units."""
    calc = calcs(t)[s.pick(['on', 'off'])]
    c = compound(s, maxparts=2)
    n = s.pick([2, 3])
    x = s.int(1, 30)
    if c.cost * n > 60:
        raise Discard()
    c2 = Compound([(u, p * n) for u, p in c.parts])
    e = '({} {})^{}'.format(x ** n, units.compound_text(s, c2.parts), '0.5' if n == 2 else '(1/3)')
    t.show(e)
    t.nt(True)
    r = sut.last(calc, e)
    check(not isinstance(r, Err) and r is not None and isinstance(r[0], Number), '{} gave {}', e, r)
    known = units.of_powers({k: Fraction(round(v)) if abs(v - round(v)) < Fraction(1, 10 ** 20) else v for k, v in sut.unitpowers(r[1]).items()})
    check(known is not None, '{} has unit {}', e, sut.unitpowers(r[1]))
    check(known[1] == c.dim, '{} has unit {}', e, sut.unitpowers(r[1]))
    got = frac(r[0]) * known[0]
    want = x * c.scale
    check(abs(got - want) <= abs(want) / 10 ** 30, '{} is {} {}, want {}', e, float(frac(r[0])), sut.unitpowers(r[1]), float(want))


GROUPS = [('tree', c_tree, 6), ('product', c_product, 6), ('vars', c_vars, 4), ('compare', c_compare, 4), ('refuse', c_refuse, 3), ('difference', c_difference, 2), ('root', c_root, 1)]
