"""Unit conversions against published definitions."""
from fractions import Fraction

from vlib import gen, sut, units
from vlib.gen import cost
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard
from vlib.units import Compound

RULE = ('"x A to B" over all units, prefixes, names and symbols of every dimension, plain temperatures with their offset, compound units with powers '
        '-3 to 3 (including derived units against base units), chains of conversions, arrays, physical constants, and pairs of different '
        'dimensions; oracle is an independent table of published definitions with exact rationals. Non-trivial: source and target unit differ.')
ASSUMPTIONS = ['values and scales within 95 digits together', 'parsec to 9, pounds per square inch to 7, degrees to 40 significant digits, as these are irrational or rounded in their definition']


def number(s):
    k = s.draw(9)
    if k < 5:
        return gen.num_lit(s, big=False)
    if k < 8:
        return gen.num_lit(s)
    v = s.pick(['1', '0', '-1', '100', '-40', '0.001', '1000000', '273.15', '-273.15', '-459.67', '32', '212'])
    return v, Fraction(v)


def near(t, got, want, tol, what, *args):
    if tol == 0:
        check(got == want, what + ': got {}, want {}', *args, got, want)
    else:
        check(abs(got - want) <= abs(want) * tol, what + ': got {}, want {} to {}', *args, float(got), float(want), float(tol))


def value_of(calc, e, t):
    t.show(e)
    r = sut.last(calc, e)
    check(not isinstance(r, Err) and r is not None, '{} gave {}', e, r)
    check(isinstance(r[0], Number), '{} gave {}', e, r)
    return frac(r[0]), sut.unitpowers(r[1])


def c_single(s, t):
    calc = t.env.calc()
    xt, x = number(s)
    u = units.pick_unit(s, 'all')
    v = s.pick(units.BY_DIM[u.dim])
    e = '{} {} to {}'.format(xt, units.word(s, u), units.word(s, v))
    t.nt(u is not v)
    t.label(u.quantity)
    got, powers = value_of(calc, e, t)
    if u is v:
        want = x
    else:
        want = (x * u.scale + u.offset - v.offset) / v.scale
    near(t, got, want, (u.tol + v.tol) * 2 if u is not v and u.stem != v.stem else 0, '{}', e)
    check(powers == v.power1, '{} has unit {}', e, powers)


def expand(s, u, p, out):
    """u^p in base units, chosen at random."""
    for b, x in zip(units.BASE, u.dim):
        if x:
            d = units.dim(**{b: 1})
            cands = [c for c in units.BY_DIM[d] if not c.tol]
            out.append((s.pick(cands), int(x) * p))


def compound(s, n, maxpow=3, pool='exact'):
    parts = []
    seen = set()
    for _ in range(n):
        u = units.pick_unit(s, pool)
        if u.singular in seen:
            continue
        seen.add(u.singular)
        p = s.weighted([(5, 1), (3, -1), (2, 2), (2, -2), (1, 3), (1, -3)])
        parts.append((u, max(-maxpow, min(maxpow, p))))
    return Compound(parts)


def target(s, c):
    """Another compound unit of the same dimension."""
    parts = []
    for u, p in c.parts:
        if s.bool(1, 3) and u.quantity in units.DERIVED:
            expand(s, u, p, parts)
        elif s.bool(4, 5):
            parts.append((s.pick([x for x in units.BY_DIM[u.dim] if not x.tol]), p))
        else:
            parts.append((u, p))
    # a unit must appear once in a parsed compound for its powers to be predictable
    names = [u.singular for u, _ in parts]
    if len(set(names)) != len(names):
        raise Discard()
    return Compound(s.shuffle(parts) if s.bool() else parts)


def single_offset(c):
    return len(c.parts) == 1 and c.parts[0][1] == 1 and c.parts[0][0].offset


def c_compound(s, t):
    calc = t.env.calc()
    xt, x = number(s)
    a = compound(s, s.int(1, 4))
    b = target(s, a)
    if single_offset(a) or single_offset(b):
        raise Discard()
    if cost(x) + a.cost + b.cost > 90:
        raise Discard()
    e = '{} {} to {}'.format(xt, units.compound_text(s, a.parts), units.compound_text(s, b.parts))
    t.nt(a.powers != b.powers)
    t.label('parts{}'.format(len(a.parts)))
    got, powers = value_of(calc, e, t)
    near(t, got, x * a.scale / b.scale, 0, '{}', e)
    check(powers == b.powers, '{} has unit {}, want {}', e, powers, b.powers)


def c_path(s, t):
    """There and back, and by way of a third unit."""
    calc = t.env.calc()
    xt, x = number(s)
    if s.bool(1, 3):
        a = compound(s, s.int(1, 3), 2)
        b, c = target(s, a), target(s, a)
        if len(set(map(bool, map(single_offset, (a, b, c))))) > 1:
            raise Discard()
        if cost(x) + a.cost + b.cost + c.cost > 80:
            raise Discard()
    else:
        u = units.pick_unit(s, 'all')
        v, w = s.pick(units.BY_DIM[u.dim]), s.pick(units.BY_DIM[u.dim])
        a, b, c = (Compound([(z, 1)]) for z in (u, v, w))
    ta, tb, tc = (units.compound_text(s, z.parts) for z in (a, b, c))
    t.nt(len({tuple(sorted(z.powers.items())) for z in (a, b, c)}) > 1)
    got, powers = value_of(calc, '{} {} to {} to {}'.format(xt, ta, tb, ta), t)
    check(got == x and powers == a.powers, '{} {} to {} and back is {} {}', xt, ta, tb, got, powers)
    got, powers = value_of(calc, '(({} {} to {}) to {})'.format(xt, ta, tb, tc), t)
    direct, p2 = value_of(calc, '{} {} to {}'.format(xt, ta, tc), t)
    check(got == direct and powers == p2 == c.powers, '{} {} to {} is {} {}, by way of {} {} {}', xt, ta, tc, direct, p2, tb, got, powers)


def c_refuse(s, t):
    calc = t.env.calc()
    xt, x = number(s)
    a = compound(s, s.int(1, 3))
    b = compound(s, s.int(1, 3)) if s.bool() else Compound([(u, p * s.pick([1, -1, 2])) for u, p in a.parts])
    if a.dim == b.dim:
        raise Discard()
    e = '{} {} to {}'.format(xt, units.compound_text(s, a.parts), units.compound_text(s, b.parts))
    if s.bool(1, 8):
        e = '{} to {}'.format(xt, units.compound_text(s, a.parts))
    t.show(e)
    t.nt(True)
    r = sut.last(calc, e)
    check(isinstance(r, Err), '{} gave {}, but the dimensions differ', e, r)


def c_array(s, t):
    """All elements of an array are converted."""
    calc = t.env.calc()
    u = units.pick_unit(s, 'all')
    v = s.pick(units.BY_DIM[u.dim])
    xs = [(number(s), s.pick(units.BY_DIM[u.dim])) for _ in range(s.int(1, 4))]
    e = '[{}] to {}'.format(', '.join('{} {}'.format(n[0], units.word(s, w)) for n, w in xs), units.word(s, v))
    t.show(e)
    t.nt(any(w is not v for _, w in xs))
    r = sut.last(calc, e)
    check(not isinstance(r, Err) and r is not None and isinstance(r[0], list) and len(r[0]) == len(xs), '{} gave {}', e, r)
    for ((_, x), w), el in zip(xs, r[0]):
        check(isinstance(el.value, Number), '{} has element {}', e, el.value)
        want = x if w is v else (x * w.scale + w.offset - v.offset) / v.scale
        near(t, frac(el.value), want, (w.tol + v.tol) * 2 if w.stem != v.stem else 0, '{}', e)
        check(sut.unitpowers(el.unit) == v.power1, '{} has unit {}', e, sut.unitpowers(el.unit))


def c_constant(s, t):
    calc = t.env.calc()
    name = s.pick(sorted(units.CONSTANTS))
    size, d, tol = units.CONSTANTS[name]
    parts = []
    for b, x in zip(units.BASE, d):
        if x:
            parts.append((s.pick([c for c in units.BY_DIM[units.dim(**{b: 1})] if not c.tol]), int(x)))
    c = Compound(s.shuffle(parts))
    k = s.int(1, 1000)
    if c.cost > 60:
        raise Discard()
    e = '{} * {} to {}'.format(k, name, units.compound_text(s, c.parts))
    t.nt(True)
    got, powers = value_of(calc, e, t)
    near(t, got, k * size / c.scale, tol, '{}', e)
    check(powers == c.powers, '{} has unit {}', e, powers)


def c_every(s, t):
    """Every unit in turn against the base units of its dimension."""
    calc = t.env.calc()
    u = s.pick(units.ALL)
    parts = []
    for b, x in zip(units.BASE, u.dim):
        if x:
            n = {'length': 'meter', 'mass': 'kilogram', 'time': 'second', 'current': 'ampere', 'temp': 'kelvin', 'subst': 'mole', 'lum': 'candela', 'angle': 'radian', 'solid': 'steradian', 'data': 'bit'}[b]
            parts.append((units.BY_NAME[n], int(x)))
    c = Compound(parts)
    x = s.int(1, 1000)
    e = '{} {} to {}'.format(x, units.word(s, u), units.compound_text(s, c.parts))
    t.nt(len(parts) > 1 or parts[0][0] is not u)
    got, powers = value_of(calc, e, t)
    want = x * u.scale + u.offset
    near(t, got, want, u.tol, '{}', e)
    check(powers == c.powers, '{} has unit {}', e, powers)
    e = '{} {} to {}'.format(x, units.compound_text(s, c.parts), units.word(s, u))
    got, powers = value_of(calc, e, t)
    near(t, got, (x - u.offset) / u.scale, u.tol, '{}', e)
    check(powers == u.power1, '{} has unit {}', e, powers)


GROUPS = [('single', c_single, 6), ('every', c_every, 5), ('compound', c_compound, 6), ('path', c_path, 4), ('refuse', c_refuse, 3), ('array', c_array, 2), ('constant', c_constant, 1)]
