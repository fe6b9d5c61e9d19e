"""format(), compact() and automatic simplification."""
import re
from fractions import Fraction

from props import U02
from vlib import gen, sut, units
from vlib.gen import cost
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard
from vlib.units import Compound

RULE = ('format(q) and format(q, system) of quantities of every unit and system, magnitudes 10^-15 to 10^20, and of compound units that have a simple '
        'form; compact() and automatic simplification of random compound quantities; oracle: parsed parts summed in base units with the '
        'independent unit table. Non-trivial: more than one part, a system given, or a compound unit.')
ASSUMPTIONS = ['to 60 significant digits where degrees or long scales are involved, otherwise exact up to the rounding of the last displayed part']

DISPLAY = Fraction(51, 100) / 10 ** 30
SYSTEMS = ['gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec']
BYTEXT = {}
for _u in units.ALL:
    for _n in (_u.singular, _u.plural):
        BYTEXT[_n] = _u
STEM = {}
# units that exist but that are no part of any formatted amount (rarely used ones)
RARE = {'weeks', 'lightweeks', 'US gills', 'UK gills', 'UK quarts'}
for _u in units.ALL:
    if _u.prefix is None:
        STEM[_u.stem] = _u


def amount(s):
    k = s.draw(9)
    if k < 4:
        return gen.num_lit(s, neg=False, big=False)
    if k < 6:
        v = s.int(1, 10 ** s.int(1, 18))
        return str(v), Fraction(v)
    if k < 8:
        p = s.int(1, 12)
        t = '{}.{}'.format(s.draw(10 ** s.int(1, 10)), str(s.draw(10 ** p - 1)).zfill(p))
        return t, Fraction(t)
    n = s.int(1, 15)
    t = '0.' + '0' * (n - 1) + str(s.int(1, 999))
    return t, Fraction(t)


def has_system(quantity, system):
    return [u for u in units.QUANTITIES[quantity] if system in u.systems]


def parts_of(text):
    out = []
    for p in text.split(', '):
        m = re.fullmatch(r'(-?[0-9]+(?:\.[0-9]+)?) (.+)', p)
        check(m is not None, 'part {} of {}', p, text)
        u = BYTEXT.get(m.group(2))
        check(u is not None, 'unit {} in {}', m.group(2), text)
        n = Fraction(m.group(1))
        if u.singular != u.plural:
            check((m.group(2) == u.singular) == (n == 1), 'part {} of {}', p, text)
        out.append((n, u, m.group(1)))
    return out


def judge(t, e, text, size, quantity, system, offset_unit=None):
    check(isinstance(text, str), '{} gave {}', e, text)
    parts = parts_of(text)
    total = Fraction(0)
    prev = None
    for i, (n, u, nt) in enumerate(parts):
        check(u.quantity == quantity, '{} gave {}: {} is no unit of {}', e, text, u, quantity)
        check(system in u.systems, '{} gave {}: {} is not of the {} system', e, text, u, system)
        total += n * u.scale + (u.offset if i == 0 else 0)
        check(n != 0 or i == len(parts) - 1, '{} gave {}', e, text)
        if prev is not None:
            check(n >= 0, '{} gave {}', e, text)
            base = STEM[prev.stem]
            check(n * u.scale <= base.scale if '.' in nt else n * u.scale < base.scale, '{} gave {}: {} {} is more than a {}', e, text, nt, u, base)
        if i < len(parts) - 1:
            whole = n * u.scale / STEM[u.stem].scale
            err = u.scale / STEM[u.stem].scale * DISPLAY if '.' in nt else 0
            check(abs(whole - round(whole)) <= err, '{} gave {}: {} {} is not a whole amount', e, text, nt, u)
        prev = u
    if size > 0 and quantity != 'temperature':
        for i, (n, u, nt) in enumerate(parts):
            larger = [v.scale for v in units.QUANTITIES[quantity] if v.prefix is None and system in v.systems and v.stem not in RARE and v.scale > STEM[u.stem].scale]
            if larger and not (i == len(parts) - 1 and n * u.scale == min(larger) and total != size):
                check(n * u.scale < min(larger), '{} gave {}: {} {} is not less than the next larger unit', e, text, nt, u)
    err = sum(u.scale * DISPLAY if '.' in nt or i == len(parts) - 1 else 0 for i, (n, u, nt) in enumerate(parts))
    tol = max([STEM[p[1].stem].tol for p in parts] + [0])
    check(abs(total - size) <= err + abs(size) * (tol + Fraction(1, 10 ** 60)), '{} gave {}: {} in base units, want {}', e, text, total, size)
    t.nt(len(parts) > 1)
    t.label('parts{}'.format(len(parts)))


def c_format(s, t):
    calc = t.env.calc()
    u = units.pick_unit(s, 'all') if s.bool(1, 3) else s.pick([x for x in units.ALL if x.quantity in ('time', 'distance', 'mass', 'volume', 'data', 'area', 'temperature', 'angle', 'pressure') and not (x.prefix and s.bool(0, 1))])
    xt, x = amount(s)
    neg = s.bool(1, 12)
    if neg:
        xt, x = '-' + xt, -x
    if cost(x) + cost(u.scale) > 60 and not u.tol:
        raise Discard()
    size = x * u.scale + u.offset
    k = s.draw(3)
    if k == 0:
        system = None
    else:
        system = s.pick([sy for sy in SYSTEMS if has_system(u.quantity, sy)] or SYSTEMS) if k < 3 else s.pick(SYSTEMS)
    e = 'format({} {}{})'.format(xt, units.word(s, u), '' if system is None else ', ' + (system if s.bool(4, 5) else "'" + system + "'"))
    t.show(e)
    t.nt(system is not None)
    r = sut.last(calc, e)
    if system is None:
        if not u.systems:
            check(isinstance(r, Err), '{} gave {}, but {} is of no system', e, r, u)
            return
        system = [sy for sy in SYSTEMS if sy in u.systems][0]
    avail = has_system(u.quantity, system)
    if not avail:
        check(isinstance(r, Err), '{} gave {}, but the system has no such unit', e, r)
        return
    check(not isinstance(r, Err) and r is not None and r[1] is None, '{} gave {}', e, r)
    if u.tol and u.prefix:
        size = x * STEM[u.stem].scale * units.PREFIX[u.prefix][1]
    if any(v.tol > Fraction(1, 10 ** 12) for v in [u] + avail):
        tolerant(t, e, r[0], size, system, u.quantity)
    else:
        judge(t, e, r[0], size, u.quantity, system)


def tolerant(t, e, text, size, system, quantity):
    """Units known to some digits only: the parts add up to those digits."""
    parts = parts_of(text)
    total = sum((n * u.scale for n, u, _ in parts), Fraction(0))
    for n, u, _ in parts:
        check(system in u.systems and u.quantity == quantity, '{} gave {}', e, text)
    for n, u, _ in parts[:-1]:
        whole = n * u.scale / STEM[u.stem].scale
        check(abs(whole - round(whole)) <= u.scale / STEM[u.stem].scale * DISPLAY, '{} gave {}: not a whole amount', e, text)
    tol = max([u.tol for u in units.QUANTITIES[quantity]] + [Fraction(1, 10 ** 9)])
    check(abs(total - size) <= abs(size) * tol * 3 + sum(u.scale * DISPLAY for _, u, _ in parts), '{} gave {}: {} in base units, want {}', e, text, float(total), float(size))


SIMPLE_FORMS = [('newton', [('newton', 1)], 'force'), ('joule', [('newton', 1), ('meter', 1)], 'energy'), ('watt', [('joule', 1), ('second', -1)], 'power'),
                ('coulomb', [('ampere', 1), ('second', 1)], 'electriccharge'), ('ohm', [('volt', 1), ('ampere', -1)], 'resistance'), ('volt', [('watt', 1), ('ampere', -1)], 'electricalpotential'),
                ('joule', [('watt', 1), ('hour', 1)], 'energy'), ('joule', [('kilowatt', 1), ('hour', 1)], 'energy'), ('lumen', [('candela', 1), ('steradian', 1)], 'luminousflux'),
                ('meter', [('kilometer', 1), ('hour', -1), ('second', 1)], 'distance'), ('katal', [('mole', 1), ('second', -1)], 'catalyticactivity')]


def c_format_compound(s, t):
    calc = t.env.calc()
    _, form, quantity = s.pick(SIMPLE_FORMS)
    parts = [(units.BY_NAME[n], p) for n, p in form]
    xt, x = amount(s)
    c = Compound(parts)
    e = 'format({} {})'.format(xt, units.compound_text(s, c.parts))
    t.show(e)
    t.nt(True)
    r = sut.last(calc, e)
    check(not isinstance(r, Err) and r is not None, '{} gave {}', e, r)
    check(isinstance(r[0], str), '{} gave {}', e, r)
    size = x * c.scale
    parts = parts_of(r[0])
    total = sum((n * u.scale for n, u, _ in parts), Fraction(0))
    for n, u, _ in parts:
        check(u.dim == c.dim, '{} gave {}', e, r[0])
    err = sum(u.scale * DISPLAY if '.' in nt or i == len(parts) - 1 else 0 for i, (n, u, nt) in enumerate(parts))
    check(abs(total - size) <= err + abs(size) / 10 ** 60, '{} gave {}: {} in base units, want {}', e, r[0], total, size)


def c_format_refuse(s, t):
    calc = t.env.calc()
    xt, x = amount(s)
    k = s.draw(2)
    if k == 0:
        e = 'format({})'.format(xt)
    elif k == 1:
        u = units.pick_unit(s)
        e = 'format({} {}^{})'.format(xt, units.word(s, u), s.pick([4, -4, 5]))
    else:
        u = units.pick_unit(s)
        e = 'format({} {}, {})'.format(xt, units.word(s, u), s.pick(['foo', "'metric'", "''", '5', "'SI'", "'Si '"]))
    t.show(e)
    t.nt(True)
    r = sut.last(calc, e)
    check(isinstance(r, Err), '{} gave {}', e, r)


def c_compact(s, t):
    calc = t.env.calc()
    q = U02.tree(s, s.weighted([(4, 0), (2, 1)]), ('*', '/'))
    if q.n == 0 or q.dim == units.ONE or q.size == 0 or q.cost > 70:
        raise Discard()
    off = U02.calcs(t)['off']
    e = 'compact({})'.format(q.text)
    t.show(e)
    t.nt(q.parts > 1)
    for name, c in (('on', calc), ('off', off)):
        r = sut.last(c, e)
        check(not isinstance(r, Err) and r is not None, '{} gave {}', e, r)
        U02.check_value(t, c, e, q, r[0], r[1], U02.exact(q))
        if r[1] is None:
            continue
        # once more is still the same quantity
        e2 = 'compact({})'.format(e)
        r2 = sut.last(c, e2)
        check(not isinstance(r2, Err) and r2 is not None, '{} gave {}', e2, r2)
        U02.check_value(t, c, e2, q, r2[0], r2[1], U02.exact(q))


def c_auto(s, t):
    """Automatic simplification: using a result again keeps the quantity, and reading it changes nothing."""
    calc = t.env.calc()
    q = U02.tree(s, s.weighted([(3, 0), (3, 1)]), ('*', '/', '^'))
    if q.n == 0 or q.size == 0 or q.cost > 60 or not U02.exact(q):
        raise Discard()
    e = 'x = 1 * {}\nx\ny = 1 * x\ny / 1\nx'.format(q.text)
    t.show(e)
    t.nt(q.parts > 1)
    r = sut.run(calc, e)
    check(not isinstance(r, Err), '{} gave {}', e, r)
    rs = sut.results(r)
    check(len(rs) == 5, '{} gave {} results', e, len(rs))
    for res in rs:
        U02.check_value(t, calc, e, q, res.value, res.unit, True)
    first = (frac(rs[0].value), sut.unitpowers(rs[0].unit))
    for i in (1, 4):
        check((frac(rs[i].value), sut.unitpowers(rs[i].unit)) == first, '{}: first {}, then {}', e, first, (frac(rs[i].value), sut.unitpowers(rs[i].unit)))


GROUPS = [('format', c_format, 8), ('formatcompound', c_format_compound, 2), ('refuse', c_format_refuse, 1), ('compact', c_compact, 4), ('auto', c_auto, 3)]
