"""Reference table of the units, written from their published definitions
(SI brochure, international yard and pound agreement of 1959, UK Weights and
Measures Act, US NIST Handbook 44, IAU), not from the code under test.

A unit is (dimension vector, scale to SI base units, offset).  Base dimensions:
length m, mass kg, time s, current A, temp K, subst mol, lum cd, angle rad,
solid sr, data bit."""
from fractions import Fraction as F

TAU = F('6.283185307179586476925286766559005768394338798750211641949889184615632812572417997256069650684234136')

BASE = ['length', 'mass', 'time', 'current', 'temp', 'subst', 'lum', 'angle', 'solid', 'data']


def dim(**kw):
    return tuple(F(kw.get(b, 0)) for b in BASE)


ONE = dim()


def dmul(a, b, p=1):
    return tuple(x + y * p for x, y in zip(a, b))


class Unit:
    __slots__ = ('singular', 'plural', 'names', 'symbols', 'dim', 'scale', 'offset', 'tol', 'quantity', 'systems', 'prefix', 'stem', 'base')

    def __repr__(self):
        return self.singular

    @property
    def power1(self):
        return {self.singular: F(1)}


PREFIX = {'atto': ('a', F(1, 10 ** 18)), 'femto': ('f', F(1, 10 ** 15)), 'pico': ('p', F(1, 10 ** 12)), 'nano': ('n', F(1, 10 ** 9)), 'micro': ('\u00b5', F(1, 10 ** 6)),
          'milli': ('m', F(1, 1000)), 'centi': ('c', F(1, 100)), 'kilo': ('k', F(1000)), 'mega': ('M', F(10 ** 6)), 'giga': ('G', F(10 ** 9)), 'tera': ('T', F(10 ** 12)),
          'peta': ('P', F(10 ** 15)), 'exa': ('E', F(10 ** 18)), 'zetta': ('Z', F(10 ** 21)), 'yotta': ('Y', F(10 ** 24)),
          'kibi': ('ki', F(2 ** 10)), 'mebi': ('Mi', F(2 ** 20)), 'gibi': ('Gi', F(2 ** 30)), 'tebi': ('Ti', F(2 ** 40)), 'pebi': ('Pi', F(2 ** 50)), 'exbi': ('Ei', F(2 ** 60)),
          'zebi': ('Zi', F(2 ** 70)), 'yobi': ('Yi', F(2 ** 80))}
SMALL = ['atto', 'femto', 'pico', 'nano', 'micro', 'milli']
BIG = ['kilo', 'mega', 'giga', 'tera', 'peta', 'exa']
ALLP = SMALL + BIG
DATA = BIG + ['zetta', 'yotta', 'kibi', 'mebi', 'gibi', 'tebi', 'pebi', 'exbi', 'zebi', 'yobi']

ALL = []
BY_NAME = {}
QUANTITIES = {}


def _add(quantity, names, symbols, d, scale, systems=(), prefixes=(), tol=0, offset=0, base=None):
    names = names.split('|')
    symbols = symbols.split('|') if symbols else []
    for pn in [None] + list(prefixes):
        u = Unit()
        ps, pv = PREFIX[pn] if pn else ('', F(1))
        pf = pn or ''
        u.names = [pf + n for n in names]
        u.plural, u.singular = u.names[0], u.names[1]
        u.symbols = [ps + s for s in symbols]
        u.dim = d
        u.scale = F(scale) * pv
        u.offset = F(offset)
        u.tol = F(tol)
        u.quantity = quantity
        u.systems = tuple(systems)
        if quantity == 'data' and pn:
            # decimal prefixes belong to the SI, binary ones to the IEC
            u.systems = ('iec',) if pv.numerator % 10 else ('si',)
        u.prefix = pn
        u.stem = names[0]
        u.base = base
        ALL.append(u)
        assert u.singular not in BY_NAME, u.singular
        BY_NAME[u.singular] = u
        QUANTITIES.setdefault(quantity, []).append(u)


L, M, T, A, K, MOL, CD, RAD, SR, BIT = (dim(**{b: 1}) for b in BASE)


def D(**kw):
    return dim(**kw)


C = F(299792458)
INCH = F('0.0254')
DAY = 86400
IN3 = INCH ** 3
USGAL = 231 * IN3
UKGAL = F('0.00454609')
LB = F('0.45359237')
SI, ASU, US, UK = 'si', 'asu', 'us', 'uk'

_add('distance', 'meters|meter|metres|metre', 'm', L, 1, [SI], SMALL + ['centi', 'kilo'])
_add('distance', 'lightyears|lightyear', '', L, C * DAY * F('365.25'), [ASU])
_add('distance', 'lightweeks|lightweek', '', L, C * DAY * 7, [ASU])
_add('distance', 'lightdays|lightday', '', L, C * DAY, [ASU])
_add('distance', 'lighthours|lighthour', '', L, C * 3600, [ASU])
_add('distance', 'lightminutes|lightminute', '', L, C * 60, [ASU])
_add('distance', 'lightseconds|lightsecond', '', L, C, [ASU])
_add('distance', 'astronomical units|astronomical unit', 'au', L, 149597870700, [ASU])
# 648000/pi au; 3.0856775814913673e16 m
_add('distance', 'parsecs|parsec', 'pc', L, F('30856775814913673'), [ASU], BIG, tol=F(1, 10 ** 9))
_add('distance', 'inches|inch', 'in', L, INCH, [US, UK])
_add('distance', 'feet|foot', 'ft', L, INCH * 12, [US, UK])
_add('distance', 'yards|yard', 'yd', L, INCH * 36, [US, UK])
_add('distance', 'miles|mile', 'mi', L, INCH * 36 * 1760, [US, UK])
_add('distance', 'nautical miles|nautical mile', 'nmi', L, 1852, ['nautical'])

_add('time', 'seconds|second', 's', T, 1, [SI, 'gregorian'], SMALL)
_add('time', 'minutes|minute', '', T, 60, ['gregorian'])
_add('time', 'hours|hour', 'h', T, 3600, ['gregorian'])
_add('time', 'days|day', '', T, DAY, ['gregorian'])
_add('time', 'weeks|week', '', T, DAY * 7, ['gregorian'])
# the mean Gregorian year has 365.2425 days
_add('time', 'months|month', '', T, DAY * F('365.2425') / 12, ['gregorian'])
_add('time', 'years|year', 'yr', T, DAY * F('365.2425'), ['gregorian'])

_add('mass', 'grams|gram', 'g', M, F(1, 1000), [SI], SMALL + ['kilo'])
_add('mass', 'tonnes|tonne', '', M, 1000, [SI], BIG)
_add('mass', 'grains|grain', 'gr', M, LB / 7000, [US, UK])
_add('mass', 'ounces|ounce', 'oz', M, LB / 16, [US, UK])
_add('mass', 'pounds|pound', 'lb', M, LB, [US, UK])
_add('mass', 'stone|stone', 'st', M, LB * 14, [UK])
_add('mass', 'short tons|short ton', '', M, LB * 2000, [US])
_add('mass', 'long tons|long ton', '', M, LB * 2240, [UK])

_add('temperature', 'kelvin|kelvin', 'K', K, 1, [SI], ALLP)
_add('temperature', 'Celsius|Celsius|deg C', '\u00b0C', K, 1, [SI], offset=F('273.15'))
_add('temperature', 'Fahrenheit|Fahrenheit|deg F', '\u00b0F', K, F(5, 9), [US, UK], offset=F('459.67') * F(5, 9))

_add('electriccurrent', 'amperes|ampere', 'A', A, 1, [SI], ALLP)
_add('substance', 'moles|mole', 'mol', MOL, 1, [SI], ALLP)
_add('luminousintensity', 'candelas|candela', 'cd', CD, 1, [SI], ALLP)
_add('angle', 'radians|radian', 'rad', RAD, 1, [SI])
_add('angle', 'degrees|degree', '\u00b0|deg', RAD, TAU / 360, [SI], tol=F(1, 10 ** 40))
_add('solidangle', 'steradians|steradian', 'sr', SR, 1, [SI])
_add('data', 'bits|bit', 'bit', BIT, 1, [SI, 'iec'], DATA)
_add('data', 'bytes|byte', 'B', BIT, 8, [SI, 'iec'], DATA)

_add('area', 'hectares|hectare', 'ha', D(length=2), 10000, [SI])
_add('area', 'acres|acre', 'ac', D(length=2), (INCH * 36) ** 2 * 4840, [US, UK])

_add('volume', 'liters|liter|litres|litre', 'l', D(length=3), F(1, 1000), [SI], SMALL + ['centi'])
_add('volume', 'UK fluid ounces|UK fluid ounce', '', D(length=3), UKGAL / 160, [UK])
_add('volume', 'UK gills|UK gill', '', D(length=3), UKGAL / 32, [UK])
_add('volume', 'UK pints|UK pint', '', D(length=3), UKGAL / 8, [UK])
_add('volume', 'UK quarts|UK quart', '', D(length=3), UKGAL / 4, [UK])
_add('volume', 'UK gallons|UK gallon', '', D(length=3), UKGAL, [UK])
_add('volume', 'US drams|US dram', '', D(length=3), USGAL / 1024, [US])
_add('volume', 'US fluid ounces|US fluid ounce', '', D(length=3), USGAL / 128, [US])
_add('volume', 'US gills|US gill', '', D(length=3), USGAL / 32, [US])
_add('volume', 'US cups|US cup', '', D(length=3), USGAL / 16, [US])
_add('volume', 'US pints|US pint', '', D(length=3), USGAL / 8, [US])
_add('volume', 'US quarts|US quart', '', D(length=3), USGAL / 4, [US])
_add('volume', 'US gallons|US gallon', '', D(length=3), USGAL, [US])

_add('velocity', 'knots|knot', 'kn|kt', D(length=1, time=-1), F(1852, 3600), ['nautical'])
_add('acceleration', 'gees|gee', '', D(length=1, time=-2), F('9.80665'))

_add('absorbeddose', 'grays|gray', 'Gy', D(length=2, time=-2), 1, [SI], ALLP)
_add('equivalentdose', 'sieverts|sievert', 'Sv', D(length=2, time=-2), 1, [SI], ALLP)
_add('capacitance', 'farads|farad', 'F', D(length=-2, current=2, mass=-1, time=4), 1, [SI], ALLP)
_add('catalyticactivity', 'katals|katal', 'kat', D(subst=1, time=-1), 1, [SI], ALLP)
_add('electricalconductance', 'siemens|siemens', 'S', D(length=-2, current=2, mass=-1, time=3), 1, [SI], ALLP)
_add('electricalpotential', 'volts|volt', 'V', D(length=2, current=-1, mass=1, time=-3), 1, [SI], ALLP)
_add('electriccharge', 'coulombs|coulomb', 'C', D(current=1, time=1), 1, [SI], ALLP)
_add('energy', 'joules|joule', 'J', D(length=2, mass=1, time=-2), 1, [SI], ALLP)
_add('force', 'newtons|newton', 'N', D(length=1, mass=1, time=-2), 1, [SI], ALLP)
_add('frequency', 'hertz|hertz', 'Hz', D(time=-1), 1, [SI], ALLP)
_add('illuminance', 'lux|lux', 'lx', D(length=-2, lum=1, solid=1), 1, [SI], ALLP)
_add('inductance', 'henries|henry', 'H', D(length=2, current=-2, mass=1, time=-2), 1, [SI], ALLP)
_add('luminousflux', 'lumens|lumen', 'lm', D(lum=1, solid=1), 1, [SI], ALLP)
_add('magneticflux', 'webers|weber', 'Wb', D(length=2, current=-1, mass=1, time=-2), 1, [SI], ALLP)
_add('magneticfluxdensity', 'teslas|tesla', 'T', D(current=-1, mass=1, time=-2), 1, [SI], ALLP)
_add('power', 'watts|watt', 'W', D(length=2, mass=1, time=-3), 1, [SI], ALLP)
_add('pressure', 'pascals|pascal', 'Pa', D(length=-1, mass=1, time=-2), 1, [SI], ALLP)
_add('pressure', 'atmospheres|atmosphere', 'atm', D(length=-1, mass=1, time=-2), 101325)
_add('pressure', 'pound-force per square inch|pound-force per square inch', 'psi', D(length=-1, mass=1, time=-2), LB * F('9.80665') / INCH ** 2, [US, UK], tol=F(1, 10 ** 7))
_add('radioactivity', 'becquerels|becquerel', 'Bq', D(time=-1), 1, [SI], ALLP)
_add('resistance', 'ohms|ohm', '\u03a9', D(length=2, current=-2, mass=1, time=-3), 1, [SI], ALLP)

# Words shared by two units mean that of the preferred system (US before UK).
AMBIGUOUS = [
    (['tons', 'ton'], [], 'short ton', {'us': 'short ton', 'uk': 'long ton'}),
    (['fluid ounces', 'fluid ounce'], ['floz', 'fl.oz'], 'US fluid ounce', {'us': 'US fluid ounce', 'uk': 'UK fluid ounce'}),
    (['pints', 'pint'], ['pt'], 'US pint', {'us': 'US pint', 'uk': 'UK pint'}),
    (['quarts', 'quart'], [], 'US quart', {'us': 'US quart', 'uk': 'UK quart'}),
    (['gallons', 'gallon'], ['gal'], 'US gallon', {'us': 'US gallon', 'uk': 'UK gallon'}),
]

# name: (value, size, dimension, tolerance); CODATA
CONSTANTS = {
    'G': (F('6.6743') / 10 ** 11, D(length=3, mass=-1, time=-2), F(1, 10 ** 4)),
    'earthgravity': (F('9.80665'), D(length=1, time=-2), F(0)),
    'speedoflight': (C, D(length=1, time=-1), F(0)),
    'Planck': (F('6.62607015') / 10 ** 34, D(length=2, mass=1, time=-1), F(0)),
}

# the operator "as" is also the symbol of attoseconds, and wins
WORD_OPS = {'as', 'to', 'and', 'or', 'not', 'xor', 'then', 'else'}

PLAIN = [u for u in ALL if not u.offset]
EXACT = [u for u in PLAIN if not u.tol]
BASES = ['distance', 'time', 'mass', 'temperature', 'electriccurrent', 'substance', 'luminousintensity', 'angle', 'solidangle', 'data']
DERIVED = [q for q in QUANTITIES if q not in BASES]
BY_DIM = {}
for _u in ALL:
    BY_DIM.setdefault(_u.dim, []).append(_u)


class Compound:
    """A product of unit powers, with its text."""

    def __init__(self, parts):
        self.parts = list(parts)        # [(Unit, int power)]

    @property
    def dim(self):
        d = ONE
        for u, p in self.parts:
            d = dmul(d, u.dim, p)
        return d

    @property
    def scale(self):
        v = F(1)
        for u, p in self.parts:
            v *= u.scale ** p
        return v

    @property
    def tol(self):
        return sum((u.tol * abs(p) for u, p in self.parts), F(0))

    @property
    def powers(self):
        out = {}
        for u, p in self.parts:
            out[u.singular] = out.get(u.singular, F(0)) + p
            if out[u.singular] == 0:
                del out[u.singular]
        return out

    @property
    def cost(self):
        from .gen import cost
        return sum(abs(p) * (cost(u.scale) if not u.tol else 60) for u, p in self.parts)


def of_powers(powers):
    """Size and dimension of a result's unit ({singular: power}); None if unknown."""
    v, d, tol = F(1), ONE, F(0)
    for n, p in powers.items():
        u = BY_NAME.get(n)
        if u is None:
            return None
        if p.denominator != 1:
            return None
        v *= u.scale ** int(p)
        d = dmul(d, u.dim, p)
        tol += u.tol * abs(p)
    return v, d, tol


def word(s, u, plural=None, symbols=True):
    """One of the ways of writing a unit."""
    syms = [x for x in u.symbols if x not in WORD_OPS]
    if symbols and syms and s.bool(1, 3):
        return s.pick(syms)
    n = s.pick(u.names)
    if s.bool(1, 8):
        n = s.pick([n.upper(), n.lower(), n.title()])
    return n


def compound_text(s, parts, symbols=True, allow_div=True):
    """Text of a compound unit: a b^2/c, a/(b c^2), a b^-1 ..."""
    pos = [(u, p) for u, p in parts if p > 0]
    neg = [(u, p) for u, p in parts if p < 0]

    def w(u, p):
        t = word(s, u, symbols=symbols)
        if p == 1 and not s.bool(1, 12):
            return t
        sp = s.pick(['', '', ' '])
        return t + sp + '^' + sp + str(p)
    if not pos or not neg or not allow_div or s.bool(1, 5):
        return ' '.join(w(u, p) for u, p in s.shuffle(list(parts)))
    out = ' '.join(w(u, p) for u, p in pos)
    sl = s.pick(['/', '/', ' / '])
    if len(neg) == 1:
        return out + sl + w(neg[0][0], -neg[0][1])
    if s.bool():
        return out + sl + '(' + ' '.join(w(u, -p) for u, p in neg) + ')'
    return out + ''.join(sl + w(u, -p) for u, p in neg)


_MEMO = {}


def pick_unit(s, pool=None):
    """Quantity first, so that every dimension is equally likely."""
    pool = pool or 'exact'
    if pool not in _MEMO:
        us = {'exact': EXACT, 'plain': PLAIN, 'all': ALL, 'difference': [u for u in ALL if not u.tol]}[pool]
        qs = {}
        for u in us:
            qs.setdefault(u.quantity, []).append(u)
        _MEMO[pool] = [q for _, q in sorted(qs.items(), key=lambda kv: (kv[0] not in BASES, kv[0]))]
    qs = _MEMO[pool]
    q = s.pick(qs[:8]) if s.bool() else s.pick(qs)
    return s.pick(q)


def same_dim(s, u, pool=None):
    """Another unit with the dimension of u."""
    us = [x for x in BY_DIM[u.dim] if not x.offset and (not x.tol or pool == 'plain')]
    return s.pick(us)


def selfcheck():
    assert BY_NAME['mile'].scale == F('1609.344') and BY_NAME['US gallon'].scale == F('0.003785411784')
    assert BY_NAME['acre'].scale == F('4046.8564224') and BY_NAME['UK pint'].scale == F('0.00056826125')
    assert BY_NAME['Fahrenheit'].offset + 212 * BY_NAME['Fahrenheit'].scale == F('373.15')
    assert len(ALL) > 400
