"""Trigonometric, hyperbolic and special functions against the mathematical functions."""
import warnings
from decimal import Decimal, localcontext
from fractions import Fraction

import scipy.special

from vlib import sut
from vlib.pbt import Discard
from vlib.sut import check, Err

RULE = ('every function at decimal, fractional, negative, tiny and huge arguments, in radians, degrees or plain, and outside the domain; oracle: own 90-digit evaluation of the trigonometric and hyperbolic functions, '
        'scipy called directly for the special ones (by an own table of names, outputs and numbers of arguments), and mathematical identities written in the language. Non-trivial: the argument is not an integer of one digit.')
ASSUMPTIONS = ['agreement is up to one unit in the 15th digit of the argument or the result', 'special functions of complex value give the real part']

warnings.filterwarnings('ignore')

PREC = 90


def _pi():
    with localcontext() as c:
        c.prec = 700

        def arctan_inv(n):
            t = Decimal(1) / n
            total, k, n2 = t, 1, n * n
            while abs(t) > Decimal(10) ** -690:
                t = -t / n2
                k += 2
                total += t / k
            return total
        return 4 * (4 * arctan_inv(5) - arctan_inv(239))


PI = _pi()
with localcontext() as _c:
    _c.prec = 200
    TAU = 2 * PI
    E = Decimal(1).exp()


def _dec(x):
    return Decimal(x.numerator) / Decimal(x.denominator)


def _sincos(x):
    """Taylor series after taking off multiples of pi/2."""
    with localcontext() as c:
        c.prec = PREC + max(0, len(str(int(abs(x)))))
        d = _dec(x)
        half = PI / 2
        q = int((d / half).to_integral_value())
        r = d - q * half
        r2 = r * r
        s, t, k = r, r, 1
        while t and abs(t) > Decimal(10) ** -(PREC + 5):
            t = -t * r2 / ((k + 1) * (k + 2))
            k += 2
            s += t
        o, t, k = Decimal(1), Decimal(1), 0
        while t and abs(t) > Decimal(10) ** -(PREC + 5):
            t = -t * r2 / ((k + 1) * (k + 2))
            k += 2
            o += t
        return [(s, o), (o, -s), (-s, -o), (-o, s)][q % 4]


def sin(x):
    return _sincos(x)[0]


def cos(x):
    return _sincos(x)[1]


def tan(x):
    s, c = _sincos(x)
    if abs(c) < Decimal('1e-14'):
        raise Discard()
    return s / c


def _d(fn):
    def f(x):
        with localcontext() as c:
            c.prec = PREC + 40
            c.Emax, c.Emin = 10 ** 9, -10 ** 9
            return fn(_dec(x))
    return f


def _tiny(d):
    return abs(d) < Decimal(10) ** -30


@_d
def sinh(d):
    return d if _tiny(d) else (d.exp() - (-d).exp()) / 2


@_d
def cosh(d):
    return (d.exp() + (-d).exp()) / 2


@_d
def tanh(d):
    if _tiny(d):
        return d
    if abs(d) > 300:
        return Decimal(1).copy_sign(d)
    a, b = d.exp(), (-d).exp()
    return (a - b) / (a + b)


@_d
def asinh(d):
    if _tiny(d):
        return d
    a = abs(d)
    return (a + (a * a + 1).sqrt()).ln().copy_sign(d)


@_d
def acosh(d):
    return (d + (d * d - 1).sqrt()).ln()


@_d
def atanh(d):
    return d if _tiny(d) else ((1 + d) / (1 - d)).ln() / 2


def _atan(d):
    """Halving the angle, then the series."""
    if d < 0:
        return -_atan(-d)
    if d > 1:
        return +PI / 2 - _atan(1 / d)
    k = 0
    while d > Decimal('0.01'):
        d = d / (1 + (1 + d * d).sqrt())
        k += 1
    d2, t, s, n = d * d, d, d, 1
    while t and abs(t) > abs(d) * Decimal(10) ** -(PREC + 10):
        t = -t * d2
        n += 2
        s += t / n
    return s * 2 ** k


@_d
def atan(d):
    return _atan(d)


@_d
def asin(d):
    if abs(d) == 1:
        return (+PI / 2).copy_sign(d)
    return _atan(d / (1 - d * d).sqrt())


@_d
def acos(d):
    if d == 1:
        return Decimal(0)
    if d == -1:
        return +PI
    return +PI / 2 - _atan(d / (1 - d * d).sqrt())


# name: (function, lowest, highest argument, is an angle)
TRIG = {
    'sin': (sin, None, None, True), 'cos': (cos, None, None, True), 'tan': (tan, None, None, True),
    'asin': (asin, -1, 1, False), 'acos': (acos, -1, 1, False), 'atan': (atan, None, None, False),
    'sinh': (sinh, None, None, True), 'cosh': (cosh, None, None, True), 'tanh': (tanh, None, None, True),
    'asinh': (asinh, None, None, False), 'acosh': (acosh, 1, None, False), 'atanh': (atanh, -1, 1, False),
}
DELTA = Fraction(1, 2 ** 51)


def near(f, name, x, lo, hi):
    """(reference value, error allowed)"""
    v = f(x)
    d = abs(x) * DELTA
    tol = Decimal(0)
    for y in (x - d, x + d):
        if lo is not None and y < lo:
            y = Fraction(lo)
        if hi is not None and y > hi:
            y = Fraction(hi)
        if name == 'atanh' and abs(y) == 1:
            raise Discard()
        w = f(y)
        if name == 'tan' and (w > 0) != (v > 0) and abs(v) > 1:
            raise Discard()
        tol += abs(w - v)
    with localcontext() as c:
        c.prec = 40
        tol += abs(v) * _dec(DELTA) * 2
        if name in ('sin', 'cos', 'tan'):
            tol += _dec(d) * _dec(d)
        tol += Decimal('1e-300')
    if name == 'tan' and tol > abs(v) / 100 and abs(v) > 1:
        raise Discard()
    return v, tol


def arg(s, lo, hi):
    """(text, exact value) of an argument, mostly inside the range."""
    k = s.draw(9)
    if lo is not None and hi is not None:
        if k < 5:
            n, p = s.sint(-10 ** 6, 10 ** 6), 10 ** 6
            return show(n, p)
        if k == 5:
            return s.pick([('1', Fraction(1)), ('-1', Fraction(-1)), ('0', Fraction(0))])
        if k == 6:
            p = 10 ** s.int(7, 25)
            x = s.pick([1, -1]) * (p - s.int(1, 9))
            return show(x, p)
        if k == 7:
            p = 10 ** s.int(7, 60)
            return show(s.sint(-99, 99), p)
        a = s.int(1, 999)
        b = s.int(a, 2000)
        return '{} / {}'.format(a, b), Fraction(a, b)
    if lo is not None:
        if k < 6:
            n = s.int(0, 10 ** s.int(1, 8))
            return show(10 ** 4 * lo + n, 10 ** 4)
        if k == 6:
            p = 10 ** s.int(7, 25)
            return show(lo * p + s.int(0, 9), p)
        if k == 7:
            e = s.int(3, 250)
            return show(s.int(1, 99) * 10 ** e, 1)
        a = s.int(1, 999)
        b = s.int(1, a)
        return '{} / {}'.format(a, b), Fraction(a, b)
    if k < 5:
        n = s.sint(-10 ** 5, 10 ** 5)
        return show(n, 10 ** s.int(1, 5))
    if k == 5:
        return show(s.sint(-9, 9), 1)
    if k == 6:
        return show(s.sint(-9999, 9999), 10 ** s.int(7, 60))
    if k == 7:
        if s.bool(1, 3):
            return show(s.sint(-9999, 9999) * 10 ** s.int(9, 290), 1)
        return show(s.sint(-10 ** 12, 10 ** 12), 10 ** s.int(0, 3))
    a, b = s.sint(-999, 999), s.int(1, 999)
    return '{} / {}'.format(a, b), Fraction(a, b)


def show(n, p):
    x = Fraction(n, p)
    sign = '-' if n < 0 else ''
    n = abs(n)
    digits = len(str(p)) - 1
    text = str(n // p)
    if digits and n % p:
        text += '.' + str(n % p).rjust(digits, '0').rstrip('0')
    return sign + text, x


def pi_fraction():
    with localcontext() as c:
        c.prec = 150
        return Fraction(+PI)


PIF = pi_fraction()
UNITS = [('radians', Fraction(1)), ('radian', Fraction(1)), ('rad', Fraction(1)), ('degrees', PIF / 180), ('degree', PIF / 180), ('deg', PIF / 180), ('°', PIF / 180)]


def trig(s, t):
    name = s.pick(sorted(TRIG))
    f, lo, hi, angle = TRIG[name]
    text, x = arg(s, lo, hi)
    unit = None
    bad = False
    k = s.draw(11)
    if angle and k < 5:
        unit, scale = s.pick(UNITS)
        if '/' in text:
            text = '({})'.format(text)
        text += ' ' + unit
        x *= scale
        if s.bool(1, 5):
            text2, y = arg(s, lo, hi)
            unit2, scale2 = s.pick(UNITS)
            text += ' {} ({}) {}'.format(s.pick(['+']), text2, unit2)
            x += y * scale2
    elif k == 10 and s.bool():
        if '/' in text:
            text = '({})'.format(text)
        text += ' ' + s.pick(['m', 'seconds', 'kg', 'm/s', 'bytes', 'degrees^2', 'kelvin', 'steradian'] if angle else ['degrees', 'radians', 'm', 'kg m'])
        bad = True
    elif k == 11 and lo is not None:
        text, x = s.pick([('1.0000000001', Fraction(10000000001, 10 ** 10)), ('2', Fraction(2)), ('-1.5', Fraction(-3, 2)), ('-1E200', Fraction(-10 ** 200)), ('0.9999999', Fraction(9999999, 10 ** 7)), ('-7', Fraction(-7)), ('0', Fraction(0))])
    if name in ('sinh', 'cosh') and abs(x) > 700:
        bad = bad or abs(x) > 720
        if not bad:
            raise Discard()
    if name == 'tan' and abs(x) > 10 ** 13:
        raise Discard()
    text = '{}({})'.format(name, text)
    if s.bool(1, 8):
        text = 'x = {}\nx'.format(text)
    t.show(text)
    if abs(x) != int(abs(x)) or abs(x) > 9:
        t.nt()
    t.label(name)
    r = sut.last(t.env.calc(), text)
    if bad or lo is not None and x < lo or hi is not None and x > hi or name == 'atanh' and abs(x) == 1:
        t.label('refused')
        check(isinstance(r, Err), '{} is not refused but {}', text, r)
        return
    want, tol = near(f, name, x, lo, hi)
    check(not isinstance(r, Err), '{} fails: {}', text, r)
    check(r[1] is None, '{} has the unit {}', text, r[1])
    got = sut.frac(r[0])
    check(abs(got - Fraction(want)) <= Fraction(tol), '{} is {} instead of {}', text, float(got), float(want))


# ---------------------------------------------------------- special functions

ONE = ('ellipk ellipkm1 ellipe ndtr log_ndtr ndtri ndtri_exp kolmogorov kolmogi logit expit log_expit entr gamma gammaln loggamma gammasgn psi rgamma digamma '
       'ber bei berp beip ker kei kerp keip lambertw wrightomega exp1 expi zeta zetac').split()
TWO = ('ellipkinc ellipeinc elliprc jv jve yn yv yve kn kv kve iv ive hankel1 hankel1e hankel2 hankel2e jvp yvp ivp h1vp h2vp pdtr pdtrc pdtri pdtrik stdtr stdtridf stdtrit chdtr chdtrc chdtri chdtriv '
       'smirnov smirnovi boxcox boxcox1p inv_boxcox inv_boxcox1p tklmbda owens_t rel_entr kl_div huber pseudo_huber gammainc gammaincinv gammaincc gammainccinv beta betaln polygamma poch hyp0f1 mathieu_a mathieu_b agm expn').split()
THREE = ('elliprd elliprf elliprg wright_bessel besselpoly bdtrc bdtri bdtrik bdtrin btdtria btdtrib fdtr fdtrc fdtri fdtridfd gdtr gdtrc gdtria gdtrib gdtrix nbdtr nbdtrc nbdtri nbdtrik nbdtrin '
         'nctdtr nctdtridf nctdtrit nctdtrinc nrdtrimn nrdtrisd chndtr chndtridf chndtrinc chndtrix betainc betaincc betaincinv betainccinv lpmv hyp1f1 hyperu').split()
FOUR = 'elliprj ncfdtr ncfdtridfd ncfdtridfn ncfdtri ncfdtrinc sph_harm hyp2f1'.split()
MANY = {'airy': (1, 'ai aip bi bip'), 'airye': (1, 'eai eaip ebi ebip'), 'itairy': (1, 'apt bpt ant bnt'), 'ellipj': (2, 'sn cn dn ph'), 'itj0y0': (1, 'ij0 iy0'), 'it2j0y0': (1, 'ij0 iy0'), 'iti0k0': (1, 'ii0 ik0'),
        'it2i0k0': (1, 'ii0 ik0'), 'pbdv': (2, 'd dp'), 'pbvv': (2, 'v vp'), 'pbwa': (2, 'w wp'), 'kelvin': (1, 'be ke bep kep'), 'shichi': (1, 'si ci'), 'sici': (1, 'si ci')}
INTS = {'kn': 1, 'bdtrc': 2, 'bdtri': 2, 'nbdtri': 2}
FIRST_WHOLE = {'yn', 'kn', 'expn', 'smirnov', 'smirnovi', 'polygamma', 'pdtri', 'pdtr', 'pdtrc', 'mathieu_a', 'mathieu_b', 'jvp', 'lpmv', 'nbdtr', 'nbdtrc', 'nbdtri', 'bdtrc', 'bdtri'}


def _table():
    out = []
    for n, names in ((1, ONE), (2, TWO), (3, THREE), (4, FOUR)):
        out += [('sp_' + x, x, None, n) for x in names]
    for x in sorted(MANY):
        n, outs = MANY[x]
        out += [('sp_{}_{}'.format(x, o), x, i, n) for i, o in enumerate(outs.split())]
    return out


TABLE = _table()


def value(s, deep=False):
    """(text, exact value); deep for functions whose implementation ends quickly for every number"""
    k = s.draw(11)
    if k < 3:
        n = s.draw(9)
        return str(n), Fraction(n)
    if k < 6:
        return show(s.draw(1000), 1000)
    if k < 8:
        return show(s.draw(30000), 1000)
    if k == 8:
        return show(-s.draw(5000), 1000)
    if k == 9:
        a, b = s.int(1, 50), s.int(1, 50)
        return '{} / {}'.format(a, b), Fraction(a, b)
    if k == 10:
        return s.pick([('0x10', Fraction(16)), ('50%', Fraction(1, 2)), ('1E-3', Fraction(1, 1000)), ('0b11', Fraction(3)), ("'0.25'", Fraction(1, 4)), ('-2', Fraction(-2)), ('-1', Fraction(-1)), ('true', Fraction(1)), ('12E0', Fraction(12))])
    if not deep:
        return show(s.int(1, 99), 10 ** s.int(4, 12))
    return s.pick([lambda: show(s.int(1, 99999), 10 ** s.int(20, 60)), lambda: show(s.int(1, 10 ** s.int(3, 20)), 10 ** 20)])()


# searched for numerically by scipy, which may not end for extreme arguments
SEARCHED = set('btdtria btdtrib bdtrik bdtrin fdtridfd gdtria gdtrib gdtrix nbdtrik nbdtrin nctdtridf nctdtrit nctdtrinc nrdtrimn nrdtrisd chndtr chndtridf chndtrinc chndtrix ncfdtr ncfdtridfd ncfdtridfn ncfdtri ncfdtrinc pdtrik stdtridf chdtriv'.split())


def special(s, t):
    name, fname, out, n = s.pick(TABLE)
    args = [value(s, n == 1) for _ in range(n)] if fname not in SEARCHED else [s.pick([lambda: show(s.int(10, 990), 1000), lambda: show(s.int(10, 3000), 100)])() for _ in range(n)]
    if fname in FIRST_WHOLE and s.bool(5, 6):
        k = s.draw(6)
        args[0] = (str(k), Fraction(k))
        if fname in ('bdtrc', 'bdtri', 'nbdtri', 'nbdtr', 'nbdtrc') and s.bool(5, 6):
            k = s.draw(9)
            args[1] = (str(k), Fraction(k))
    if s.bool(1, 20):
        wrong = s.pick([n - 1, n + 1])
        text = '{}({})'.format(name, ', '.join(a[0] for a in (args + [('1', 1)])[:wrong]))
        t.show(text)
        r = sut.last(t.env.calc(), text)
        check(isinstance(r, Err), '{} takes {} arguments, and {} is {}', name, n, text, r)
        return
    text = '{}({})'.format(name, ', '.join(a[0] for a in args))
    t.show(text)
    t.label(fname)
    ints = INTS.get(fname, 0)
    if any(abs(a[1]) != int(abs(a[1])) for a in args):
        t.nt()
    given = [int(a[1]) for a in args[:ints]] + [float(a[1]) for a in args[ints:]]
    try:
        ref = getattr(scipy.special, fname)(*given)
        if out is not None:
            ref = ref[out]
        ref = complex(ref)
    except (ValueError, OverflowError):
        ref = None
    r = sut.last(t.env.calc(), text)
    if ref is None or ref.real != ref.real or abs(ref.real) == float('inf'):
        t.label('refused')
        check(isinstance(r, Err), '{} is not refused but {}; the reference is {}', text, r, ref)
        return
    check(not isinstance(r, Err), '{} fails ({}), the reference is {}', text, r, ref)
    check(r[1] is None, '{} has a unit: {}', text, r[1])
    got = sut.frac(r[0])
    want = Fraction(ref.real)
    check(abs(got - want) <= abs(want) * Fraction(1, 10 ** 12) + Fraction(1, 10 ** 300), '{} is {} instead of {}', text, float(got), ref.real)


# (left, right, range of x, range of y, size of the rounding errors relative to the result, extra)
IDENTITIES = [
    ('sin({x})^2 + cos({x})^2', '1', (-10 ** 6, 10 ** 6)),
    ('sin(2 * {x})', '2 * sin({x}) * cos({x})', (-3, 3)),
    ('cosh({x})^2 - sinh({x})^2', '1', (-2, 2)),
    ('tan({x})', 'sin({x}) / cos({x})', (-1, 1)),
    ('tanh({x})', 'sinh({x}) / cosh({x})', (-20, 20)),
    ('asin(sin({x}))', '{x}', (-1, 1)), ('acos(cos({x}))', '{x}', (1, 2)), ('atan(tan({x}))', '{x}', (-1, 1)),
    ('sin(asin({x}))', '{x}', (-1, 1)), ('cos(acos({x}))', '{x}', (0.1, 1)), ('tan(atan({x}))', '{x}', (-50, 50)),
    ('asinh(sinh({x}))', '{x}', (-20, 20)), ('acosh(cosh({x}))', '{x}', (1, 20)), ('atanh(tanh({x}))', '{x}', (-2, 2)),
    ('sinh(asinh({x}))', '{x}', (-50, 50)), ('cosh(acosh({x}))', '{x}', (1, 50)), ('tanh(atanh({x}))', '{x}', (-0.9, 0.9)),
    ('sin({x} degrees)', 'sin({x} * pi / 180)', (-1000, 1000)), ('cos({x} degrees)', 'cos(0 - {x} * tau / 360)', (-1000, 1000)), ('cos({x} degrees)', 'cos({x} degrees to radians)', (-1000, 1000)),
    ('sin({x} radians)', 'sin({x} radians to degrees)', (-100, 100)),
    ('asin({x}) + acos({x})', 'pi / 2', (-1, 1)), ('cos({x})', 'sin(90 degrees - {x} radians)', (-1, 1)),
    ('sinh({x})', '(exp({x}) - exp(0 - {x})) / 2', (1, 50)), ('cosh({x})', '(exp({x}) + exp(0 - {x})) / 2', (-50, 50)), ('asinh({x})', 'log({x} + ({x}^2 + 1)^0.5)', (1, 1000)),
    ('sp_gamma({x} + 1)', '{x} * sp_gamma({x})', (0.1, 40)), ('sp_gammaln({x})', 'log(sp_gamma({x}))', (3, 40)), ('sp_digamma({x})', 'sp_psi({x})', (0.1, 50)), ('sp_rgamma({x})', '1 / sp_gamma({x})', (0.1, 30)),
    ('sp_gammainc({x}, {y}) + sp_gammaincc({x}, {y})', '1', (0.1, 20), (0.1, 20)), ('sp_beta({x}, {y})', 'sp_gamma({x}) * sp_gamma({y}) / sp_gamma({x} + {y})', (0.5, 20), (0.5, 20)),
    ('sp_gammaincinv({x}, sp_gammainc({x}, {y}))', '{y}', (1, 5), (1, 4)), ('sp_betainc({x}, {y}, 0.25) + sp_betaincc({x}, {y}, 0.25)', '1', (1, 9), (1, 9)),
    ('sp_ndtri(sp_ndtr({x}))', '{x}', (-3, 3)), ('sp_ndtr({x}) + sp_ndtr(0 - {x})', '1', (-5, 5)), ('sp_log_ndtr({x})', 'log(sp_ndtr({x}))', (-5, 0)),
    ('sp_expit({x})', '1 / (1 + exp(0 - {x}))', (-20, 20)), ('sp_logit(sp_expit({x}))', '{x}', (-5, 5)), ('sp_log_expit({x})', 'log(sp_expit({x}))', (-20, 1)), ('sp_expit({x})', 'tanh({x} / 2) / 2 + 0.5', (0, 9)),
    ('sp_lambertw({x} * exp({x}))', '{x}', (0.1, 20)), ('sp_agm({x}, {y})', 'sp_agm({y}, {x})', (0.1, 99), (0.1, 99)), ('sp_ellipk({x})', 'pi / 2 / sp_agm(1, (1 - {x})^0.5)', (0, 0.9)),
    ('sp_ellipkm1({x})', 'sp_ellipk(1 - {x})', (0.1, 1)), ('sp_ellipkinc(pi / 2, {x})', 'sp_ellipk({x})', (0, 0.9)), ('sp_ellipeinc(pi / 2, {x})', 'sp_ellipe({x})', (0, 0.9)),
    ('sp_ellipj_sn({x}, {y})^2 + sp_ellipj_cn({x}, {y})^2', '1', (0, 5), (0.1, 0.9)), ('sp_ellipj_dn({x}, {y})^2 + {y} * sp_ellipj_sn({x}, {y})^2', '1', (0, 5), (0.1, 0.9)), ('sin(sp_ellipj_ph({x}, {y}))', 'sp_ellipj_sn({x}, {y})', (0.1, 1), (0.1, 0.9)),
    ('sp_jv(0.5, {x})', '(2 / (pi * {x}))^0.5 * sin({x})', (0.5, 3)), ('sp_yv(0.5, {x})', '0 - ((2 / (pi * {x}))^0.5) * cos({x})', (2, 4)), ('sp_kv(0.5, {x})', '(pi / (2 * {x}))^0.5 * exp(0 - {x})', (0.1, 20)),
    ('sp_iv(0.5, {x})', '(2 / (pi * {x}))^0.5 * sinh({x})', (0.1, 20)), ('sp_hankel1({y}, {x})', 'sp_jv({y}, {x})', (0.5, 5), (0, 3)), ('sp_hankel2({y}, {x})', 'sp_jv({y}, {x})', (0.5, 5), (0, 3)),
    ('sp_kve(2, {x})', 'sp_kv(2, {x}) * exp({x})', (0.5, 20)), ('sp_ive(2, {x})', 'sp_iv(2, {x}) * exp(0 - {x})', (0.5, 20)), ('sp_kn(2, {x})', 'sp_kv(2, {x})', (0.5, 20)), ('sp_yn(1, {x})', 'sp_yv(1, {x})', (0.3, 2)),
    ('sp_airye_eai({x})', 'sp_airy_ai({x}) * exp(2 / 3 * {x}^1.5)', (0.1, 5)), ('sp_airy_ai({x}) * sp_airy_bip({x}) - sp_airy_aip({x}) * sp_airy_bi({x})', '1 / pi', (0, 3)),
    ('sp_kelvin_be({x})', 'sp_ber({x})', (0, 2)), ('sp_kelvin_ke({x})', 'sp_ker({x})', (0.1, 1)), ('sp_expn(1, {x})', 'sp_exp1({x})', (0.1, 20)), ('sp_shichi_si({x}) + sp_shichi_ci({x})', 'sp_expi({x})', (1, 9)), ('sp_zetac({x}) + 1', 'sp_zeta({x})', (2, 20)),
    ('sp_poch({x}, 3)', '{x} * ({x} + 1) * ({x} + 2)', (0.1, 9)), ('sp_boxcox({x}, 2)', '({x}^2 - 1) / 2', (2, 9)), ('sp_inv_boxcox(sp_boxcox({x}, {y}), {y})', '{x}', (1.5, 9), (0.5, 3)), ('sp_boxcox1p({x}, {y})', 'sp_boxcox({x} + 1, {y})', (0.5, 9), (0.5, 3)),
    ('sp_entr({x})', '(0 - {x}) * log({x})', (1.5, 20)), ('sp_rel_entr({x}, {y})', '{x} * log({x} / {y})', (5, 20), (0.1, 4)), ('sp_huber(20, {x})', '{x}^2 / 2', (0, 19)), ('sp_kl_div({x}, {y})', '{x} * log({x} / {y}) - {x} + {y}', (5, 20), (0.1, 2)),
    ('sp_pdtr(2, {x}) + sp_pdtrc(2, {x})', '1', (0.1, 9)), ('sp_pdtr(1, {x})', 'exp(0 - {x}) * (1 + {x})', (0.1, 9)), ('sp_bdtrc(0, 3, {x})', '1 - (1 - {x})^3', (0.2, 1)), ('sp_bdtri(0, 1, {x})', '1 - {x}', (0.1, 0.9)), ('sp_nbdtr(0, 3, {x})', '{x}^3', (0.1, 1)),
    ('sp_nbdtri(0, 2, {x}^2)', '{x}', (0.1, 1)), ('sp_nbdtr(2, 3, {x}) + sp_nbdtrc(2, 3, {x})', '1', (0.1, 1)), ('sp_chdtr(2, {x})', '1 - exp(0 - {x} / 2)', (1, 20)), ('sp_chdtrc(2, {x})', 'exp(0 - {x} / 2)', (0.1, 20)), ('sp_chdtri(2, exp(0 - {x} / 2))', '{x}', (1, 20)),
    ('sp_fdtr(3, {x}, {y}) + sp_fdtrc(3, {x}, {y})', '1', (1, 9), (0.1, 5)), ('sp_gdtr({x}, 1, {y})', '1 - exp(0 - {x} * {y})', (1, 5), (1, 3)), ('sp_gdtrc({x}, 1, {y})', 'exp(0 - {x} * {y})', (1, 5), (1, 3)), ('sp_stdtr(1, {x})', '0.5 + atan({x}) / pi', (0, 9)),
    ('sp_stdtrit(3, sp_stdtr(3, {x}))', '{x}', (0.5, 4)), ('sp_hyp2f1(1, 1, 2, (0 - {x}))', 'log(1 + {x}) / {x}', (0.1, 0.9)), ('sp_hyp1f1({x}, {x}, {y})', 'exp({y})', (1, 5), (0.1, 9)), ('sp_hyp0f1(1.5, {x}^2 / 4)', 'sinh({x}) / {x}', (0.1, 5)),
    ('sp_elliprf({x}, {x}, {x})', '1 / {x}^0.5', (0.1, 9)), ('sp_elliprc({x}, {x})', '1 / {x}^0.5', (0.1, 9)), ('sp_elliprd({x}, {x}, {x})', '{x}^(-1.5)', (0.1, 9)), ('sp_elliprj({x}, {x}, {x}, {x})', '{x}^(-1.5)', (0.1, 9)), ('sp_elliprg({x}, {x}, {x})', '{x}^0.5', (0.1, 9)),
    ('sp_lpmv(0, 2, {x})', '(3 * {x}^2 - 1) / 2', (0.7, 1)), ('sp_smirnov(1, {x})', '1 - {x}', (0.1, 0.9)), ('sp_smirnovi(1, {x})', '1 - {x}', (0.1, 0.9)), ('sp_kolmogi(sp_kolmogorov({x}))', '{x}', (0.5, 2)), ('sp_wrightomega({x}) + log(sp_wrightomega({x}))', '{x}', (2, 20)),
    ('sp_polygamma(1, {x}) - sp_polygamma(1, {x} + 1)', '1 / {x}^2', (0.3, 2)), ('sp_owens_t({x}, 1)', 'sp_ndtr({x}) * sp_ndtr((0 - {x})) / 2', (0, 3)), ('sp_mathieu_a(2, 0)', '4', (0, 1)), ('sp_betaln({x}, {y})', 'log(sp_beta({x}, {y}))', (2, 9), (2, 9)),
    ('sp_jvp(0, {x})', '0 - (sp_jv(1, {x}))', (0.5, 3)), ('sp_ivp(0, {x})', 'sp_iv(1, {x})', (0.5, 3)), ('sp_yvp(0, {x})', '0 - (sp_yv(1, {x}))', (0.5, 1.5)), ('sp_tklmbda({x}, 1)', '({x} + 1) / 2', (0, 0.9)), ('sp_pseudo_huber(1, {x})', '(1 + {x}^2)^0.5 - 1', (1, 9)),
]


def identities(s, t):
    e = s.pick(IDENTITIES)
    got = []
    names = {}
    for name, r in zip('xy', e[2:]):
        lo, hi = Fraction(str(r[0])), Fraction(str(r[1]))
        n = s.draw(10 ** 6)
        v = lo + (hi - lo) * Fraction(n, 10 ** 6)
        text, _ = show(round(v * 10 ** 6), 10 ** 6)
        names[name] = text if text[0] != '-' else '({})'.format(text)
    l, r = e[0].format(**names), e[1].format(**names)
    t.show('{} = {}'.format(l, r))
    t.label(e[0].split('(')[0])
    t.nt()
    for text in (l, r):
        v = sut.last(t.env.calc(), text)
        check(not isinstance(v, Err), '{} fails: {}', text, v)
        check(v[1] is None, '{} has a unit: {}', text, v[1])
        got.append(sut.frac(v[0]))
    # 10 digits: the two sides are computed differently
    big = max(abs(got[0]), abs(got[1]), Fraction(1, 10 ** 3))
    check(abs(got[0] - got[1]) <= big * Fraction(1, 10 ** 8), '{} is {} but {} is {}', l, float(got[0]), r, float(got[1]))


def constants(s, t):
    """pi, tau and e to the digits shown."""
    name, ref = s.pick([('pi', PI), ('tau', TAU), ('e', E)])
    n = s.int(1, 99)
    d = s.int(1, 99)
    text = s.pick(['{c}', '{n} * {c} / {d}', '{c} * {n} / {d}', '({n} {c}) / {d}'])
    if text == '{c}':
        n = d = 1
    text = text.format(c=name, n=n, d=d)
    t.show(text)
    t.nt()
    r = sut.last(t.env.calc(), text)
    check(not isinstance(r, Err), '{} fails: {}', text, r)
    want = Fraction(ref) * n / d
    check(abs(sut.frac(r[0]) - want) <= want * Fraction(1, 10 ** 45), '{} is {} instead of {}', text, r[0], want)


GROUPS = [('trig', trig, 6), ('special', special, 6), ('identities', identities, 3), ('constants', constants, 1)]
STUCK_OK = True    # scipy's own searches can fail to end in native code
