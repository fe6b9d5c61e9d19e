"""Powers, exp and log."""
from decimal import Decimal, Context, localcontext, MAX_EMAX, MIN_EMIN
from fractions import Fraction

from vlib import gen, sut
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard
from props.N02 import show

RULE = ('integer powers of generated rationals against exact Fraction powers; fractional powers, exp, log and log with base against '
        'decimal at 220 digits computed by exp(y ln x); laws of powers; refused arguments. Non-trivial: exponent other than 0 and 1 on a '
        'base other than 0 and 1, a transcendental result, or a refusal.')
ASSUMPTIONS = ['exact powers within 98 digits; transcendental arguments within 40 digits and results within 10^-100 to 10^100']


def hp():
    return localcontext(Context(prec=220, Emax=MAX_EMAX, Emin=MIN_EMIN))


def dec(f):
    return Decimal(f.numerator) / Decimal(f.denominator)


def base(s, neg=True):
    k = s.pick([1, 1, 2, 3, 6, 12])
    n = s.int(1, 10 ** k)
    c = s.draw(3)
    if c == 0:
        f = Fraction(n)
    elif c == 1:
        f = Fraction(n, 10 ** s.int(1, 8))
    else:
        f = Fraction(n, s.int(1, 10 ** s.pick([1, 2, 5])))
    if neg and s.bool(1, 3):
        f = -f
    return f


def exp_text(s, e):
    return s.pick([str(e), str(e), '(' + str(e) + ')', str(e) + '.0', '(' + str(e * 3) + '/3)', '(' + str(e + 7) + ' - 7)'])


def lit(s, f):
    t = show(s, f)
    if t[0] == '-' and s.bool():
        t = '(' + t + ')'
    return t


def c_intpow(s, t):
    calc = t.env.calc(s.pick(['Computing', 'Basic', 'Scientific']))
    basic = calc is t.env.cache.get('Basic')
    x = base(s)
    e = s.weighted([(4, 5), (4, 40), (2, 320)])
    e = s.sint(-e, e)
    if s.bool(1, 12):
        x = Fraction(0)
    if x == 0 and e == 0:
        raise Discard()
    if gen.digits(x.numerator) * abs(e) > 98 or gen.digits(x.denominator) * abs(e) > 98:
        # keep the case: use a small base, or a power of ten
        x = Fraction(s.pick([-1, 1]) * s.int(2, 9), s.pick([1, 1, 2, 3, 4, 5, 7]))
        m = max(abs(x.numerator), x.denominator)
        while m ** abs(e) >= 10 ** 98:
            e = (abs(e) * 2 // 3 + s.draw(1)) * (1 if e > 0 else -1)
    want = None if x == 0 and e < 0 else x ** e
    if basic:
        x = Fraction(x.numerator)
        want = None if x == 0 and e < 0 else x ** e
        src = str(x.numerator) + '^' + str(e)
    else:
        src = lit(s, x) + s.pick([' ^ ', '^']) + exp_text(s, e)
    t.show(src)
    got = sut.last(calc, src)
    if want is None:
        check(isinstance(got, Err), '{} must be refused but is {}', src, got)
        t.nt()
        return
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    check(frac(got[0]) == want, '{} should be exactly {} but is {}', src, want, got[0])
    if abs(e) > 1 and x not in (0, 1):
        t.nt()


def close(got, want, digits, src):
    """got a Number, want a high precision Decimal"""
    with hp():
        g = dec(frac(got))
        if want == 0:
            check(abs(g) < Decimal(10) ** -digits, '{} should be 0 but is about {}', src, '%.20e' % g)
            return
        err = abs(g - want) / abs(want)
        check(err < Decimal(10) ** -digits, '{} should be about {} but is about {} (relative error {})', src, format(want, '.60e'), format(g, '.60e'), format(err, '.2e'))


def c_fracpow(s, t):
    calc = t.env.calc('Computing')
    x = base(s, neg=False)
    p = Fraction(s.int(1, 10 ** s.pick([1, 2, 4])), s.pick([2, 3, 4, 5, 10, 100, 7, 1000, s.int(2, 9999)]))
    if s.bool(1, 3):
        p = -p
    if p.denominator == 1:
        raise Discard()
    with hp():
        est = dec(p) * dec(x).ln()
        if abs(est) > 200 or abs(dec(p)) * max(Decimal(x.numerator).ln(), Decimal(x.denominator).ln()) > 210:
            p = p / 10 ** (gen.digits(int(abs(p))))
            if p.denominator == 1:
                raise Discard()
            est = dec(p) * dec(x).ln()
        if abs(est) > 200 or gen.digits(p.numerator) > 12 or gen.digits(p.denominator) > 12:
            raise Discard()
        if abs(dec(p)) * max(Decimal(x.numerator).ln(), Decimal(x.denominator).ln()) > 210:
            raise Discard()
        want = est.exp()
    neg = s.bool(1, 8)
    src = ('(-' + show(s, x).strip('()') + ')' if neg and '/' not in show(s, x) else lit(s, -x if neg else x)) + ' ^ ' + lit(s, p)
    if neg:
        src = '(' + '0 - ' + show(s, x) + ') ^ ' + lit(s, p)
    t.show(src)
    got = sut.last(calc, src)
    if neg:
        check(isinstance(got, Err), '{} is no real number, but gave {}', src, got)
        t.nt()
        return
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    close(got[0], want, 40, src)
    if x != 1:
        t.nt()


def c_exp(s, t):
    calc = t.env.calc('Computing')
    x = base(s)
    if abs(x) > 200:
        x = x / 10 ** (gen.digits(int(abs(x))))
    src = 'exp(' + show(s, x) + ')'
    t.show(src)
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    with hp():
        want = dec(x).exp()
    close(got[0], want, 40, src)
    t.nt()


def c_log(s, t):
    calc = t.env.calc('Computing')
    x = base(s, neg=False)
    if s.bool(1, 4):
        x = 1 + Fraction(s.pick([1, -1]) * s.int(1, 99), 10 ** s.int(2, 20))
    if s.bool(1, 6):
        x = Fraction(10) ** s.sint(-90, 90)
    bad = s.bool(1, 8)
    two = s.bool()
    b = None
    if two:
        b = s.pick([Fraction(2), Fraction(10), Fraction(16), Fraction(1, 2), base(s, neg=False), Fraction(s.int(2, 1000))])
        if s.bool(1, 10):
            b = s.pick([Fraction(0), Fraction(1), -b])
    if bad:
        x = s.pick([Fraction(0), -x])
    src = 'log(' + show(s, x) + ((', ' + show(s, b)) if two else '') + ')'
    t.show(src)
    got = sut.last(calc, src)
    if x <= 0 or (two and (b <= 0 or b == 1)):
        check(isinstance(got, Err), '{} must be refused but is {}', src, got)
        t.nt()
        return
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    with hp():
        want = dec(x).ln()
        if two:
            # nearby bases of logarithms near zero are ill-conditioned
            lb = dec(b).ln()
            if abs(lb) < Decimal('0.001'):
                raise Discard()
            want = want / lb
    close(got[0], want, 12 if two else 40, src)
    if x != 1:
        t.nt()


def c_laws(s, t):
    calc = t.env.calc('Computing')
    x = base(s)
    a, b = s.sint(-6, 6), s.sint(-6, 6)
    y = base(s)
    if max(gen.digits(v.numerator) + gen.digits(v.denominator) for v in (x, y)) * (abs(a) + abs(b) + 1) * 2 > 95:
        x, y = Fraction(s.int(2, 9), s.int(1, 3)), Fraction(s.int(2, 9), s.int(1, 3))
    law = s.draw(3)
    X, Y = '(' + show(s, x) + ')', '(' + show(s, y) + ')'
    if law == 0:
        l, r = '{0}^{1} * {0}^{2}'.format(X, a, b), '{}^({} + {})'.format(X, a, b)
    elif law == 1:
        l, r = '({}*{})^{}'.format(X, Y, a), '{}^{} * {}^{}'.format(X, a, Y, a)
    elif law == 2:
        l, r = '({}/{})^{}'.format(X, Y, a), '{}^{} / {}^{}'.format(X, a, Y, a)
    else:
        a, b = s.sint(-3, 3), s.sint(-3, 3)
        x = Fraction(s.int(2, 99), s.int(1, 9))
        X = '(' + show(s, x) + ')'
        l, r = '({}^{})^{}'.format(X, a, b), '{}^({}*{})'.format(X, a, b)
    t.show(l + '   and   ' + r)
    g, h = sut.last(calc, l), sut.last(calc, r)
    check(not isinstance(g, Err) and not isinstance(h, Err), '{} or {} was refused: {} {}', l, r, g, h)
    check(frac(g[0]) == frac(h[0]), '{} is {} but {} is {}', l, g[0], r, h[0])
    if a and b:
        t.nt()


GROUPS = [('integer-power', c_intpow, 5), ('fractional-power', c_fracpow, 2), ('exp', c_exp, 1), ('log', c_log, 2), ('laws', c_laws, 2)]
