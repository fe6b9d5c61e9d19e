"""Rounding and integer functions."""
import math
from fractions import Fraction

from vlib import gen, sut
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard

RULE = ('calls of floor/ceil/round/abs with 0 to 20 places on literals and quotients in every notation, with units; a % b, a \\ b, gcd, lcm, '
        'fact on generated numbers; oracle is exact Fraction arithmetic. Non-trivial: a non-integral or negative argument, a tie, or an '
        'operand of 6+ digits.')
ASSUMPTIONS = ['arguments and scaled arguments within 95 digits']

UNITS = [None, None, None, 'meters', 'kilograms', 'seconds', 'Celsius', 'miles', 'bytes', 'watts', 'km/hour', 'm^2']


def half_away(f):
    q = abs(f)
    r = math.floor(q + Fraction(1, 2))
    return r if f >= 0 else -r


FN = {'floor': math.floor, 'ceil': math.ceil, 'round': half_away}


def argument(s, t):
    """(text, value, base, offset)"""
    k = s.draw(6)
    if k == 6:
        # as near to an integer, or to a tie, as the working size allows
        p = s.draw(6)
        e = p + s.int(2, 80)
        m = Fraction(s.sint(-10 ** 6, 10 ** 6) if s.bool(2, 3) else s.sint(-3, 3))
        v = (m + s.pick([Fraction(0), Fraction(0), Fraction(1, 2)])) / 10 ** p + Fraction(s.pick([1, -1]), 10 ** e * s.pick([1, 1, 3, 7]))
        return show(s, v), v, 10, 0, p
    if k == 4:
        # a tie, or next to one, at some place of some base
        kind, base = s.pick([('decimal', 10), ('binary', 2), ('hexadecimal', 16), ('octal', 8)])
        p = s.draw(8)
        whole = s.draw(10 ** s.int(1, 6))
        digs = ''
        v = whole
        while True:
            digs = gen.DIGITS[v % base] + digs
            v //= base
            if v == 0:
                break
        digs = digs.zfill(p + 1)
        ip, fp = (digs[:-p], digs[-p:]) if p else (digs, '')
        fp += gen.DIGITS[base // 2]
        extra = s.pick(['', '0', '001'])
        fp += extra
        sign = s.pick(['', '-'])
        text = sign + {'decimal': '', 'binary': '0b', 'hexadecimal': '0x', 'octal': '0o'}[kind] + ip + '.' + fp
        val = Fraction(int(ip + fp, base), base ** len(fp))
        return text, -val if sign else val, base, 0, p
    l = gen.notation_lit(s)
    text, v = l.text, l.val
    if k >= 2:
        op = s.pick('/*+-')
        d = s.pick([3, 7, 9, 11, 6, 2, 13, 97, s.int(1, 10 ** 9)])
        text = '(' + text + ' ' + op + ' ' + str(d) + ')'
        v = {'/': lambda: v / d, '*': lambda: v * d, '+': lambda: v + d, '-': lambda: v - d}[op]()
    return text, v, l.base, l.offset, None


def c_round(s, t):
    calc = t.env.calc('Computing')
    f = s.pick(['round', 'floor', 'ceil'])
    text, v, base, offset, tie = argument(s, t)
    unit = s.pick(UNITS)
    places = None
    if s.bool(3, 4) or tie:
        places = s.draw(s.pick([1, 3, 8, 20]))
        if tie is not None and s.bool(3, 4):
            places = tie
    p = (places or 0) + offset
    scaled = v * Fraction(base) ** p
    if gen.digits(v.numerator * base ** p) + gen.digits(v.denominator) > 95:
        raise Discard()
    want = FN[f](scaled) / Fraction(base) ** p
    arg = text if unit is None else '(' + text + ' ' + unit + ')'
    # places may be computed, or come from a variable
    pt = None if places is None else s.pick([str(places), str(places), '(' + str(places) + ' + 0)', str(places) + '.0'])
    src = f + '(' + arg + ('' if places is None else ', ' + pt) + ')'
    t.show(src)
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    check(isinstance(got[0], Number) and frac(got[0]) == want, '{} should be {} but is {}', src, want, got[0])
    if unit is None:
        check(got[1] is None, '{} should have no unit but has {}', src, got[1] and got[1].plural())
    else:
        ref = sut.last(calc, '1 ' + unit)
        check(sut.unitpowers(got[1]) == sut.unitpowers(ref[1]), '{} should be in {} but is in {}', src, unit, got[1] and got[1].plural())
    if want != v and (v < 0 or v.denominator > 2):
        t.nt()
    if tie is not None:
        t.label('near tie')


def signed(s, frac_ok=True):
    k = s.pick([1, 2, 6, 15, 30])
    v = Fraction(s.sint(-10 ** k, 10 ** k))
    if frac_ok and s.bool(1, 2):
        v = v / Fraction(10) ** s.int(1, 6) if s.bool() else v / s.int(1, 99)
    return v


def show(s, f):
    """f as an expression with the exact value."""
    if f.denominator == 1:
        return str(f.numerator)
    d = f.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    if d == 1 and s.bool(2, 3):
        k = 0
        while (f * 10 ** k).denominator != 1:
            k += 1
        n = abs(f * 10 ** k)
        txt = str(n.numerator).zfill(k + 1)
        return ('-' if f < 0 else '') + txt[:-k] + '.' + txt[-k:]
    return '(' + str(f.numerator) + '/' + str(f.denominator) + ')'


def c_divmod(s, t):
    calc = t.env.calc(s.pick(['Computing', 'Advanced']))
    a, b = signed(s), signed(s)
    if s.bool(1, 4) and b != 0:
        a = b * s.sint(-9, 9) + s.pick([Fraction(0), Fraction(1, 10 ** s.int(1, 40)), Fraction(-1, 10 ** s.int(1, 40))])
    op = s.pick(['%', '\\'])
    src = show(s, a) + ' ' + op + ' ' + show(s, b)
    t.show(src)
    if max(gen.digits(x) for x in (a.numerator * b.denominator, b.numerator * a.denominator, a.denominator * b.denominator)) > 48:
        raise Discard()
    got = sut.last(calc, src)
    if b == 0:
        check(isinstance(got, Err), '{} must be an error but is {}', src, got)
        t.nt()
        return
    if op == '\\':
        want = Fraction(math.floor(a / b))
    else:
        q = abs(a) / abs(b)
        want = abs(a) - abs(b) * math.floor(q)
        want = -want if a < 0 else want
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    check(isinstance(got[0], Number) and frac(got[0]) == want, '{} should be {} but is {}', src, want, got[0])
    if a < 0 or b < 0 or a.denominator != 1 or b.denominator != 1 or abs(a) > 10 ** 5:
        t.nt()


def c_int(s, t):
    calc = t.env.calc('Computing')
    f = s.pick(['gcd', 'lcm', 'fact'])
    if f == 'fact':
        n = Fraction(s.draw(69))
        bad = s.bool(1, 4)
        if bad:
            n = s.pick([n + Fraction(1, 2), -n - 1, n + Fraction(1, 10 ** s.int(1, 90)), -n - Fraction(1, 3)])
        src = 'fact(' + show(s, n) + ')'
        t.show(src)
        got = sut.last(calc, src)
        if bad:
            check(isinstance(got, Err), '{} must be refused but is {}', src, got)
        else:
            check(not isinstance(got, Err) and frac(got[0]) == math.factorial(int(n)), '{} should be {} but is {}', src, Fraction(math.factorial(int(n))), got if isinstance(got, Err) else got[0])
        if bad or n > 5:
            t.nt()
        return
    k = s.pick([1, 2, 4, 10, 40])
    g = s.int(1, 10 ** s.pick([0, 1, 3, 6]))
    a = Fraction(s.sint(-10 ** k, 10 ** k) * g)
    b = Fraction(s.sint(-10 ** k, 10 ** k) * g)
    bad = s.bool(1, 6)
    if bad:
        e = s.pick([Fraction(1, 2), Fraction(1, 3), Fraction(1, 10 ** s.int(1, 30))])
        if s.bool():
            a += e
        else:
            b += e
    src = f + '(' + show(s, a) + ', ' + show(s, b) + ')'
    t.show(src)
    got = sut.last(calc, src)
    if bad:
        check(isinstance(got, Err), '{} must be refused but is {}', src, got)
        t.nt()
        return
    want = math.gcd(int(a), int(b)) if f == 'gcd' else math.lcm(int(a), int(b))
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    check(frac(got[0]) == want, '{} should be {} but is {}', src, Fraction(want), got[0])
    if abs(a) > 20 and abs(b) > 20:
        t.nt()


def c_abs(s, t):
    calc = t.env.calc('Computing')
    text, v, base, offset, tie = argument(s, t)
    if gen.cost(v) > 95:
        raise Discard()
    unit = s.pick(UNITS)
    arg = text if unit is None else '(' + text + ' ' + unit + ')'
    src = 'abs(' + arg + ')'
    t.show(src)
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    check(isinstance(got[0], Number) and frac(got[0]) == abs(v), '{} should be {} but is {}', src, abs(v), got[0])
    ref = sut.last(calc, '1 ' + (unit or ''))
    check(sut.unitpowers(got[1]) == sut.unitpowers(ref[1]), '{} should be in {} but is in {}', src, unit, got[1] and got[1].plural())
    if v < 0:
        t.nt()


GROUPS = [('rounding', c_round, 6), ('division', c_divmod, 4), ('integer-functions', c_int, 3), ('abs', c_abs, 1)]
