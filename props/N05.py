"""Displayed numbers."""
import re
from fractions import Fraction

from vlib import gen, prog, sut
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard
from props.N02 import show

RULE = ('generated rationals (terminating, recurring, ties and near-ties at the rounding place, up to 60 integer digits) shown with 0 to 60 '
        'decimal places, compared with exact integer rounding; re-parse round trip; same program under different numbers of places. '
        'Non-trivial: rounding is needed, or 12+ digits.')
ASSUMPTIONS = ['integer digits + places + denominator digits within 100, the working size (the value to that many digits is then on the right side of every tie)']
SIZE = 100

WELLFORMED = re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]*[1-9])?')


def value(s, places):
    k = s.draw(7)
    if k == 0:
        f = Fraction(s.draw(10 ** s.pick([1, 3, 9, 25, 58])))
    elif k == 1:
        f = Fraction(s.draw(10 ** s.pick([2, 6, 20])), s.int(1, 10 ** s.pick([1, 2, 5, 12])))
    elif k == 2:
        # a tie at the rounding place
        f = Fraction(2 * s.draw(10 ** s.pick([1, 2, 6, 20])) + 1, 2 * 10 ** places)
    elif k == 3:
        # next to a tie
        f = Fraction(2 * s.draw(10 ** s.pick([1, 2, 6])) + 1, 2 * 10 ** places) + s.pick([1, -1]) * Fraction(1, 10 ** (places + s.int(2, 12)))
    elif k == 4:
        # carries: 9.999...
        f = Fraction(10) ** s.int(0, 20) - Fraction(s.int(1, 9), 10 ** s.int(1, places + 4))
    elif k == 5:
        # tiny
        f = Fraction(s.int(1, 99), 10 ** s.int(1, 90))
    elif k == 6:
        f = Fraction(s.draw(10 ** s.int(1, 30)), 10 ** s.int(1, 30))
    else:
        # as long as the working size can show
        d = s.pick([1, 3, 7, 9, 8, 11, 125, s.int(1, 999)])
        size = SIZE - places - gen.digits(d) - s.draw(s.pick([0, 2, 20]))
        f = 10 ** (size - 1) + s.draw(9 * 10 ** (size - 1) - 1) + Fraction(s.draw(d - 1), d)
    if s.bool(1, 3):
        f = -f
    return f


def bounded(f, places):
    i = gen.digits(int(abs(f)))
    return i + places + gen.digits(f.denominator) <= SIZE or (f == int(f) and i + places <= 96) or (gen.digits(f.numerator) <= 90 and _terminating(f) and gen.digits(f.denominator) <= 91)


def _terminating(f):
    d = f.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    return d == 1


class places_set:
    def __init__(self, t, places):
        self.calc = t.env.cache.get('N05')
        if self.calc is None:
            self.calc = t.env.cache['N05'] = t.env.fresh('Computing')
        self.places = places

    def __enter__(self):
        self.calc.number_prec_set(self.places)
        return self.calc

    def __exit__(self, *a):
        self.calc.number_prec_set(30)


def c_display(s, t):
    places = 30 if s.bool(1, 3) else s.int(0, s.pick([3, 10, 60]))
    f = value(s, places)
    if not bounded(f, places):
        raise Discard()
    t.show('{} at {} places'.format(f, places))
    want = prog.num_text(f, places)
    with places_set(t, places) as calc:
        n = Number(f.numerator, f.denominator)
        got = n.to_string(calc)
        check(got == want, '{} at {} places should be displayed as {} but is {}', f, places, want, got)
        check(WELLFORMED.fullmatch(got) and got != '-0', '{} is displayed as {}', f, got)
        check(frac(n) == f and n.to_string(calc) == got, 'displaying {} changed it to {}', f, n)
        src = show(s, f)
        r = sut.last(calc, src)
        check(not isinstance(r, Err), '{} was refused: {}', src, r)
        check(frac(r[0]) == f and r[0].to_string(calc) == want, '{} at {} places should be {} but is displayed as {}', src, places, want, r[0].to_string(calc))
        # typing the text back
        b = sut.last(calc, got)
        check(not isinstance(b, Err), 'displayed text {} was refused: {}', got, b)
        check(frac(b[0]) == Fraction(want), '{} typed back gives {}', got, b[0])
        check(b[0].to_string(calc) == got, '{} typed back is displayed as {}', got, b[0].to_string(calc))
        if s.bool(1, 3):
            c = sut.last(calc, "'<' +$ (" + src + ") +$ '>'")
            check(not isinstance(c, Err) and c[0] == '<' + want + '>', 'the text of {} should be {} but is {}', src, want, c if isinstance(c, Err) else c[0])
    if Fraction(want) != f or len(want) > 12:
        t.nt()


def c_precision(s, t):
    """The number of places changes nothing but the display."""
    n = prog.expr(s, s.pick(['num', 'num', 'bool']), s.int(1, 4), prog.Ctx(ops=('arith', 'adv', 'pow', 'bit', 'cmp', 'bool', 'then')))
    text = gen.ws(s, gen.toks(n))
    a, b = s.int(0, 60), s.int(0, 12)
    t.show('{} at {} and {} places'.format(text, a, b))
    vals = []
    for p in (a, b):
        with places_set(t, p) as calc:
            r = sut.last(calc, 'v = ' + text + '\nv')
            check(not isinstance(r, Err), '{} at {} places was refused: {}', text, p, r)
            check(prog.same(r[0], n.val), '{} at {} places should be {} but is {}', text, p, n.val, sut.model(r[0]))
            vals.append(r[0])
    if isinstance(n.val, Fraction):
        for p in (a, b):
            with places_set(t, p) as calc:
                for v in vals:
                    w = prog.num_text(n.val, p)
                    check(v.to_string(calc) == w, '{} at {} places should be displayed as {} but is {}', n.val, p, w, v.to_string(calc))
        if n.val.denominator != 1 and prog.opcount(n):
            t.nt()
    elif prog.opcount(n) > 1:
        t.nt()


def c_again(s, t):
    """Displaying, in any notation and any number of times, changes no value, nor what depends on it."""
    places = 30 if s.bool() else s.int(0, 40)
    f = value(s, s.int(0, 12))
    if not bounded(f, 60):
        raise Discard()
    k = s.pick(['percentage', 'scientific', 'decimal', 'hexadecimal', 'binary', 'octal', 'hex', 'bin', 'oct', 'scientific(', 'base'])
    x = show(s, f)
    if k in ('hex', 'bin', 'oct'):
        e = '{}({})'.format(k, x)
    elif k == 'scientific(':
        e = 'scientific({})'.format(x)
    elif k == 'base':
        e = '0x1 * ({})'.format(x)
    else:
        e = '({}) as {}'.format(x, k)
    op, other = s.pick([('+', '0'), ('*', '1'), ('-', '0'), ('/', '1')])
    text = 'v = {}\nv\nw = v {} {}\n[v, w]\nv'.format(e, op, other)
    t.show('{} at {} places'.format(text, places))
    t.nt(k != 'decimal')
    with places_set(t, places) as calc:
        r = sut.run(calc, text)
        check(not isinstance(r, Err), '{} was refused: {}', text, r)
        vals = [q.value for q in sut.results(r)]
        check(len(vals) == 5 and isinstance(vals[3], list), '{} gave {}', text, vals)
        vals = vals[:3] + [y.value for y in vals[3]] + vals[4:]
        texts = []
        for v in vals:
            if isinstance(v, Number):
                check(frac(v) == f, '{}: the value is {} instead of {}', text, v, f)
                texts.append(v.to_string(calc))
            else:
                check(isinstance(v, str), '{} gave {}', text, vals)
                texts.append(v)
        for v, tx in zip(vals, texts):
            if isinstance(v, Number):
                check(v.to_string(calc) == tx and frac(v) == f, '{}: displayed as {}, then as {}, value {}', text, tx, v.to_string(calc), v)
        if isinstance(vals[0], Number):
            check(len(set(texts)) == 1, '{}: displayed as {}', text, texts)
        after = sut.last(calc, 'v')
        if isinstance(vals[0], Number):
            check(not isinstance(after, Err) and frac(after[0]) == f and after[0].to_string(calc) == texts[0], '{} and then v: {}', text, after)


GROUPS = [('display', c_display, 4), ('places', c_precision, 2), ('again', c_again, 2)]
