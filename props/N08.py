"""The settings for size, places and rounding."""
import math
from fractions import Fraction

from vlib import gen, sut
from vlib.gen import Node
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard

RULE = ('calculators with a random size (20 to 400 digits), number of places (0 to 80) and one of the eight rounding modes, set at once or changed between calculations; arithmetic on numbers as long as the size allows, '
        'round() with places, and values shown plainly, as percentage, in scientific notation and inside texts, with ties and near-ties; oracle: Fractions and an own implementation of the rounding modes. '
        'Non-trivial: settings other than the default, with a number that has to be rounded or needs more than half of the size.')
ASSUMPTIONS = ['intermediate numerators and denominators within the size less two digits', 'whole digits and places of recurring numbers together within the size less four digits']

MODES = ['ROUND_HALF_UP', 'ROUND_HALF_EVEN', 'ROUND_DOWN', 'ROUND_UP', 'ROUND_FLOOR', 'ROUND_CEILING', 'ROUND_HALF_DOWN', 'ROUND_05UP']


def rounded(f, mode):
    """The whole number f is rounded to."""
    q = math.floor(abs(f))
    rest = abs(f) - q
    neg = f < 0
    if rest:
        half = Fraction(1, 2)
        if mode == 'ROUND_UP' or mode == 'ROUND_FLOOR' and neg or mode == 'ROUND_CEILING' and not neg or mode == 'ROUND_05UP' and q % 5 == 0:
            q += 1
        elif mode == 'ROUND_HALF_UP' and rest >= half or mode == 'ROUND_HALF_DOWN' and rest > half or mode == 'ROUND_HALF_EVEN' and (rest > half or rest == half and q % 2):
            q += 1
    return -q if neg else q


def text_of(f, places, mode):
    q = rounded(f * 10 ** places, mode)
    s = str(abs(q)).zfill(places + 1)
    out = s[:len(s) - places]
    if places:
        fr = s[len(s) - places:].rstrip('0')
        if fr:
            out += '.' + fr
    return '-' + out if q < 0 else out


def scientific(f, places, mode):
    """d.ddd..E±x with the number of places after the point."""
    if f == 0:
        return '0E0'
    e = len(str(abs(f.numerator))) - len(str(f.denominator))
    while abs(f) >= Fraction(10) ** (e + 1):
        e += 1
    while abs(f) < Fraction(10) ** e:
        e -= 1
    q = rounded(f / Fraction(10) ** e * 10 ** places, mode)
    if abs(q) >= 10 ** (places + 1):
        e += 1
        q = rounded(f / Fraction(10) ** e * 10 ** places, mode)
    s = str(abs(q)).zfill(places + 1)
    m = s[:1] + ('.' + s[1:].rstrip('0') if s[1:].rstrip('0') else '')
    return ('-' if q < 0 else '') + m + 'E' + str(e)


class Settings:
    def __init__(self, s):
        self.size = s.pick([100, 100, 20, 30, 50, 99, 101, 150, 250, 400])
        self.places = s.pick([30, 0, 1, 2, 3, 5, 8, 10, 15, 20, 40, 80])
        if self.places > self.size - 10:
            self.places = s.pick([0, 1, 5])
        self.mode = s.pick(MODES)

    def apply(self, s, c):
        """In any order; what is there already may be left."""
        todo = [lambda: c.number_size_set(self.size), lambda: c.number_prec_set(self.places), lambda: c.number_set_rounding(self.mode)]
        for f in s.shuffle(todo):
            f()
        check(c.number_size_get() == self.size and c.number_prec_get() == self.places, 'size and places are {} and {} after being set to {} and {}', c.number_size_get(), c.number_prec_get(), self.size, self.places)

    def __repr__(self):
        return 'size {}, {} places, {}'.format(self.size, self.places, self.mode)

    def default(self):
        return (self.size, self.places, self.mode) == (100, 30, 'ROUND_HALF_UP')


def terminating(f):
    d = f.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    return d == 1


def length(f):
    """Digits of a terminating number."""
    p = 0
    while f.denominator != 1:
        f *= 10
        p += 1
    return max(len(str(abs(f.numerator))), p + 1)


def shows(f, st, places=None):
    """Within the size: the number has to be exact in it, or be rounded far from its end and no tie."""
    places = st.places if places is None else places
    if gen.digits(f.numerator) > st.size - 2 or gen.digits(f.denominator) > st.size - 2:
        return False
    if terminating(f) and length(f) <= st.size - 2:
        return True
    if gen.digits(int(abs(f))) + places + 4 > st.size:
        return False
    x = abs(f) * 10 ** places
    for tie in (x * 2 - math.floor(x * 2), math.ceil(x * 2) - x * 2):
        if tie != 0 and tie < Fraction(1, 10 ** (st.size - gen.digits(int(abs(f))) - places - 2)):
            return False
    return True


def calc_of(t):
    c = t.env.cache.get('N08')
    if c is None:
        c = t.env.cache['N08'] = t.env.fresh('Computing')
    c.vars = {}
    return c


class default_after:
    """Puts the settings of this process back."""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        return self.c

    def __exit__(self, *a):
        self.c.number_size_set(100)
        self.c.number_prec_set(30)
        self.c.number_set_rounding('ROUND_HALF_UP')


def value(s, st):
    k = s.draw(6)
    places = st.places
    if k == 0:
        f = Fraction(s.draw(10 ** s.pick([1, 3, 9, max(1, st.size // 2), max(1, st.size - 4)])))
    elif k == 1:
        f = Fraction(s.draw(10 ** s.pick([2, 6, 12])), s.int(1, 10 ** s.pick([1, 2, 5])))
    elif k == 2:
        f = Fraction(2 * s.draw(10 ** s.pick([1, 2, 6])) + 1, 2 * 10 ** places)
    elif k == 3:
        f = Fraction(2 * s.draw(10 ** s.pick([1, 2, 6])) + 1, 2 * 10 ** places) + s.pick([1, -1]) * Fraction(1, 10 ** (places + s.int(2, 9)))
    elif k == 4:
        f = Fraction(10) ** s.int(0, 9) - Fraction(s.int(1, 9), 10 ** s.int(1, places + 4))
    elif k == 5:
        f = Fraction(s.int(1, 99), 10 ** s.int(1, max(2, st.size - 6)))
    else:
        f = Fraction(s.draw(10 ** s.int(1, 15)), 10 ** s.int(1, 15))
    return -f if s.bool(1, 3) else f


def source(s, f):
    """Text of an expression with that value."""
    if terminating(f) and s.bool(2, 3):
        p = 0
        while (f * 10 ** p).denominator != 1:
            p += 1
        t = str(abs((f * 10 ** p).numerator)).zfill(p + 1)
        return ('-' if f < 0 else '') + (t[:len(t) - p] + '.' + t[len(t) - p:] if p else t)
    return '({} / {})'.format(f.numerator, f.denominator)


def shown(s, t):
    c = calc_of(t)
    with default_after(c):
        st = Settings(s)
        st.apply(s, c)
        f = value(s, st)
        if not shows(f, st):
            raise Discard()
        src = source(s, f)
        r = None
        if s.bool(1, 4):
            # calculated before the places and the rounding change
            r = sut.last(c, src)
            size = st.size
            st = Settings(s)
            st.size = size
            if st.places > size - 10:
                st.places = 3
            if not shows(f, st):
                raise Discard()
            st.apply(s, c)
        t.show('{}: {}'.format(st, src))
        if r is None:
            r = sut.last(c, src)
        check(not isinstance(r, Err), '{} is refused with {}: {}', src, st, r)
        check(frac(r[0]) == f, '{} is {} with {}', src, frac(r[0]), st)
        want = text_of(f, st.places, st.mode)
        got = r[0].to_string(c)
        check(got == want, '{} is shown as {} instead of {} with {}', src, got, want, st)
        check(frac(r[0]) == f and r[0].to_string(c) == got, 'showing {} changes it', src)
        if not st.default() and (Fraction(want) != f or len(want) > st.size // 2):
            t.nt()
        k = s.draw(3)
        if k == 0 and shows(f * 100, st):
            x = sut.last(c, src + ' as percentage')
            check(not isinstance(x, Err), '{} as percentage is refused: {}', src, x)
            want = text_of(f * 100, st.places, st.mode) + '%'
            check(x[0].to_string(c) == want, '{} as percentage is shown as {} instead of {} with {}', src, x[0].to_string(c), want, st)
        elif k == 1:
            x = sut.last(c, "'<' +$ (" + src + ") +$ '>'")
            check(not isinstance(x, Err) and x[0] == '<' + want + '>', 'the text of {} is {} instead of {} with {}', src, x if isinstance(x, Err) else x[0], want, st)
        elif k == 2 and f != 0:
            e = len(str(abs(f.numerator))) - len(str(f.denominator))
            if st.places + 6 > st.size or not terminating(f) and not shows(f / Fraction(10) ** e, st, st.places + 1):
                return
            x = sut.last(c, src + ' as scientific')
            check(not isinstance(x, Err), '{} as scientific is refused: {}', src, x)
            want = scientific(f, st.places, st.mode)
            check(x[0].to_string(c) == want, '{} as scientific is shown as {} instead of {} with {}', src, x[0].to_string(c), want, st)


def rounds(s, t):
    """round(x, places) follows the mode, floor and ceil do not."""
    c = calc_of(t)
    with default_after(c):
        st = Settings(s)
        st.apply(s, c)
        places = s.draw(s.pick([2, 6, 12]))
        k = s.draw(3)
        if k == 0:
            f = Fraction(2 * s.draw(10 ** 5) + 1, 2 * 10 ** places)
        elif k == 1:
            f = Fraction(s.draw(10 ** 8), s.int(1, 999))
        elif k == 2:
            f = Fraction(5 * s.draw(10 ** 4) + s.draw(1), 10 ** places) + Fraction(s.draw(9), 10 ** (places + 2))
        else:
            f = value(s, st)
        if s.bool(1, 3):
            f = -f
        base = s.pick([10, 10, 10, 16, 2, 8])
        pre = {10: None, 16: 'hex', 2: 'bin', 8: 'oct'}[base]
        fn = s.pick(['round', 'round', 'round', 'floor', 'ceil'])
        scaled = f * base ** places
        if not shows(scaled, st, 0) or not shows(f, st) or gen.digits(scaled.numerator) + gen.digits(scaled.denominator) > st.size - 2:
            raise Discard()
        src = '{}({}, {})'.format(fn, source(s, f) if pre is None else '{}({})'.format(pre, source(s, f)), places)
        if places == 0 and s.bool():
            src = src.replace(', 0)', ')')
        t.show('{}: {}'.format(st, src))
        q = math.floor(scaled) if fn == 'floor' else math.ceil(scaled) if fn == 'ceil' else rounded(scaled, st.mode)
        want = Fraction(q) / base ** places
        r = sut.last(c, src)
        check(not isinstance(r, Err), '{} is refused with {}: {}', src, st, r)
        check(frac(r[0]) == want, '{} is {} instead of {} with {}', src, frac(r[0]), want, st)
        if not st.default() and want != f:
            t.nt()


def exact(s, t):
    """Arithmetic is exact as far as the size reaches, whatever the other settings."""
    c = calc_of(t)
    with default_after(c):
        st = Settings(s)
        st.apply(s, c)
        bound = st.size - 2
        most = 0

        def within(*ints):
            nonlocal most
            for i in ints:
                d = gen.digits(i)
                if d > bound:
                    return False
                most = max(most, d)
            return True

        def leaf():
            k = s.draw(3)
            if k == 0:
                x = str(s.draw(10 ** s.int(1, max(2, st.size * 2 // 3))))
            elif k == 1:
                p = s.int(1, max(2, st.size // 4))
                x = str(s.draw(10 ** s.int(1, max(2, st.size // 4)))) + '.' + str(s.draw(10 ** p - 1)).zfill(p)
            else:
                x = str(s.draw(12))
            v = Fraction(x)
            if not within(v.numerator, v.denominator, int(x.replace('.', ''))):
                raise Discard()
            return Node('lit', text=x, val=v)

        def tree(depth):
            if depth <= 0 or s.bool(1, 5):
                return leaf()
            op = s.pick('++-*/')
            a, b = tree(depth - 1), tree(depth - 1)
            x, y = a.val, b.val
            if op == '/' and y == 0:
                op = '+'
            if op in '+-':
                l = math.lcm(x.denominator, y.denominator)
                ok = within(x.numerator * l, y.numerator * l)
                v = x + y if op == '+' else x - y
            elif op == '*':
                ok = within(x.numerator * y.numerator, x.denominator * y.denominator)
                v = x * y
            else:
                ok = within(x.numerator * y.denominator, x.denominator * y.numerator)
                v = x / y
            if not ok:
                # both are kept, this operation is left out
                return a if s.bool() else b
            return Node(op, [a, b], val=v)
        n = tree(s.int(1, 4))
        src = gen.join(gen.toks(n))
        t.show('{}: {}'.format(st, src))
        r = sut.last(c, src)
        check(not isinstance(r, Err), '{} is refused with {}: {}', src, st, r)
        check(frac(r[0]) == n.val, '{} is {} instead of {} with {}', src, frac(r[0]), n.val, st)
        if not st.default() and most > st.size // 2:
            t.nt()


def bases(s, t):
    """Numbers of other bases have as many places as were set, and are exact when they need no more."""
    c = calc_of(t)
    with default_after(c):
        st = Settings(s)
        st.apply(s, c)
        b = s.pick([2, 8, 16, s.int(2, 36)])
        k = s.draw(3)
        n = s.int(1, max(1, st.places + s.int(-2, 3)))
        if k == 0:
            f = Fraction(s.draw(b ** n), b ** n)
        elif k == 1:
            f = Fraction(s.draw(b ** n) * b + s.draw(b - 1), b ** n)
        elif k == 2:
            f = Fraction(s.draw(10 ** 6), s.int(1, 999))
        else:
            f = value(s, st)
        if s.bool(1, 3):
            f = -f
        if gen.digits(f.numerator) + gen.digits(f.denominator) + gen.digits(b ** (st.places + 1)) > st.size - 3 or not shows(f, st):
            raise Discard()
        # written before the settings are made or after, in one of the ways there are
        src = '{}({})'.format({2: 'bin', 8: 'oct', 16: 'hex'}[b], source(s, f)) if b in (2, 8, 16) and s.bool(3, 4) else 'base({}, {})'.format(source(s, f), b)
        if not src.startswith('base') and s.bool(1, 3):
            src = source(s, f) + ' as ' + {2: 'binary', 8: 'octal', 16: 'hexadecimal'}[b]
        t.show('{}: {}'.format(st, src))
        r = sut.last(c, src)
        check(not isinstance(r, Err), '{} is refused with {}: {}', src, st, r)
        got = r[0] if isinstance(r[0], str) else r[0].to_string(c)
        v, places = decode(got, b)
        check(v is not None, '{} is shown as {} with {}', src, got, st)
        check(places <= st.places, '{} is shown with more places than {}: {}', src, st, got)
        if st.places:
            check(abs(v - f) < Fraction(1, b ** st.places), '{} is shown as {} with {}, which is more than a unit of the last place off', src, got, st)
        check(v == f or (f * b ** st.places).denominator != 1, '{} is shown as {} with {}, though it ends within the places', src, got, st)
        if not st.default() and f.denominator != 1:
            t.nt()


def decode(text, b):
    neg = text.startswith('-')
    if neg:
        text = text[1:]
    pre = {2: '0b', 8: '0o', 16: '0x'}.get(b)
    if pre is not None and text.lower().startswith(pre):
        text = text[2:]
    elif text.lower().startswith('{}z'.format(b)):
        text = text[len(str(b)) + 1:]
    elif b != 10:
        return None, 0
    whole, _, fr = text.partition('.')
    v = Fraction(0)
    for i, d in enumerate(whole + fr):
        k = gen.DIGITS.find(d.upper())
        if not 0 <= k < b:
            return None, 0
        v = v * b + k
    v /= b ** len(fr)
    return (-v if neg else v), len(fr)


GROUPS = [('shown', shown, 3), ('rounds', rounds, 2), ('exact', exact, 2), ('bases', bases, 2)]
