"""Number notations."""
import re
from fractions import Fraction

from vlib import gen, prog, sut
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard
from props.N02 import show

RULE = ('literals of every notation and base (case, sign, fraction, leading zeros), conversions by function and by "as", chains of '
        'conversions and operations mixing notations; oracle is a positional encoder/decoder written independently. Non-trivial: a '
        'notation other than decimal with at least two digits, or a fraction or sign.')
ASSUMPTIONS = ['at most 36 integer digits and 24 fractional digits per literal; text compared exactly when the value has at most 30 digits after the point in the notation']

KINDS = ['decimal', 'binary', 'hexadecimal', 'octal', 'percentage', 'scientific', 'arb']
BASES = {'binary': 2, 'octal': 8, 'hexadecimal': 16}
PREFIX = {'binary': '0b', 'octal': '0o', 'hexadecimal': '0x'}
PLACES = 30


def positional(v, base, places=PLACES):
    """Digits of |v| in the base, or None if they do not end within the places."""
    v = abs(v)
    whole = v.numerator // v.denominator
    f = v - whole
    out = ''
    while True:
        out = gen.DIGITS[whole % base] + out
        whole //= base
        if not whole:
            break
    fr = ''
    for _ in range(places):
        if f == 0:
            break
        f *= base
        d = f.numerator // f.denominator
        fr += gen.DIGITS[d]
        f -= d
    if f != 0:
        return None
    return out, fr


def expected(v, kind, base=None, width=None):
    """The text of v in the notation, None if it cannot be shown completely."""
    sign = '-' if v < 0 else ''
    if kind == 'decimal':
        return prog.num_text(v)
    if kind == 'percentage':
        return prog.num_text(v * 100) + '%'
    if kind == 'scientific':
        if v == 0:
            return '0E0'
        e = 0
        m = abs(v)
        d = len(str(m.numerator)) - len(str(m.denominator))
        m /= Fraction(10) ** d
        e = d
        while m >= 10:
            m /= 10
            e += 1
        while m < 1:
            m *= 10
            e -= 1
        p = positional(m, 10)
        if p is None:
            return None
        return sign + p[0] + ('.' + p[1] if p[1] else '') + 'E' + str(e)
    b = base or BASES[kind]
    p = positional(v, b)
    if p is None:
        return None
    ip = p[0]
    if width:
        ip = ip.zfill(width)
    return sign + (PREFIX.get(kind) or (str(b) + 'z')) + ip + ('.' + p[1] if p[1] else '')


def tolerance(v, kind, base=None):
    if kind == 'scientific':
        return abs(v) / Fraction(10) ** (PLACES - 1)
    if kind == 'percentage':
        return Fraction(1, 100 * 10 ** PLACES)
    return Fraction(1, (base or BASES.get(kind, 10)) ** PLACES)


def shown(calc, src, value, v, kind, base=None, width=None):
    """Check the text of a result, and that it parses back."""
    check(isinstance(value, Number), '{} gives no number: {}', src, value)
    check(frac(value) == v, '{} should be {} but is {}', src, v, value)
    txt = value.to_string(calc)
    want = expected(v, kind, base, width)
    if want is not None:
        check(txt == want, '{} is {} and should be shown as {} but is shown as {}', src, v, want, txt)
    check(frac(value) == v and value.to_string(calc) == txt, 'showing {} changed it', src)
    back = sut.last(calc, txt)
    check(not isinstance(back, Err), '{} is shown as {}, which is refused', src, txt)
    b = frac(back[0])
    if want is not None and not (kind in ('decimal', 'percentage') and b != v):
        check(b == v, '{} is {}, shown as {}, which means {}', src, v, txt, b)
        check(back[0].to_string(calc) == txt, '{} shown again is {}', txt, back[0].to_string(calc))
    else:
        check(abs(b - v) < tolerance(v, kind, base) or b == v, '{} is {}, shown as {}, which means {}', src, v, txt, b)
    return txt


def c_literal(s, t):
    calc = t.env.calc('Computing')
    l = gen.notation_lit(s, KINDS, maxint=12, maxfrac=8)
    t.show(l.text)
    got = sut.last(calc, l.text)
    check(not isinstance(got, Err), '{} was refused: {}', l.text, got)
    shown(calc, l.text, got[0], l.val, l.kind, l.base if l.kind == 'arb' else None, l.width)
    # the literal as an operand
    k = s.pick([1, 2, 3, 10, 7])
    op = s.pick(['+', '-', '*'])
    src = '{} {} {}'.format(k, op, l.text)
    g = sut.last(calc, src)
    w = {'+': k + l.val, '-': k - l.val, '*': k * l.val}[op]
    check(not isinstance(g, Err), '{} was refused: {}', src, g)
    shown(calc, src, g[0], w, l.kind, l.base if l.kind == 'arb' else None)
    # numbers in strings
    src = "'" + l.text + "' " + op + ' ' + str(k)
    g = sut.last(calc, src)
    w = {'+': l.val + k, '-': l.val - k, '*': k * l.val}[op]
    check(not isinstance(g, Err) and frac(g[0]) == w, '{} should be {} but is {}', src, w, g if isinstance(g, Err) else g[0])
    if l.kind != 'decimal' and (len(l.text) > 4 or l.val < 0):
        t.nt()


FUNCS = {'hexadecimal': 'hex', 'octal': 'oct', 'binary': 'bin', 'decimal': 'dec', 'scientific': 'scientific'}


def operand(s):
    """(text, value, kind, base) of a value in some notation."""
    l = gen.notation_lit(s, KINDS, maxint=8, maxfrac=5)
    text, v, kind = l.text, l.val, l.kind
    if s.bool(1, 3):
        d = s.pick([2, 3, 4, 5, 7, 8, 16, 10])
        op = s.pick('/*+-')
        text = '({} {} {})'.format(text, op, d)
        v = {'/': v / d, '*': v * d, '+': v + d, '-': v - d}[op]
    return text, v, kind, l.base if kind == 'arb' else None


def c_convert(s, t):
    calc = t.env.calc('Computing')
    text, v, kind, base = operand(s)
    src = text
    width = None
    for _ in range(s.int(1, 3)):
        k = s.pick(['hexadecimal', 'octal', 'binary', 'decimal', 'scientific', 'percentage'])
        if k in FUNCS and s.bool():
            src = FUNCS[k] + '(' + src + ')'
        else:
            src = src + ' as ' + k
            if s.bool():
                src = '(' + src + ')'
            elif s.bool(1, 3):
                pass
        kind, base = k, None
    unit = s.bool(1, 6)
    if unit and kind == 'hexadecimal' and ' as ' in src:
        pass
    t.show(src)
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    check(isinstance(got[0], Number), '{} gives no number: {}', src, got[0])
    if ' as binary' in src or 'bin(' in src:
        # a binary literal converted to binary keeps its width or not: only the value is specified
        check(frac(got[0]) == v, '{} should be {} but is {}', src, v, got[0])
    else:
        shown(calc, src, got[0], v, kind, base)
    if kind != 'decimal' and gen.cost(v) > 3:
        t.nt()


def c_binary(s, t):
    calc = t.env.calc('Computing')
    l = gen.notation_lit(s, ['decimal', 'hexadecimal', 'octal', 'percentage', 'scientific', 'arb'], maxint=8, maxfrac=5)
    src = s.pick(['bin({})', '{} as binary', '({}) as binary', 'bin(({}))']).format(l.text)
    t.show(src)
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    shown(calc, src, got[0], l.val, 'binary')
    t.nt()


def c_base(s, t):
    calc = t.env.calc('Computing')
    text, v, kind, base = operand(s)
    b = s.int(2, 36)
    src = 'base({}, {})'.format(text, b)
    t.show(src)
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    txt = got[0]
    check(isinstance(txt, str), '{} gives no text: {}', src, txt)
    want = expected(v, 'arb', b)
    if b == 10:
        d = prog.num_text(v)
        want = '-10z' + d[1:] if d[0] == '-' else '10z' + d
    if want is not None:
        check(txt == want, '{} should be {} but is {}', src, want, txt)
    back = sut.last(calc, txt)
    check(not isinstance(back, Err), '{} gives {}, which is refused', src, txt)
    d = frac(back[0])
    check(d == v if want is not None and b != 10 else abs(d - v) <= Fraction(1, b ** PLACES), '{} gives {}, which means {} and not {}', src, txt, d, v)
    t.nt()


def c_result(s, t):
    """The result of operations is in the notation of the first operand not in plain decimal."""
    calc = t.env.calc('Computing')
    n = s.int(2, 4)
    ls = [gen.notation_lit(s, KINDS, maxint=5, maxfrac=2) for _ in range(n)]
    if s.bool(1, 3):
        return array_result(s, t, calc, ls)
    ops = [s.pick('+-*/') for _ in range(n - 1)]
    src = ls[0].text
    v = ls[0].val
    for o, l in zip(ops, ls[1:]):
        src = '(' + src + ' ' + o + ' ' + l.text + ')'
        if o == '/':
            if l.val == 0:
                raise Discard()
            v /= l.val
        else:
            v = v + l.val if o == '+' else v - l.val if o == '-' else v * l.val
    first = next((l for l in ls if l.kind != 'decimal'), ls[0])
    t.show(src)
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    shown(calc, src, got[0], v, first.kind, first.base if first.kind == 'arb' else None)
    if len(set(l.kind for l in ls)) > 1:
        t.nt()


def array_result(s, t, calc, ls):
    """Array functions, of an array, of a variable or of separate numbers."""
    # the mean of three has more digits than there are
    f = s.pick(['sum', 'min', 'max', 'median', 'sum' if len(ls) == 3 else 'mean'])
    vs = sorted(l.val for l in ls)
    n = len(vs)
    v = {'sum': sum(vs), 'mean': sum(vs) / n, 'min': vs[0], 'max': vs[-1], 'median': vs[n // 2] if n % 2 else (vs[n // 2 - 1] + vs[n // 2]) / 2}[f]
    if f in ('mean', 'median') and 10 ** 40 % v.denominator:
        raise Discard()
    text = ', '.join(l.text for l in ls)
    k = s.draw(2)
    if k == 0:
        src = '{}([{}])'.format(f, text)
    elif k == 1:
        src = '{}({})'.format(f, text)
    else:
        calc.calculate('x_n = [{}]'.format(text))
        src = f + '(x_n)'
    t.show(src + ' of ' + text)
    first = next((l for l in ls if l.kind != 'decimal'), ls[0])
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} of {} was refused: {}', src, text, got)
    if first.kind == 'binary' and v.denominator == 1:
        # numbers picked from the array keep their width
        txt = got[0].to_string(calc)
        check(frac(got[0]) == v and re.fullmatch('-?0b[01]+', txt) and int(txt, 2) == v, '{} of {} should be {} in binary but is shown as {}', src, text, v, txt)
    elif first.kind == 'binary':
        txt = got[0].to_string(calc)
        check(frac(got[0]) == v and txt.lstrip('-').startswith('0b'), '{} of {} should be {} in binary but is shown as {}', src, text, v, txt)
    else:
        shown(calc, '{} of {}'.format(src, text), got[0], v, first.kind, first.base if first.kind == 'arb' else None)
    if len(set(l.kind for l in ls)) > 1:
        t.nt()


def c_scientific(s, t):
    """scientific(x, places) rounds the mantissa."""
    calc = t.env.calc('Computing')
    v = Fraction(s.int(1, 10 ** s.pick([1, 3, 8])), 10 ** s.draw(8))
    if s.bool(1, 3):
        v = -v
    p = s.draw(12)
    src = 'scientific({}, {})'.format(show(s, v), p)
    t.show(src)
    e = 0
    m = abs(v)
    while m >= 10:
        m /= 10
        e += 1
    while m < 1:
        m *= 10
        e -= 1
    q = m * 10 ** p + Fraction(1, 2)
    r = Fraction(q.numerator // q.denominator, 10 ** p) * Fraction(10) ** e
    if v < 0:
        r = -r
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    shown(calc, src, got[0], r, 'scientific')
    if r != v:
        t.nt()


def c_refused(s, t):
    calc = t.env.calc('Computing')
    k = s.draw(3)
    if k == 0:
        b = s.pick([0, 1, 37, 38, 64, 100, s.int(37, 10 ** 6)])
        src = '{}z{}'.format(b, s.pick(['1', '10', 'Z', '7.5']))
    elif k == 1:
        b = s.int(2, 35)
        digs = [gen.DIGITS[s.draw(b - 1)] for _ in range(s.int(0, 4))]
        digs.insert(s.draw(len(digs)), gen.DIGITS[s.int(b, 35)])
        src = '{}z{}'.format(b, ''.join(digs))
    elif k == 2:
        src = 'base({}, {})'.format(s.draw(999) + 1, s.pick([0, 1, 37, 40, s.int(37, 1000), -2]))
    else:
        src = '{} as {}'.format(s.draw(99), s.pick(['arbitrarybase', 'boolean', 'binaryy', 'foo', 'hex', '2']))
    t.show(src)
    got = sut.last(calc, src)
    check(isinstance(got, Err), '{} must be refused but gives {}', src, got)
    t.nt()


PLAIN = re.compile(r'(?<![\w.$%])\d+(?:\.\d+)?(?![\w.%])')
TEXTS = {'str', 'text', 'qtext', 'pattern', 'date', 'strs'}


def other(s, text):
    """A plain number in another notation."""
    f = Fraction(text)
    k = s.draw(5)
    if k == 0:
        e = s.int(-3, 3)
        x = f / Fraction(10) ** e
        return decimal_text(x) + 'E' + str(e)
    if k == 1:
        return decimal_text(f * 100) + '%'
    base = [2, 8, 16, None][k - 2]
    if base is None:
        base = s.int(2, 36)
        pre = str(base) + 'z'
    else:
        pre = {2: '0b', 8: '0o', 16: '0x'}[base]
    if (f * base ** 6).denominator != 1:
        return decimal_text(f * 100) + '%'
    n = int(f * base ** 6)
    out = ''
    for i in range(6):
        out = gen.DIGITS[n % base] + out
        n //= base
    whole = ''
    while n:
        whole = gen.DIGITS[n % base] + whole
        n //= base
    out = out.rstrip('0')
    return pre + (whole or '0') + ('.' + out if out else '')


def decimal_text(f):
    p = 0
    while (f * 10 ** p).denominator != 1:
        p += 1
    d = str((f * 10 ** p).numerator).zfill(p + 1)
    return d[:len(d) - p] + '.' + d[len(d) - p:] if p else d


def operands(s, t):
    """A call with some of its numbers in other notations."""
    from props import K01
    c = t.env.calc('Computing')
    if s.bool(2, 3):
        f = s.pick([n for n in K01.NAMES if any(sl not in TEXTS for sl in K01.FUNCS[n][0]) and n != 'format'] + K01.SPECIAL)
        if f in K01.FUNCS:
            slots, least, _ = K01.FUNCS[f]
            slots = slots[:s.int(max(1, least), len(slots))]
        else:
            slots = ['num'] * K01.PARAMS[f]
            if c.funcs.get(f) is None:
                raise Discard()
    else:
        f = None
        o = s.pick(K01.OPNAMES)
        slots = K01.OPS[o][:2]
    a, b = [], []
    for i, sl in enumerate(slots):
        x = K01.SLOT[sl][0](s)
        y = x
        # these work in places of the notation, or show the number
        if sl not in TEXTS and not (f in ('round', 'floor', 'ceil', 'scientific', 'base', 'bin', 'oct', 'hex') and i == 0):
            y = PLAIN.sub(lambda m: other(s, m.group()) if s.bool(2, 3) else m.group(), x)
        a.append(x)
        b.append(y)
    if a == b:
        raise Discard()
    if f is None:
        one, two = '{} {} {}'.format(a[0], o, a[1]), '{} {} {}'.format(b[0], o, b[1])
    else:
        one, two = '{}({})'.format(f, ', '.join(a)), '{}({})'.format(f, ', '.join(b))
    c.calculate('reset(); x_v = 5' if f == 'delete' else 'reset()')
    t.show(one + '   ' + two)
    x, y = sut.last(c, one), sut.last(c, two)
    if isinstance(x, sut.Err):
        t.label('refused')
        check(isinstance(y, sut.Err), '{} is refused, but {} gives {}', one, two, None if isinstance(y, sut.Err) else sut.model(y[0]))
        return
    t.nt()
    check(not isinstance(y, sut.Err), '{} gives {}, but {} is refused: {}', one, sut.model(x[0]), two, y)
    check(sut.model(x[0]) == sut.model(y[0]) and unit_of(x) == unit_of(y), '{} gives {}, but {} gives {}', one, sut.model(x[0]), two, sut.model(y[0]))


def unit_of(r):
    return None if r[1] is None else sut.unitpowers(r[1])


GROUPS = [('literal', c_literal, 5), ('convert', c_convert, 4), ('to-binary', c_binary, 1), ('base', c_base, 2), ('result', c_result, 4), ('scientific', c_scientific, 1), ('refused', c_refused, 1), ('operands', operands, 3)]
