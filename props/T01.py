"""String literals, functions and comparisons are faithful."""
from fractions import Fraction

from vlib import gen, prog, sut
from vlib.prog import Ctx
from vlib.sut import check, Err, Number, frac

RULE = ('texts of 0 to 40 (some of up to 2000) arbitrary characters (quotes, backslashes, line breaks, brackets, operators, comment signs, non-ASCII, words of the language), numbers in all '
        'notations, and random positions, vs a reference on lists of characters; trees of string operations. Non-trivial: a text with at least 3 characters.')

PIECES = ["'", '\\', '\n', '\t', '#', '(', ')', '[', ']', '{', '}', ',', '@', '+$', '*$', '==$', ' ', '  ', 'a', 'A', 'b', 'B', 'z', '0', '1', '12', '0x1F', '.', '..', '-', '%', 'é', 'É', 'ß', 'ö', 'İ', 'ı', 'Σ',
          'ς', 'ﬁ', '\u00a0', '日本', '\U0001f600', 'e\u0301', '\r', '"', '`', '$', '~', 'true', 'step', 'else', 'and', 'PARAM1', '\\n', "\\'", '1E3', 'km', '=', ';', 'abc', 'ABC', 'aXa', 'aa', '\x00', '\u2028', '\ufeff']


def text(s, hi=10):
    k = s.draw(9)
    if hi >= 10 and s.bool(1, 7):
        # a long one
        x = ''.join(s.pick(PIECES) for _ in range(s.int(1, 20)))
        n = s.int(60, s.pick([140, 300, 700, 2000]))
        x = (x * (n // len(x) + 1))[:n]
        i = s.draw(n)
        return s.pick(['', 'b', text(s, 4)]) + x[:i] + text(s, 4) + x[i:] + s.pick(['', 'b', text(s, 4)])
    if k == 0:
        return ''
    if k == 1:
        return ''.join(chr(s.weighted([(6, s.int(32, 126)), (2, s.int(0, 0x2ff)), (1, s.int(0x300, 0xd7ff)), (1, s.int(0x10000, 0x1ffff))])) for _ in range(s.int(1, hi)))
    if k < 5:
        return ''.join(s.pick('aAbB12 ') for _ in range(s.int(1, hi)))
    return ''.join(s.pick(PIECES) for _ in range(s.int(1, hi)))


def literal(s, x):
    """A literal for x, with redundant backslashes."""
    out = "'"
    extra = {s.draw(len(x)) for _ in range(s.draw(9))} if len(x) > 60 else None
    for i, c in enumerate(x):
        if c in "\\'" or (s.bool(1, 12) if extra is None else i in extra):
            out += '\\'
        out += c
    return out + "'"


def run(t, s, setup, expr):
    calc = t.env.calc()
    calc.vars = {}
    full = setup + expr
    t.show(full)
    return sut.last(calc, full), full


def expect(got, want, full):
    check(not isinstance(got, Err), '{} fails: {}; expected {}', full, got, want)
    v, u = got
    check(u is None, '{} has the unit {}', full, u)
    if isinstance(want, bool):
        check(v is want, '{} is {} instead of {}', full, v, want)
    elif isinstance(want, int):
        check(isinstance(v, Number) and frac(v) == want, '{} is {} instead of {}', full, v, want)
    else:
        check(isinstance(v, str) and v == want, '{} is {} instead of {}', full, v, want)


def literals(s, t):
    """A literal is its characters, anywhere in a program."""
    x = text(s)
    lit = literal(s, x)
    if len(x) >= 3:
        t.nt()
    k = s.draw(8)
    other = text(s, 4)
    if k == 0:
        got, full = run(t, s, '', lit)
        expect(got, x, full)
    elif k == 1:
        got, full = run(t, s, 'v = {}\n1 + 1 # {}\n'.format(lit, 'comment'), 'v')
        expect(got, x, full)
    elif k == 2:
        got, full = run(t, s, '', '[{}, {}]'.format(lit, literal(s, other)))
        check(not isinstance(got, Err), '{} fails: {}', full, got)
        check([e.value for e in got[0]] == [x, other], '{} is {}', full, [e.value for e in got[0]])
    elif k == 3:
        got, full = run(t, s, '', 'element([1, {}, 2], 2)'.format(lit))
        expect(got, x, full)
    elif k == 4:
        got, full = run(t, s, 'f = {{ PARAM1 +$ {} }}\n'.format(literal(s, other)), '@f({})'.format(lit))
        expect(got, x + other, full)
    elif k == 5:
        got, full = run(t, s, '', '({}) +$ {}'.format(lit, literal(s, other)))
        expect(got, x + other, full)
    elif k == 6:
        # a literal that is not closed
        body = lit[:-1]
        if s.bool():
            body += '\\\''
        full = '1 +$ ' + body
        t.show(full)
        calc = t.env.calc()
        calc.vars = {}
        got = sut.last(calc, full)
        check(isinstance(got, Err), '{} is {}', full, got)
    else:
        got, full = run(t, s, '\n\n', 'true then {} else {}'.format(lit, literal(s, other)))
        expect(got, x, full)


# -- the reference: texts are lists of characters -----------------------------

def find(a, b):
    n, m = len(a), len(b)
    for i in range(n - m + 1):
        if all(a[i + j] == b[j] for j in range(m)):
            return i
    return -1


def replace(a, b, c):
    out, i = [], 0
    while i < len(a):
        if a[i:i + len(b)] == b:
            out += c
            i += len(b)
        else:
            out.append(a[i])
            i += 1
    return out


def lstrip(a, b):
    i = 0
    while i < len(a) and a[i] in b:
        i += 1
    return a[i:]


def substr(a, start, end=None):
    n = len(a)
    lo = start if start >= 0 else n + start
    hi = n - 1 if end is None else (end if end >= 0 else n + end)
    return [c for i, c in enumerate(a) if lo <= i <= hi]


def operand(s, t, hi=10):
    """(text of the operand, its characters)"""
    k = s.draw(9)
    if k >= 8:
        calc = t.env.calc()
        calc.vars = {}
        if s.bool():
            v = Fraction(s.int(-9999, 99999), s.pick([1, 1, 10, 1000]))
            return '({})'.format(prog.num_text(v)), prog.num_text(v)
        x = s.pick(['0x1F', '0b101', '1/3', '5%', '2/7', '1E20', '0o17', '36zABC', '1.50', '007', '2E-3', '100000000000000000000', '-0.5', '(3 as percentage)'])
        r = sut.last(calc, x)
        return '({})'.format(x), sut.text(r[0], calc)
    x = text(s, hi)
    return literal(s, x), x


def functions(s, t):
    f = s.pick(['length', 'lower', 'upper', 'lstrip', 'rstrip', 'strip', 'find', 'replace', 'substr', 'substr2', '+$', '*$'])
    t.label(f)
    lit, x = operand(s, t)
    a = list(x)
    if len(a) >= 3:
        t.nt()

    def part():
        """A text likely to occur in x."""
        if x and s.bool(2, 3):
            i = s.draw(len(x) - 1)
            y = x[i:i + s.int(1, 3)]
            return literal(s, y), list(y)
        l, y = operand(s, t, 3)
        return l, list(y)
    if f in ('length', 'lower', 'upper'):
        expr = '{}({})'.format(f, lit)
        want = len(a) if f == 'length' else x.lower() if f == 'lower' else x.upper()
    elif f in ('lstrip', 'rstrip', 'strip'):
        l, b = part()
        expr = '{}({}, {})'.format(f, lit, l)
        r = a
        if f != 'rstrip':
            r = lstrip(r, b)
        if f != 'lstrip':
            r = lstrip(r[::-1], b)[::-1]
        want = ''.join(r)
    elif f == 'find':
        l, b = part()
        expr, want = 'find({}, {})'.format(lit, l), find(a, b)
    elif f == 'replace':
        l, b = part()
        lc, c = operand(s, t, 4)
        if not b:
            return
        expr, want = 'replace({}, {}, {})'.format(lit, l, lc), ''.join(replace(a, b, list(c)))
    elif f == 'substr':
        i = s.int(-len(a) - 3, len(a) + 3)
        expr, want = 'substr({}, {})'.format(lit, i), ''.join(substr(a, i))
    elif f == 'substr2':
        i, j = s.int(-len(a) - 3, len(a) + 3), s.int(-len(a) - 3, len(a) + 3)
        expr, want = 'substr({}, {}, {})'.format(lit, i, j), ''.join(substr(a, i, j))
    elif f == '+$':
        l, b = operand(s, t)
        expr, want = '{} +$ {}'.format(lit, l), ''.join(a + list(b))
    else:
        n = s.int(0, 6) if s.bool(7, 8) or len(a) > 20 else s.int(7, 300)
        expr, want = '{} *$ {}'.format(lit, n), ''.join(a * n)
    got, full = run(t, s, '', expr)
    expect(got, want, full)


def order(a, b):
    """-1, 0, 1: the order of the characters' code points."""
    for x, y in zip(a, b):
        if x != y:
            return -1 if ord(x) < ord(y) else 1
    return (len(a) > len(b)) - (len(a) < len(b))


WANT = {'<': (-1,), '==': (0,), '>': (1,), '<=': (-1, 0), '>=': (0, 1), '!=': (-1, 1)}


def comparisons(s, t):
    la, a = operand(s, t)
    k = s.draw(4)
    if k == 0:
        b = a
        lb = literal(s, b)
    elif k == 1:
        b = ''.join(c.swapcase() if s.bool() else c for c in a)
        lb = literal(s, b)
    elif k == 2:
        i = s.draw(len(a))
        b = a[:i] + s.pick(['', 'a', ' ', 'Z']) + a[i + s.draw(1):]
        lb = literal(s, b)
    else:
        lb, b = operand(s, t)
    if len(a) >= 3:
        t.nt()
    ops = list(WANT)
    expr = '[' + ', '.join('{} {}$ {}, {} {}~ {}'.format(la, o, lb, la, o, lb) for o in ops) + ']'
    want = []
    for o in ops:
        want += [order(a, b) in WANT[o], order(a.lower(), b.lower()) in WANT[o]]
    got, full = run(t, s, '', expr)
    check(not isinstance(got, Err), '{} fails: {}', full, got)
    res = [e.value for e in got[0]]
    check(res == want, '{} gives {} instead of {}', full, res, want)
    t.label('equal' if a == b else 'equal but for case' if a.lower() == b.lower() else 'different')


def trees(s, t):
    words = [text(s, 5) for _ in range(4)]
    ctx = Ctx({'v': ('str', words[0]), 'n': ('num', Fraction(7))}, ops=['str', 'strcmp', 'then', 'arith', 'cmp', 'bool'], words=words)
    node = prog.expr(s, s.pick(['str', 'str', 'bool']), s.int(1, 5), ctx)
    tk = gen.toks(node, s, s.draw(3))
    got, full = run(t, s, 'v = {}\nn = 7\n'.format(prog.quote(words[0])), s.pick([gen.join, gen.joinmin])(tk))
    check(not isinstance(got, Err), '{} fails: {}', full, got)
    check(prog.same(got[0], node.val), '{} is {} instead of {}', full, got[0], node.val)
    if len(tk) >= 4:
        t.nt()


GROUPS = [('literals', literals, 3), ('functions', functions, 4), ('comparisons', comparisons, 2), ('trees', trees, 2)]
