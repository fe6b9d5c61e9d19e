"""Bitwise operators."""
from fractions import Fraction

from vlib import gen, sut
from vlib.gen import Node
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard

RULE = ('expressions of bitwise operators over integers in decimal, binary, hexadecimal and octal, positive and negative, up to 90 digits; '
        'value against Python integers, width and text of binary results against a width model, identities on random operands. '
        'Non-trivial: two operators or an operand above 15.')
ASSUMPTIONS = ['results within 95 digits']


def enc(v, kind):
    sign = '-' if v < 0 else ''
    a = abs(v)
    return sign + {'decimal': str(a), 'binary': '0b' + format(a, 'b'), 'hexadecimal': '0x' + format(a, 'X'), 'octal': '0o' + format(a, 'o')}[kind]


def operand(s, kinds, neg=True, big=True):
    k = s.pick([3, 4, 8, 16, 33, 64, 65, 128, 280] if big else [3, 8, 16])
    c = s.draw(4)
    if c == 0:
        v = s.draw(15)
    elif c == 1:
        v = 2 ** s.int(0, k) + s.sint(-1, 1)
    else:
        v = s.draw(2 ** k - 1)
    v = max(v, 0)
    kind = s.pick(kinds)
    width = None
    txt = enc(v, kind)
    if kind == 'binary' and s.bool(1, 3):
        z = s.int(1, 6)
        txt = '0b' + '0' * z + txt[2:]
    if kind == 'binary':
        width = len(txt) - 2
    else:
        width = v.bit_length()
    if neg and v and s.bool(1, 5):
        v = -v
        txt = '-' + txt
    return txt, v, width, kind


class N:
    """A value with the width and notation the calculator should give it."""

    def __init__(self, toks, v, width, kind, ops=0, lv=-1):
        self.toks, self.v, self.width, self.kind, self.ops, self.lv = toks, v, width, kind, ops, lv


def tree(s, depth, kinds):
    if depth == 0 or s.bool(1, 4):
        t, v, w, k = operand(s, kinds, big=depth > 0)
        return N([t], v, w, k)
    op = s.pick(['&', '|', '^^', '<<', '>>', '~'])
    if op == '~':
        a = tree(s, depth - 1, kinds)
        if a.v < 0:
            a = N(['7'], 7, 3, 'decimal')
        w = max(a.width, a.v.bit_length())
        v = ~a.v & (2 ** w - 1)
        tk = a.toks if a.lv <= 1 else ['('] + a.toks + [')']
        return N(['~'] + tk, v, w, a.kind, a.ops + 1, 1)
    a = tree(s, depth - 1, kinds)
    if op in ('<<', '>>'):
        sh = s.draw(s.pick([3, 8, 64, 200]))
        kind = s.pick(kinds)
        if kind == 'binary':
            tb, wb = enc(sh, kind), len(enc(sh, kind)) - 2
        else:
            tb, wb = enc(sh, kind), sh.bit_length()
        b = N([tb], sh, wb, kind)
        v = a.v << sh if op == '<<' else a.v >> sh
    else:
        b = tree(s, depth - 1, kinds)
        v = {'&': a.v & b.v, '|': a.v | b.v, '^^': a.v ^ b.v}[op]
    if abs(v) >= 10 ** 95:
        raise Discard()
    lv = gen.LEVEL[op]
    ta = a.toks if a.lv <= lv else ['('] + a.toks + [')']
    tb = b.toks if b.lv < lv else ['('] + b.toks + [')']
    kind = a.kind if a.kind != 'decimal' else b.kind
    return N(ta + [op] + tb, v, max(a.width, b.width), kind, a.ops + b.ops + 1, lv)


def text_of(n):
    a = abs(n.v)
    sign = '-' if n.v < 0 else ''
    if n.kind == 'binary':
        return sign + '0b' + format(a, 'b').zfill(n.width)
    return enc(n.v, n.kind)


def c_tree(s, t):
    calc = t.env.calc('Computing')
    kinds = s.pick([['decimal'], ['binary'], ['decimal', 'binary'], ['decimal', 'binary', 'hexadecimal', 'octal']])
    n = tree(s, s.int(1, 4), kinds)
    src = gen.ws(s, n.toks)
    t.show(src)
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    check(isinstance(got[0], Number) and frac(got[0]) == n.v, '{} should be {} but is {}', src, Fraction(n.v), got[0])
    txt = got[0].to_string(calc)
    w = text_of(n)
    check(txt == w, '{} should be shown as {} but is {}', src, w, txt)
    if n.ops >= 2 or abs(n.v) > 15:
        t.nt()


def c_not(s, t):
    """~ flips the bits of the written width; refuses negative and fractional operands."""
    calc = t.env.calc('Computing')
    txt, v, w, kind = operand(s, ['decimal', 'binary', 'hexadecimal', 'octal'])
    if s.bool(1, 6):
        src = '~(' + txt + s.pick([' + 1/2', ' - 1/3', ' + 0.25']) + ')'
        t.show(src)
        got = sut.last(calc, src)
        check(isinstance(got, Err), '{} must be refused but gives {}', src, got)
        return
    src = '~' + txt
    t.show(src)
    got = sut.last(calc, src)
    if v < 0:
        check(isinstance(got, Err), '{} must be refused but gives {}', src, got)
        return
    want = (2 ** w - 1) ^ v
    check(not isinstance(got, Err) and frac(got[0]) == want, '{} should be {} but is {}', src, Fraction(want), got if isinstance(got, Err) else got[0])
    x = got[0].to_string(calc)
    ww = text_of(N([], want, w, kind))
    check(x == ww, '{} should be shown as {} but is {}', src, ww, x)
    if kind == 'binary':
        b = sut.last(calc, '~~' + txt)
        check(not isinstance(b, Err) and b[0].to_string(calc) == txt, '~~{} should be {} but is {}', txt, txt, b if isinstance(b, Err) else b[0].to_string(calc))
    if v > 15:
        t.nt()


def c_laws(s, t):
    calc = t.env.calc('Computing')
    kinds = ['decimal', 'binary', 'hexadecimal', 'octal']
    a, b, c = (operand(s, kinds) for _ in range(3))
    k = s.draw(100)
    laws = ['{a} & {b} == {b} & {a}', '({a} & {b}) == ({b} & {a})', '({a} | {b}) == ({b} | {a})', '({a} ^^ {b}) == ({b} ^^ {a})', '({a} & ({b} | {c})) == (({a} & {b}) | ({a} & {c}))',
            '(({a} ^^ {b}) ^^ {b}) == {a}', '({a} | ({a} & {b})) == {a}', '({a} & ({a} | {b})) == {a}', '({a} + {b}) == (({a} ^^ {b}) + 2 * ({a} & {b}))',
            '({a} << {k} >> {k}) == {a}', '({a} << {k}) == ({a} * 2^{k})', '({a} >> {k}) == (floor({a} / 2^{k}))', '({a} | {b}) == (({a} ^^ {b}) + ({a} & {b}))']
    law = s.pick(laws[1:])
    if abs(a[1]) > 10 ** 60 and '<<' in law:
        raise Discard()
    src = law.format(a=a[0], b=b[0], c=c[0], k=k)
    t.show(src)
    got = sut.last(calc, src)
    check(not isinstance(got, Err), '{} was refused: {}', src, got)
    check(got[0] is True, '{} should be true but is {}', src, got[0])
    t.nt()


def c_refused(s, t):
    calc = t.env.calc('Computing')
    a = operand(s, ['decimal', 'binary', 'hexadecimal'])[0]
    op = s.pick(['<<', '>>'])
    b = s.pick(['-{}', '(0 - {})', '({} + 0.5)', '({}/0)', '-{}.5']).format(s.int(1, 50))
    src = a + ' ' + op + ' ' + b
    t.show(src)
    got = sut.last(calc, src)
    check(isinstance(got, Err), '{} must be refused but gives {}', src, got)
    t.nt()


GROUPS = [('expressions', c_tree, 6), ('not', c_not, 2), ('laws', c_laws, 2), ('refused', c_refused, 1)]
