"""Errors point at the place that failed."""
import contextlib
import io

from modularcalculator.objects.exceptions import ExecutionException, ParsingException
from modularcalculator.objects.number import Number
from modularcalculator.services.syntaxhighlighter import SyntaxHighlighter

from vlib import gen, script, sut
from vlib.script import Stmt
from vlib.sut import check, Err
from props import S03

RULE = ('one failing operation (of 30 kinds) planted in 0 to 6 nested contexts (brackets, operands, arguments, array elements, ranges, branches, assignments, function bodies), '
        'between 0 to 3 statements before and 0 to 2 after it, with random layout; oracle: the error is at the planted operation, its items are the text before it, and the '
        'results of the statements before it are those without it. Non-trivial: at least 2 contexts.')


class Mark(str):
    """The token at which the failure must be reported."""
    __slots__ = ()


class P:
    """A failing expression."""
    __slots__ = ('toks', 'typ', 'parse', 'open')

    def __init__(self, toks, typ='num', parse=False, open=False):
        self.toks = toks
        self.typ = typ
        self.parse = parse      # fails before anything is executed
        self.open = open        # nothing may follow


def operands(g, calc):
    """Number expressions that succeed."""
    def n(d=1):
        x = g.par(g.num(d))
        r = sut.last(calc, gen.join(x))
        if isinstance(r, Err) or not isinstance(r[0], Number):
            return [str(g.s.int(1, 9))]
        return x
    return n


def plant(s, n):
    """A failing expression with its Mark."""
    lit = lambda: str(s.int(1, 9))
    k = s.draw(36)
    M = Mark
    if k < 4:
        return P(n(2) + [M('/'), '0'])
    if k < 6:
        return P(n(2) + [M(s.pick(['/', '\\', '%'])), '(', '2', '-', '2', ')'])
    if k == 6:
        return P(["'abc'", M(s.pick('+-*/'))] + n())
    if k == 7:
        return P(n() + [M(s.pick('+-*/')), "'abc'"])
    if k == 8:
        return P([M('log('), '0', ')'])
    if k == 9:
        return P([M('abs(')] + n() + [','] + n() + [')'])
    if k == 10:
        return P([M(s.pick(['round()', 'gcd()', 'upper()']))])
    if k == 11:
        return P(['[', lit(), ',', lit(), ']', M(s.pick('+-*/')), '[', lit(), ']'], 'arr')
    if k == 12:
        return P([lit(), 'm', M(s.pick('+-')), lit(), 'seconds'], 'other')
    if k == 13:
        return P([lit(), 'm', M('to'), 'seconds'], 'other')
    if k == 14:
        return P([lit(), 'm', M(s.pick('+-')), lit()], 'other')
    if k == 15:
        return P([M('@nosuch(')] + n() + [')'])
    if k == 16:
        return P(['('] + n() + [M(s.pick('+-*/^%')), ')'])
    if k == 17:
        return P(['(', M(s.pick('*/^%'))] + n() + [')'])
    if k == 18:
        return P(['nosuch', M(s.pick('+-*/'))] + n())
    if k == 19:
        return P([M('@bad(')] + n() + [')'])
    if k == 20:
        return P([M('element('), '[', lit(), ',', lit(), ']', '/', '[', '0', ',', '4', ']', ',', '1', ')'])
    if k == 21:
        return P([M('element('), '['] + n() + [','] + n() + [']', ',', s.pick(['3', '0', '-1', "'a'"]), ')'])
    if k == 22:
        return P([M('sum('), '[', lit(), ',', "'abc'", ']', ')'])
    if k == 23:
        return P([M('sum('), '[', lit(), ',', lit(), ']', '/', '[', '0', ',', '4', ']', ')'])
    if k == 24:
        return P(["'yes'", M('then'), lit(), 'else', lit()])
    if k == 25:
        return P(['true', M(s.pick(['and', 'xor'])), "'maybe'"], 'bool')
    if k == 26:
        return P(["'2020-02-31'", M(s.pick(['+%', '-%'])), '3', 'days'], 'other')
    if k == 27:
        return P([M('dateadd('), "'2020-02-28'", ',', '3', 'km', ')'], 'other')
    if k == 28:
        return P(["'a b'", M(s.pick(['&', '|', '^^', '<<', '>>']))] + n(0))
    if k == 29:
        return P([M('@five('), '1', ')'])
    if k == 30:
        return P(['not', '(', '1', M('/'), '0', ')'], 'bool')
    if k == 31:
        return P(["'abc'", M('=~'), "'[a-'"], 'bool')
    if k == 32:
        return P(['5', M(s.pick(['6', '0x1F', '2.5'])), '7'], parse=True)
    if k == 33:
        return P(n() + ['+', M(s.pick(['?', '"', ';', '$', '!'])), '7'], parse=True)
    if k == 34:
        return P([lit(), '+', M("'a b")], parse=True, open=True)
    if k == 35:
        # symbols of operators that are not there
        x = ['('] + n() + [M('else')] + n()
        for _ in range(s.draw(2)):
            x += ['else'] + n()
        return P(x + [')'])
    return P([M(s.pick(['(', '[', 'abs(', '{', '@five(']))] + n(), parse=True, open=True)


def unused(s, n):
    """A failing expression for places where it does not matter."""
    while True:
        p = plant(s, n)
        for _ in range(s.draw(2)):
            p = wrap(s, n, p)
        if not p.parse:
            break
    x = [str(w) for w in p.toks]
    return x if bare(p) and s.bool() else ['('] + x + [')']


def bare(p):
    return not any(w in ('then', 'as', 'to', 'and', 'or', 'xor', 'not') for w in p.toks)


def few(s, k):
    return s.int(3, 30) if s.bool(1, 12) else s.draw(k)


def wrap(s, n, p):
    """The failing expression in one more context."""
    X = p.toks
    B = ['('] + X + [')'] if not p.open else ['('] + X
    opts = [(4, 'par'), (4, 'left'), (4, 'right'), (3, 'arr'), (3, 'func'), (2, 'stat'), (2, 'call')]
    if p.typ in ('num', 'arr', 'other'):
        opts += [(1, 'fn1')]
    opts += [(1, 'range'), (1, 'step'), (1, 'from'), (1, 'then'), (1, 'else'), (1, 'cmp'), (1, 'str'), (1, 'as'), (1, 'unit'), (1, 'not'), (1, 'impl'), (1, 'date'), (1, 'concat'), (2, 'spared')]
    k = s.weighted(opts)
    t = 'num'
    if k == 'par':
        r, t = (['('], X, [')']), p.typ
    elif k == 'left':
        r = ([], B, [s.pick(['+', '-', '*', '/', '^', '%', '\\', '&', '<<'])] + n(1))
        if s.bool(1, 12):
            # many operands
            o = s.pick('+-*')
            r = ([], B, [x for _ in range(s.int(5, 60)) for x in (o, str(s.int(1, 9)))])
    elif k == 'right':
        r = (n(1) + [s.pick(['+', '-', '*', '/', '^', '%', '\\', '|', '>>'])], B, [])
        if s.bool(1, 12):
            o = s.pick('+-*')
            r = ([x for _ in range(s.int(5, 60)) for x in (str(s.int(1, 9)), o)], B, [])
    elif k == 'arr':
        r, t = (['['] + sep([n(1) for _ in range(few(s, 2))], True), X if s.bool() else B, sep([n(1) for _ in range(few(s, 2))], False) + [']']), 'arr'
    elif k == 'func':
        f = s.pick(['max', 'min', 'gcd', 'lcm', 'count', 'mode', 'sum'])
        r = ([f + '('] + sep([n(1) for _ in range(few(s, 2))], True), X if s.bool() else B, sep([n(1) for _ in range(few(s, 2))], False) + [')'])
    elif k == 'stat':
        f = s.pick(['max', 'min', 'sort', 'reverse', 'mean', 'median', 'stdev'])
        r = ([f + '(', '['] + sep([n(1) for _ in range(few(s, 2))], True), X if s.bool() else B, sep([n(1) for _ in range(few(s, 2))], False) + [']', ')'])
        t = 'arr' if f in ('sort', 'reverse') else 'num'
    elif k == 'call':
        r = (['@ok('] + sep([n(1) for _ in range(few(s, 1))], True), X if s.bool() else B, sep([n(1) for _ in range(few(s, 1))], False) + [')'])
    elif k == 'fn1':
        r = ([s.pick(['abs(', 'floor(', 'sin(', 'exp(', 'length(', 'upper(', 'round(', 'ceil('])], X, [')'])
    elif k == 'range':
        r, t = (['['] + sep([n(1) for _ in range(few(s, 1))], True) + ['1', '..'], B, [']']), 'arr'
    elif k == 'step':
        r, t = (['[', '1', '..', '5', 'step'], B, sep([n(1) for _ in range(few(s, 1))], False) + [']']), 'arr'
    elif k == 'from':
        r, t = (['['], B, ['..', '5'] + sep([n(1) for _ in range(few(s, 1))], False) + [']']), 'arr'
    elif k == 'then':
        r, t = (['true', 'then'], B, ['else'] + n(1)), p.typ
    elif k == 'else':
        r, t = (['false', 'then'] + n(1) + ['else'], B, []), p.typ
    elif k == 'spared':
        # other failures, which do not matter, come before and after
        Y = X if bare(p) and s.bool() else B
        j = s.draw(4)
        if j == 0:
            r = (['false', 'then'] + unused(s, n) + ['else'], Y, [])
        elif j == 1:
            r = (['true', 'then'], Y, ['else'] + unused(s, n))
        elif j == 2:
            r = (['(', 'false', 'and'] + unused(s, n) + [')', 'then'] + unused(s, n) + ['else'], Y, [])
        elif j == 3:
            r = (['(', 'true', 'or'] + unused(s, n) + [')', 'then'], Y, ['else'] + n(1))
        else:
            r = (['('] + ['false', 'then'] + unused(s, n) + ['else'] + n(1) + [')', '+'], B, [])
        t = p.typ
    elif k == 'cmp':
        r, t = (n(1) + [s.pick(['==', '!=', '<', '>='])], B, []) if s.bool() else ([], B, [s.pick(['==', '!=', '<', '>='])] + n(1)), 'bool'
    elif k == 'str':
        r, t = (["'a b'", '+$'], B, []) if s.bool() else ([], B, [s.pick(['+$', '==$', '=~', '>~']), "'a'"]), 'str'
    elif k == 'as':
        r = ([], B, ['as', s.pick(['decimal', 'hexadecimal', 'percentage'])])
    elif k == 'unit':
        r, t = ([], B, s.pick([['m'], ['km', '/', 'hour'], ['m', 'to', 'feet']])), 'other'
    elif k == 'not':
        r, t = (['not'], B, []), 'bool'
    elif k == 'impl':
        r = ([], B, ['('] + n(0) + [')']) if s.bool() else (['('] + n(0) + [')'], B, [])
    elif k == 'date':
        r, t = (["'2020-02-28'", '+%', '('], B, ['days', ')']), 'other'
    else:
        r, t = (['concat(', '[', '1', ']', ',', '['], B, [']', ')']), 'arr'
    a, x, b = r
    return P(a + x + ([] if p.open else b), t, p.parse, p.open)


def sep(parts, after):
    out = []
    for x in parts:
        out += x + [','] if after else [','] + x
    return out


def outcomes(resp, calc):
    return [(r.expression, sut.snap(r.value, r.unit, calc) if r.has_result() else None) for r in resp.results]


HL = SyntaxHighlighter()
SETUP = 'bad = { ( PARAM1 * 0 ) + 1 \n PARAM1 / 0 }\nok = { PARAM1 }\nfive = 5\n'


def planted(s, t):
    g = script.Gen(s)
    lines = []
    for st in g.program(0, 3):
        while s.bool(1, 8):
            lines.append(S03.blank(s))
        lines.append(S03.layout_of(s, st))
    pre = SETUP + ''.join(x + '\n' for x in lines)
    calc = t.env.calc()
    calc.vars = {}
    r0 = sut.run(calc, pre)
    if isinstance(r0, Err):
        return
    first = outcomes(r0, calc)

    n = operands(g, calc)
    p = plant(s, n)
    depth = s.draw(6)
    for _ in range(depth):
        p = wrap(s, n, p)
    toks = p.toks
    k = s.draw(6)
    if k < 2:
        toks = ['r', '='] + toks
    elif k == 2:
        toks = ['five', s.pick(['+=', '-=', '*='])] + (toks if p.open else ['('] + toks + [')'])
    elif k == 3 and p.parse:
        body = []
        for st in g.program(0, 2):
            body += st.toks + ['\n']
        toks = ['h', '=', '{'] + body + toks + ([] if p.open else ['}'])
    pre += s.pick(['', '', ' ', '\t'])
    tail = ''
    if not p.open:
        tail = s.pick(['', '', ' ', ' # comment']) if not p.parse else ''
        for st in g.program(0, 2):
            tail += '\n' + S03.layout_of(s, st)
    at = next(i for i, x in enumerate(toks) if isinstance(x, Mark))
    starts = []
    failing = S03.layout_of(s, Stmt(toks), starts)
    if p.open and "'" in failing[starts[at] + 1:]:
        return
    text = pre + failing + tail
    expect = len(pre) + starts[at]
    t.show(text)
    if depth >= 2:
        t.nt()
    t.label('depth {}'.format(depth))

    calc.vars = {}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = sut.run(calc, text)
        check(isinstance(r, Err), '{} is accepted', text)
        e = r.exc
        pos = e.find_pos(text)
        hl = HL.highlight_statements(e.statements)
    check(out.getvalue() == '', 'the error of {} printed {}', text, out.getvalue())
    want = ParsingException if p.parse else ExecutionException
    check(type(e) is want, 'the error of {} is {}: {}', text, type(e).__name__, e.message)
    check(pos == expect, 'the error of {} is reported before {} instead of {} ({})', text, text[pos:pos + 20], text[expect:expect + 20], e.message)
    joined = ''.join(i.text for items in e.statements for i in items)
    check(joined == text[:expect], 'the error of {} shows {} before the failure', text, joined)
    check(''.join(x for st in hl for _, x in st) == joined, 'highlighting the error of {}: {}', text, hl)
    t.label('parsing' if p.parse else 'execution')
    if not p.parse:
        got = outcomes(e.response, calc)
        check(got == first[:len(first) - 1], 'results with the error of {}: {}, expected {}', text, got, first)


GROUPS = [('planted', planted, 1)]
