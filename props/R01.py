"""Any input gives a result or a calculator error."""
import contextlib
import io

from modularcalculator.objects.number import Number
from modularcalculator.objects.exceptions import CalculatingException, CalculatorException

from vlib import fuzz, prog, script, sut
from vlib.sut import check
from vlib.fuzz import tame
from props import S03

RULE = ('random texts: characters, token soups, mutated programs, calls of every function and operator with operands of every type, deep nesting; on calculators of every '
        'preset, with random options and variables; oracle: an answer whose every part can be displayed, or the calculator\'s own exception with a message and the earlier '
        'results, within 25 CPU seconds. Non-trivial: at least 4 characters.')
ASSUMPTIONS = ['inputs asking for astronomically large powers, repetitions, factorials, shifts or ranges are not generated']

FLAGS = [None, None, None, {'parse_only': True}, {'stateless': True}, {'include_state': True}, {'include_state': True, 'stateless': True}, {}, {'parse_only': False, 'stateless': False}]


def display(value, unit, calc, text):
    if isinstance(value, Number):
        x = value.to_string(calc)
        check(isinstance(x, str) and x != '', 'the result of {} is shown as {}', text, x)
    elif isinstance(value, list):
        for v in value:
            check(not isinstance(v, list), 'the result of {} has a bare list in it', text)
            display(v.value, v.unit, calc, text)
    elif isinstance(value, Exception):
        check(isinstance(value, CalculatorException) and isinstance(value.message, str) and value.message != '', 'the result of {} contains {}', text, value)
    elif not (value is None or isinstance(value, (bool, str)) or hasattr(value, 'text')):
        check(type(value).__name__ in ('UnitPowerList', 'UnitSystem', 'NumericalRepresentationItem') or hasattr(value, 'name'), 'the result of {} is {}', text, value)
        str(value)
    if unit is not None:
        for x in (unit.singular(), unit.plural(), unit.get_name(value) if isinstance(value, Number) else '', str(unit)):
            check(isinstance(x, str), 'the unit of the result of {} is {}', text, x)
        if unit.has_symbols():
            unit.symbol()


def attempt(calc, text, flags):
    """Returns 'fine', or the name of the calculator's exception."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            resp = calc.calculate(text, flags) if flags is not None else calc.calculate(text)
            kind = 'fine'
    except CalculatingException as e:
        check(isinstance(e.message, str) and e.message != '', '{} is refused without a message', text)
        check(hasattr(e, 'response'), '{} is refused without the earlier results: {}', text, e.message)
        resp = e.response
        kind = type(e).__name__
        str(e)
    for r in resp.results:
        check(isinstance(r.expression, str), 'expression of {}', text)
        if r.has_result():
            display(r.value, r.unit, calc, text)
        if r.has_state():
            for v, u in r.state.values():
                display(v, u, calc, text)
    check(out.getvalue() == '', 'calculating {} printed {}', text, out.getvalue())
    return kind


def calculator(s, t, preset=None):
    p = preset or s.weighted([(10, 'Computing'), (1, 'Scientific'), (1, 'Advanced'), (1, 'Basic')])
    calc = t.env.calc(p)
    calc.vars = {}
    if calc.unit_normaliser is not None:
        calc.unit_simplification_set(False)
    return calc


def go(s, t, calc, text, flags='random', label=None):
    if flags == 'random':
        flags = s.pick(FLAGS)
    t.show('{} {}'.format(flags, text) if flags else text)
    if len(text) >= 4:
        t.nt()
    kind = attempt(calc, text, flags)
    t.label('{}: {}'.format(label, kind))


# -- mutated programs -----------------------------------------------------

def mutants(s, t):
    g = script.Gen(s)
    stmts = g.program(1, 5, failing=2)
    text = '\n'.join(S03.layout_of(s, st) if s.bool() else st.text() for st in stmts)
    text = fuzz.mutate(s, text, 1, 5)
    calc = calculator(s, t)
    simp = s.bool(1, 4) and calc.unit_normaliser is not None
    if not tame(text, simp):
        return
    if simp:
        calc.unit_simplification_set(True)
    go(s, t, calc, text, label='mutant')


# -- every function and operator with operands of every type ------------------

WORDS = ["''", "'abc'", "'12'", "'0x1F'", "'true'", "'2020-01-01'", "'2020-01-01T00:00:00.5'", "'2020-13-45'", "'1E3'", "'50%'", "'[a-'", "'(a+)b'", "'%'", "'é'", "'\\\\'", "'\\''", "'a b'", "'-0'", "'1.5.2'", "'./no/such'", "'m'"]
NUMS = ['0', '1', '2', '-1', '0.5', '-0.5', '3.7', '10', '36', '37', '99', '0.1', '-7.25', '100', '1/3', '1E-20', '2E15', '-4E30', '9E99', '1E-99', '5%', '0x1F', '-0b101', '0b0001', '0o17', '36zZZ', '12z0.5', '123456789012345678901234567890']
QTYS = ['5 m', '0 m', '-3 km', '2.5 km/hour', '12345 seconds', '1 degree', '90 degrees', '20 C', '-40 F', '0.5 m^2', '1 kg m/s^2', '3 m^0.5', '1E30 km', '1E-30 km', '7 bytes', '0.25 hours', '1 s^-1', '2 m/m', '-1 seconds', '1 Pa', '5 kB']
ARRS = ['[1, 2, 3]', '[0]', '[1..5]', '[1 m, 2 km]', "['a', 'b']", '[true, false, true]', '[[1, 2], [3]]', "[1, 'a', true]", '[1/0]', '[1, 1] / [0, 1]', '[5 m, 3 s]', '[5 m, 3]', '[1..0 step -1]', '[{PARAM1}]', '[0x1F, 0b1]', '[u]', '[5 m .. 7 m step 50 cm]', '[-1]', '[1, 2]', '[1..2 step 0]']
OTHER = ['true', 'false', 'nosuch', '{PARAM1 + 1}', '{}', '{1 / 0}', 'pi', 'km', 'hex', 'decimal', 'percentage', 'SI', 'metric', 'scientific', '(1 / 0)', '()', 'u', 'not', 'x_n', 'x_s', 'x_a', 'x_f', 'x_q', 'm/s', '@x_f(1)', '-', '']


def operand(s):
    k = s.draw(13)
    if k < 5:
        return s.pick(NUMS)
    if k < 7:
        return s.pick(WORDS)
    if k < 9:
        return s.pick(QTYS)
    if k < 11:
        return s.pick(ARRS)
    if k == 11:
        return s.pick(OTHER)
    if k == 12:
        return str(s.pick(sut.DICT_INTS)) if s.bool() else prog.quote(s.pick(sut.DICT_STRS))
    return "'" + ''.join(s.pick(fuzz.CHARS) for _ in range(s.draw(3))).replace('\\', '').replace("'", '') + "'"


SETUP = "x_n = 3\nx_s = 'xy'\nx_a = [4, 5, 6]\nx_f = { PARAM1 * 2 }\nx_q = 3 km\n"


def small(text):
    """Nothing in the operands that makes powers, factorials, shifts or ranges explode."""
    return text in ('0', '1', '2', '-1', '0.5', '-0.5', '3.7', '10', '5%', '36', '0x1F', "''", "'abc'", "'12'", 'true', 'false', 'nosuch', 'x_n', 'x_s', 'x_a', 'x_f', 'x_q', 'u', '[1, 2, 3]', '[0]', '[1 m, 2 km]', "['a', 'b']", '5 m', '0 m', '2 m/m', '1 degree', '90 degrees')


def calls(s, t):
    """A call of a function."""
    calc = calculator(s, t, 'Computing')
    names = sorted(calc.funcs)
    fewer = [n for n in names if not n.startswith('sp_')]
    f = s.pick(fewer) if s.bool(3, 4) else s.pick(names)
    d = calc.funcs[f]
    n = s.weighted([(6, d.minparams or 0), (3, d.maxparams or 1), (1, s.draw(5))])
    args = [operand(s) for _ in range(n)]
    if f in ('fact', 'exp', 'sp_bdtrik', 'round', 'floor', 'ceil', 'scientific', 'base') or f.startswith('sp_'):
        args = [a if small(a) or (i == 0 and f in ('round', 'floor', 'ceil', 'scientific', 'base')) else s.pick(['2', '0', '-1', '0.5', "'abc'", '3', '5 m']) for i, a in enumerate(args)]
    x = '{}({})'.format(f, s.pick([', ', ',']).join(args))
    if s.bool(1, 4):
        x = s.pick(['1 + {}', '[{}]', '({})', 'x = {}', '{} to m', '{} as hexadecimal', 'length({})', 'not {}', '{} == 1', 'true or {}', '[1, 2] + {}', '{} then 1 else 2', '-{}', '{} {}']).replace('{}', x)
    simp = s.bool(1, 5)
    if simp:
        calc.unit_simplification_set(True)
    go(s, t, calc, SETUP + x, label='call')


SPECIALS = ('UNIT_MULTIPLY', 'UNIT_DIVIDE', 'UNIT_ASSIGNMENT', 'IMPLICIT_MULTIPLY')


def operators(s, t):
    """Operators with operands of any type."""
    calc = calculator(s, t, 'Computing')
    ops = [o for o in sorted(calc.ops_list) if o not in SPECIALS] + [' ']
    parts = [operand(s)]
    for _ in range(s.int(1, 3)):
        op = s.pick(ops)
        r = operand(s)
        if op in ('^', '^=') and not small(r) or op in ('<<', '*$', '>>') and not small(r):
            r = s.pick(['2', '0', '-1', '0.5', "'abc'", '[1, 2, 3]', '5 m', 'true', 'nosuch'])
        parts += [op, r]
        if op == 'then' and s.bool(3, 4):
            parts += ['else', operand(s)]
    if sum(p in ('^', '<<', '*$', '^=') for p in parts) > 1:
        return
    if s.bool(1, 3):
        parts[0] = s.pick(['u', 'x_n', 'x_s', 'x_a', 'x_f', 'x_q'])
    if s.bool(1, 4):
        i = s.draw(len(parts) - 1)
        parts.insert(i, s.pick(['not', '~', '(', ')', '[', ']', '-', '+']))
    x = ' '.join(parts)
    simp = s.bool(1, 5)
    if simp and '^' in parts:
        simp = False
    if simp:
        calc.unit_simplification_set(True)
    go(s, t, calc, SETUP + x, label='operators')


# -- soups ---------------------------------------------------------------

def soup(s, t):
    calc = calculator(s, t)
    if s.bool():
        toks = fuzz.CHARS + WORDS + NUMS[:10] + ['sum(', 'abs(', 'upper(', 'a', 'b', 'true', 'km', 'PARAM1', '@a(', 'hex']
        text = ''.join(s.pick(toks) for _ in range(s.size(1, 30)))
    else:
        text = ''.join(chr(s.weighted([(8, 32 + s.draw(94)), (1, s.draw(31)), (2, s.draw(0x2FF)), (1, s.draw(0xD7FF)), (1, 0x1F600 + s.draw(60))])) for _ in range(s.size(1, 40)))
    if not tame(text):
        return
    go(s, t, calc, text, label='soup')


def nesting(s, t):
    """Deep nesting and long inputs."""
    calc = calculator(s, t, 'Computing')
    n = s.pick([3, 20, 60, 150, 400, 1000])
    l, r = s.pick([('(', ')'), ('[', ']'), ('abs(', ')'), ('not ', ''), ('{', '}'), ('@f(', ')'), ('-', ''), ('(1 + ', ')'), ('[1, ', ']'), ('sum([', '])'), ('1 + ', ''), ('true then 1 else ', ''), ('a = ', ''), ("'", ''), ('1 m + ', ' m'), ('x', '')])
    if r != '':
        n = min(n, 400)
    mid = s.pick(['1', "'a'", 'true', '', '1 / 0', '5 m', 'a'])
    k = s.pick([n, n, n - 1, n + 1, 0])
    text = l * n + mid + r * k
    if len(text) > 3000:
        text = l * 200 + mid + r * 200
    if r in (')', ']', '}') and s.bool(1, 8):
        # far too deep, refused at once
        n = s.pick([1200, 3000, 12000])
        text = l * n + mid + r * s.pick([n, 0, n - 1])
    if s.bool(1, 4):
        text = '\n'.join(['1'] * s.pick([1, 30])) + '\n' + text
    go(s, t, calc, text, label='nesting')


GROUPS = [('mutants', mutants, 30), ('calls', calls, 40), ('operators', operators, 40), ('soup', soup, 20), ('nesting', nesting, 1)]
