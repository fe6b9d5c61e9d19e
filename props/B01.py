"""Comparisons, booleans and conditionals follow logic."""
from fractions import Fraction

from vlib import gen, prog, sut, units as U
from vlib.gen import Node
from vlib.sut import check, Err, frac, unitpowers
from props import A02

RULE = ('boolean trees of depth 0 to 6 over and, or, xor, not, then/else, comparisons, string comparisons and variables, with failing and non-boolean operands anywhere, with '
        'minimal or redundant brackets, vs a lazy reference evaluator; the six comparisons of pairs of numbers and quantities in random notations and units vs Fractions. '
        'Non-trivial: at least 3 operators, or operands that differ in notation or unit.')


class _V:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


FAIL = _V('a failure')
OTHER = _V('a non-boolean')


def land(a, b):
    if a is FAIL or a is OTHER or b is OTHER:
        return FAIL
    return b if a else False


def lor(a, b):
    if a is FAIL or a is OTHER or b is OTHER:
        return FAIL
    return True if a else b


def lxor(a, b):
    if a is FAIL or a is OTHER or b is FAIL or b is OTHER:
        return FAIL
    return a != b


def cond(c, a, b):
    if c is FAIL or c is OTHER:
        return FAIL
    return a if c else b


def lit(text, val):
    return Node('lit', text=text if isinstance(text, list) else [text], val=val)


FAILS = [['(', '1', '/', '0', ')'], ['log(', '0', ')'], ['(', 'nosuch', '+', '1', ')'], ['element(', '[', '1', ']', ',', '5', ')'], ['(', "'a'", '+', '1', ')'], ['(', '5', 'm', '+', '3', 'seconds', ')'],
         ['@bad(', '1', ')'], ['not', "'x'"], ['abs(', '(', '2', '/', '0', ')', ')'], ['(', '1', '/', '0', '==', '1', ')']]
OTHERS = ['5', '0', '1', "'true'", "''", 'nosuch', '5 m', '0x1']


def boolean(s, d, names):
    """A Node whose val is True, False, FAIL or OTHER."""
    if d <= 0 or s.bool(1, 8):
        k = s.draw(19)
        if k == 0:
            return lit(s.pick(FAILS), FAIL)
        if k == 1 and s.bool():
            x = s.pick(OTHERS)
            return lit(x.split(' '), OTHER)
        if k < 5 and names:
            n = s.pick(sorted(names))
            return lit(n, names[n])
        if k < 7:
            v = s.bool()
            return lit(['@isit(', '1' if v else '2', ')'], v)
        if k == 7:
            v = s.bool()
            return lit(['element(', '[', 'true', ',', 'false', ']', ',', '1' if v else '2', ')'], v)
        v = s.bool()
        return lit(s.pick(['true', 'True', 'TRUE'] if v else ['false', 'False', 'FALSE']), v)
    k = s.draw(15)
    if k < 4:
        a, b = boolean(s, d - 1, names), boolean(s, d - 1, names)
        return Node('and', [a, b], val=land(a.val, b.val))
    if k < 8:
        a, b = boolean(s, d - 1, names), boolean(s, d - 1, names)
        return Node('or', [a, b], val=lor(a.val, b.val))
    if k < 10:
        a, b = boolean(s, d - 1, names), boolean(s, d - 1, names)
        return Node('xor', [a, b], val=lxor(a.val, b.val))
    if k == 10:
        a = boolean(s, d - 1, names)
        return Node('not', [a], val=FAIL if a.val in (FAIL, OTHER) else not a.val)
    if k == 11 or k == 12:
        c, a, b = boolean(s, d - 1, names), boolean(s, d - 1, names), boolean(s, d - 1, names)
        return Node('then', [c, a, b], val=cond(c.val, a.val, b.val))
    if k == 13:
        a, b = prog.quote(s.pick(['a', 'b', 'A', ''])), prog.quote(s.pick(['a', 'b', 'A', '']))
        op = s.pick(list(prog.STRCMP))
        return Node(op, [lit(a, None), lit(b, None)], val=prog.STRCMP[op](a[1:-1], b[1:-1]))
    a, b = number(s, d - 1, names), number(s, d - 1, names)
    op = s.pick(list(prog.CMP))
    v = FAIL if a.val is FAIL or b.val is FAIL else prog.CMP[op](a.val, b.val)
    return Node(op, [a, b], val=v)


def number(s, d, names):
    if d <= 0 or s.bool(1, 3):
        if s.bool(1, 10):
            return lit(s.pick([x for x in FAILS if x[0] != 'not']), FAIL)
        t, v = s.pick([('1', 1), ('2', 2), ('0x2', 2), ('0b1', 1), ('100%', 1), ('0', 0), ('1.0', 1), ('2E0', 2), ('-1', -1)])
        return lit(t, Fraction(v))
    k = s.draw(3)
    if k < 2:
        c, a, b = boolean(s, d - 1, names), number(s, d - 1, names), number(s, d - 1, names)
        return Node('then', [c, a, b], val=cond(c.val, a.val, b.val))
    a, b = number(s, d - 1, names), number(s, d - 1, names)
    if k == 2:
        op = s.pick('+-*')
        v = FAIL if a.val is FAIL or b.val is FAIL else prog.binop(op, a.val, b.val)
        return Node(op, [a, b], val=v)
    v = FAIL if a.val is FAIL or b.val is FAIL or b.val == 0 else a.val / b.val
    return Node('/', [a, b], val=v)


def ops(n):
    return (0 if n.op == 'lit' else 1) + sum(ops(a) for a in n.args or ())


def count_fail(n):
    return (1 if n.op == 'lit' and n.val is FAIL else 0) + sum(count_fail(a) for a in n.args or ())


SETUP = 'bad = { PARAM1 / 0 }\nisit = { PARAM1 == 1 }\n'


def logic(s, t):
    names = {}
    setup = SETUP
    for n in ['p', 'q', 'flag'][:s.draw(3)]:
        names[n] = s.bool()
        setup += '{} = {}\n'.format(n, 'true' if names[n] else 'false')
    typ = s.weighted([(4, 'bool'), (1, 'num')])
    node = (boolean if typ == 'bool' else number)(s, s.int(1, 6), names)
    tk = gen.toks(node, s, s.draw(4))
    if len(tk) > 400:
        return
    text = gen.join(tk)
    if s.bool(1, 3):
        text = 'res = {}\nres'.format(text)
    t.show(text)
    if ops(node) >= 3:
        t.nt()
    calc = t.env.calc()
    calc.vars = {}
    got = sut.last(calc, setup + text)
    v = node.val
    if count_fail(node):
        t.label('failing operand, {}'.format('fails' if v is FAIL else 'fine'))
    if v is FAIL:
        check(isinstance(got, Err), '{} is {}, but it needs an operand that fails or is no boolean', text, got)
        return
    check(not isinstance(got, Err), '{} fails: {}; expected {}', text, got, v)
    if v is OTHER:
        return
    if typ == 'num' and not isinstance(v, bool):
        check(isinstance(got[0], sut.Number) and frac(got[0]) == v, '{} is {} instead of {}', text, got[0], v)
        return
    check(got[0] is v and got[1] is None, '{} is {} instead of {}', text, got, v)


CMPS = ['<', '==', '>', '<=', '>=', '!=']


def operand(s, us):
    x, v = A02.number(s)
    if us:
        u = s.pick(us)
        return '({} {})'.format(x, s.pick(u.names)), v * u.scale, u
    return x, v, None


def compare(s, t):
    """All comparisons of two operands."""
    us = None
    if s.bool():
        us = A02.GOOD[s.pick(sorted(A02.GOOD))]
    a, va, ua = operand(s, us)
    k = s.draw(5)
    if k == 0:
        b, vb, ub = a, va, ua
    elif k <= 2:
        # the same value, or a neighbour, in another notation or unit
        vb = va if k == 1 else va + s.pick([1, -1]) * Fraction(1, 10 ** s.int(1, s.pick([40, 90]))) * max(abs(va), Fraction(1, 10 ** 20))
        ub = s.pick(us) if us else None
        q = vb / ub.scale if us else vb
        if max(gen.digits(q.numerator), gen.digits(q.denominator)) > (60 if us else 96):
            return
        b = '({} / {})'.format(q.numerator, q.denominator)
        if us:
            b = '({} {})'.format(b, s.pick(ub.names))
        elif q.denominator == 1 and q >= 0 and s.bool():
            b = s.pick([hex, bin, oct])(int(q))
        elif s.bool():
            p = prog.num_text(q)
            if Fraction(p) == q:
                b = p
    else:
        b, vb, ub = operand(s, us)
    if s.bool(1, 6) and not us and not a.startswith('('):
        a = prog.quote(a)
    text = '[' + ', '.join('{} {} {}'.format(a, op, b) for op in CMPS) + ']'
    t.show(text)
    calc = t.env.calc()
    calc.vars = {}
    got = sut.last(calc, text)
    check(not isinstance(got, Err), '{} fails: {}', text, got)
    res = [x.value for x in got[0]]
    want = [prog.CMP[op](va, vb) for op in CMPS]
    check(res == want and all(x.unit is None for x in got[0]), '{} gives {} for {}', text, res, CMPS)
    t.label('equal' if va == vb else 'close' if k == 2 else 'different')
    if a != b:
        t.nt()


def refused(s, t):
    """Comparisons of what cannot be compared, and conditionals without one of their parts."""
    if s.bool(1, 5):
        c, a, b = s.pick(['true', 'false', '1 == 1', '(2 < 1)']), s.pick(['1', "'x'", '5 m', '(2 + 3)', '[1, 2]']), s.pick(['2', "'y'", '7 m', 'true'])
        forms = ['{c} then {a}', '{c} then {a} then {b}', '{c} then {a} = {b}', '{c} then {a} += {b}', '{c} then {a} else', '{c} else {b}', '{c} else {a} then {b}', '{c} then {a} and {b}',
                 '{c} then {a} else {b} else {b}', '({c} then {a})', 'then {a} else {b}', '{c} then else {b}', '{c} then {a} == {b}']
        text = s.pick(forms).format(a=a, b=b, c=c)
        t.show(text)
        t.nt()
        t.label('incomplete conditional')
        calc = t.env.calc()
        calc.vars = {}
        got = sut.last(calc, text)
        check(isinstance(got, Err), '{} is {}', text, got)
        return
    pool = [('plain', '5'), ('plain', '0x1F'), ('plain', '2.5'), ('length', '5 m'), ('length', '3 km'), ('time', '2 seconds'), ('mass', '1 kg'), ('speed', '3 m/s'), ('text', "'abc'"), ('text', "''"), ('fail', '(1 / 0)')]
    ka, a = s.pick(pool)
    kb, b = s.pick(pool)
    if ka == kb and ka not in ('text', 'fail'):
        return
    op = s.pick(CMPS)
    text = '{} {} {}'.format(a, op, b)
    t.show(text)
    t.nt()
    calc = t.env.calc()
    calc.vars = {}
    got = sut.last(calc, text)
    check(isinstance(got, Err), '{} is {}', text, got)


GROUPS = [('logic', logic, 6), ('compare', compare, 4), ('refused', refused, 1)]
