"""Exact rational arithmetic."""
import math
from decimal import Decimal
from fractions import Fraction

from vlib import gen, sut
from vlib.gen import Node
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard
from props.N08 import rounded

RULE = ('random trees of + - * / over generated decimal literals and variables (1 to 40 leaves), random parenthesisation and white-space, '
        'compared with Python Fractions; Number-object algebra on random num/den pairs. Non-trivial: at least two operations, a '
        'non-integral intermediate or an operand of 6+ digits, and all intermediates within the 100 digit bound.')
ASSUMPTIONS = ['intermediate numerators and denominators (before reduction) of at most 98 digits']

BOUND = 98


def within(*ints):
    return all(gen.digits(i) <= BOUND for i in ints)


def apply(op, a, b):
    """Exact result, None for division by zero; Discard beyond the digit bound."""
    if op in '+-':
        l = math.lcm(a.denominator, b.denominator)
        if not within(a.numerator * l, b.numerator * l):
            raise Discard()
        return a + b if op == '+' else a - b
    if op == '*':
        if not within(a.numerator * b.numerator, a.denominator * b.denominator):
            raise Discard()
        return a * b
    if b == 0:
        return None
    if not within(a.numerator * b.denominator, a.denominator * b.numerator):
        raise Discard()
    return a / b


def tree(s, depth, env):
    if depth <= 0 or s.bool(1, 4):
        if env and s.bool(1, 4):
            name = s.pick(sorted(env))
            return Node('lit', text=name, val=env[name])
        t, v = gen.num_lit(s, big=depth < 3)
        return Node('lit', text=t, val=v)
    op = s.pick('+-*/')
    l = tree(s, depth - 1, env)
    r = tree(s, depth - 1, env)
    n = Node(op, [l, r])
    if l.val is None or r.val is None:
        n.val = None
    else:
        n.val = apply(op, l.val, r.val)
    return n


def has_err(n):
    return n.val is None


def count(n):
    return 0 if n.op == 'lit' else 1 + sum(count(a) for a in n.args)


def chain(s):
    """A long flat chain: many operands at one level."""
    k = s.int(2, 30)
    t, v = gen.num_lit(s, big=False)
    n = Node('lit', text=t, val=v)
    ops = s.pick(['+-', '*/', '+-*/'])
    for _ in range(k):
        t, v = gen.num_lit(s, big=False)
        r = Node('lit', text=t, val=v)
        op = s.pick(ops)
        m = Node(op, [n, r])
        m.val = None if n.val is None else apply(op, n.val, v)
        n = m
    return n


def c_expr(s, t):
    preset = s.weighted([(3, 'Computing'), (1, 'Advanced'), (1, 'Scientific')])
    env = {}
    calc = t.env.calc(preset)
    pre = ''
    for name in ['x', 'yy', 'Zed_1'][:s.weighted([(3, 0), (1, 1), (1, 2), (1, 3)])]:
        sub = tree(s, 2, dict(env))
        if sub.val is None:
            raise Discard()
        pre += name + ' = ' + gen.ws(s, gen.toks(sub, s, 1)) + '\n'
        env[name] = sub.val
    n = chain(s) if s.bool(1, 4) else tree(s, s.int(1, 5), env)
    text = pre + gen.ws(s, gen.toks(n, s, s.pick([0, 1, 4])))
    t.show(text)
    got = sut.last(calc, text)
    if n.val is None:
        check(isinstance(got, Err), 'dividing by zero must be an error, but {} gave {}', text, got)
        t.label('division by zero')
        t.nt()
        return
    check(not isinstance(got, Err), '{} should be {} but was refused: {}', text, n.val, got)
    v, u = got
    check(isinstance(v, Number) and u is None, '{} did not give a plain number: {} {}', text, v, u)
    check(frac(v) == n.val, '{} should be exactly {} but is {}', text, n.val, v)
    # displayed identically to, and equal to, the same number made directly
    direct = Number(str(n.val.numerator), str(n.val.denominator))
    check(v == direct and not (v != direct), '{} gives {}, which does not equal the same number made directly', text, v)
    check(hash(v) == hash(direct), '{} gives {}, which hashes differently from the same number made directly', text, v)
    check(v.to_string(calc) == direct.to_string(calc), '{} displays as {} but the same number made directly as {}', text, v.to_string(calc), direct.to_string(calc))
    if count(n) >= 2 and (gen.cost(n.val) > 6 or n.val.denominator != 1):
        t.nt()


def rat(s, k=None):
    k = s.pick([1, 2, 4, 9, 20]) if k is None else k
    n = s.sint(-10 ** k, 10 ** k)
    d = s.int(1, 10 ** s.pick([1, 1, 2, 4, k]))
    return Fraction(n, d)


def mk(s, f):
    """One of the ways of making a Number of a value."""
    c = s.int(1, 9)
    n, d = f.numerator * c, f.denominator * c
    k = s.draw(5)
    if k == 1:
        n, d = -n, -d
    if k == 2:
        return Number(Decimal(n), Decimal(d))
    if k == 3:
        return Number(str(n), str(d))
    if k == 4:
        p = s.int(1, 5)
        # decimal-valued numerator and denominator
        return Number(str(Decimal(n).scaleb(-p)), str(Decimal(d).scaleb(-p)))
    if k == 5 and d == 1:
        return Number(n)
    return Number(n, d)


def c_object(s, t):
    """Algebraic laws on number objects, however they were made."""
    t.env.calc('Computing')
    a, b, c = rat(s), rat(s), rat(s)
    A, B, C = mk(s, a), mk(s, b), mk(s, c)
    t.show('a={} b={} c={}'.format(a, b, c))
    t.nt()
    for n, f in ((A, a), (B, b), (C, c)):
        check(frac(n) == f, 'made {} but holds {}', f, n)
        check(n.den > 0 and frac(n).denominator == int(n.den), 'the stored form of {} is not reduced with a positive denominator: {}/{}', f, str(n.num), str(n.den))
    before = [(frac(x), x.to_string()) for x in (A, B, C)]
    checks = [('a+b', A + B, a + b), ('a-b', A - B, a - b), ('a*b', A * B, a * b), ('-a', -A, -a), ('abs(a)', abs(A), abs(a)),
              ('(a+b)+c', (A + B) + C, a + b + c), ('a*(b+c)', A * (B + C), a * (b + c)), ('(a-b)*c', (A - B) * C, (a - b) * c)]
    if b != 0:
        checks += [('a/b', A / B, a / b), ('a/b*b', A / B * B, a), ('(a+c)/b', (A + C) / B, (a + c) / b)]
    else:
        try:
            r = A / B
            check(False, '{} / 0 gave {}', a, r)
        except sut.Violation:
            raise
        except Exception:
            pass
    for name, got, want in checks:
        check(frac(got) == want, '{} with a={} b={} c={} should be {} but is {}', name, a, b, c, want, got)
        w = Number(want.numerator, want.denominator)
        check(got == w and hash(got) == hash(w), '{} with a={} b={} c={}: {} does not equal/hash like the same number made directly', name, a, b, c, got)
        check(int(got.den) > 0 and frac(got).denominator == int(got.den), '{} with a={} b={} c={} is not in lowest terms: {}/{}', name, a, b, c, str(got.num), str(got.den))
    check((A < B) == (a < b) and (A <= B) == (a <= b) and (A > B) == (a > b) and (A >= B) == (a >= b) and (A == B) == (a == b) and (A != B) == (a != b),
          'ordering of {} and {} is wrong', a, b)
    # a neighbour, as near as the working size allows
    room = 98 - max(gen.digits(a.numerator), gen.digits(a.denominator)) - gen.digits(a.denominator)
    z = a + s.pick([1, -1]) * Fraction(1, 10 ** s.int(1, room))
    Z = mk(s, z) if max(gen.digits(z.numerator), gen.digits(z.denominator)) < 90 else Number(z.numerator, z.denominator)
    check(frac(Z) == z, 'made {} but holds {}', z, Z)
    for name, x, y, p, q in (('', A, Z, a, z), ('', Z, A, z, a)):
        check((x < y) == (p < q) and (x <= y) == (p < q) and (x > y) == (p > q) and (x >= y) == (p > q) and not x == y and x != y, 'ordering of {} and {} is wrong', p, q)
    d = {A: 1}
    check(Z not in d, '{} is found among {}', z, a)
    check((B in d) == (a == b), 'dictionary lookup of {} among {} is wrong', b, a)
    after = [(frac(x), x.to_string()) for x in (A, B, C)]
    check(before == after, 'arithmetic changed its operands: {} became {}', before, after)


def c_api(s, t):
    """What custom features call on numbers: conversions and integer operations."""
    t.env.calc('Computing')
    a, b = rat(s), rat(s)
    A, B = mk(s, a), mk(s, b)
    if not (gen.digits(a.numerator) + gen.digits(a.denominator) <= 80 and gen.digits(b.numerator) + gen.digits(b.denominator) <= 80):
        raise Discard()
    t.show('a={} b={}'.format(a, b))
    t.nt()
    whole = math.trunc(a)
    for name, got, want in [('int', int(A), whole), ('math.trunc', math.trunc(A), whole), ('math.floor', math.floor(A), math.floor(a)), ('math.ceil', math.ceil(A), math.ceil(a)), ('+a', +A, a), ('copy', A.copy(), a)]:
        v = got if isinstance(got, int) else frac(got)
        check(v == want, '{} of {} is {} instead of {}', name, a, v, want)
    for name, got in (('float', float(A)), ('complex', complex(A).real)):
        check(complex(A).imag == 0 and abs(Fraction(got) - a) <= abs(a) / 2 ** 52, '{} of {} is {}', name, a, got)
    check(abs(Fraction(A.to_decimal()) - a) <= abs(a) / 10 ** 98, 'the decimal of {} is {}', a, str(A.to_decimal()))
    r = eval(repr(A), {'Number': Number})
    check(frac(r) == a and r == A, 'repr of {} is {}', a, repr(A))
    p = s.int(0, 12)
    q = rounded(a * 10 ** p, 'ROUND_HALF_UP')
    check(frac(round(A, p)) == Fraction(q, 10 ** p), '{} rounded to {} places is {}', a, p, frac(round(A, p)))
    if b != 0:
        ratio = a / b
        if gen.digits(math.floor(abs(ratio))) + 4 < 60:
            d = math.floor(ratio)
            # the rest has the sign of the dividend
            m = a - b * math.trunc(ratio)
            check(frac(A // B) == d, '{} // {} is {} instead of {}', a, b, frac(A // B), d)
            check(frac(A % B) == m, '{} % {} is {} instead of {}', a, b, frac(A % B), m)
            x = divmod(A, B)
            check(frac(x[0]) == d and frac(x[1]) == m, 'divmod of {} and {} is {} and {}', a, b, frac(x[0]), frac(x[1]))
    n = s.int(-4, 5)
    if (a != 0 or n > 0) and (gen.digits(a.numerator) + gen.digits(a.denominator)) * abs(n) < 90:
        check(frac(A ** Number(n)) == a ** n, '{} ^ {} is {}', a, n, frac(A ** Number(n)))
        if n > 0 and b != 0 and gen.digits((a ** n).numerator) + gen.digits((a ** n).denominator) + gen.digits(b.numerator) + gen.digits(b.denominator) < 90:
            x = pow(A, Number(n), B)
            v = a ** n
            check(frac(x) == v - b * math.trunc(v / b), 'pow({}, {}, {}) is {}', a, n, b, frac(x))
    check(frac(A) == a and frac(B) == b, 'the numbers {} and {} were changed to {} and {}', a, b, frac(A), frac(B))


def c_compare(s, t):
    """Comparison of exactly computed values."""
    calc = t.env.calc('Computing')
    l = tree(s, s.int(0, 3), {})
    if s.bool(1, 2) and l.val is not None:
        # the same value computed another way, or off by a tiny amount
        v = l.val
        # (as near as the working size allows)
        room = 97 - max(gen.digits(v.numerator), gen.digits(v.denominator)) - gen.digits(v.denominator)
        d = s.pick([0, 1, -1]) * Fraction(1, 10 ** s.int(1, s.pick([30, max(room, 1)])))
        w = v + d
        if not within(w.numerator, w.denominator):
            raise Discard()
        r = Node('/', [Node('lit', text=str(w.numerator), val=Fraction(w.numerator)), Node('lit', text=str(w.denominator), val=Fraction(w.denominator))], val=w)
    else:
        r = tree(s, s.int(0, 3), {})
    if l.val is None or r.val is None:
        raise Discard()
    op = s.pick(['==', '!=', '<', '>', '<=', '>='])
    text = gen.ws(s, gen.toks(Node(op, [l, r]), s, 1))
    t.show(text)
    a, b = l.val, r.val
    # values are compared to 100 significant digits
    if a != b and abs(a - b) < max(abs(a), abs(b)) * Fraction(2, 10 ** 99):
        raise Discard()
    want = {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
    got = sut.last(calc, text)
    check(not isinstance(got, Err), '{} was refused: {}', text, got)
    check(got[0] is want, '{} should be {} but is {}', text, want, got[0])
    t.nt()


GROUPS = [('expression', c_expr, 6), ('number-object', c_object, 3), ('comparison', c_compare, 2), ('number-api', c_api, 2)]
