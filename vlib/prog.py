"""Generator of typed expressions and programs, with a reference value for each.

Values: numbers are Fractions, booleans bools, strings str, arrays lists of
such.  Only plain decimal notation is used, so that the text of a number is
its decimal display.
"""
import math
from fractions import Fraction

from . import gen, sut
from .gen import Node
from .pbt import Discard

MAXCOST = 44


def num_text(f, places=30):
    """Decimal display: half up (away from zero) at `places`, no trailing zeros."""
    p = 10 ** places
    q = (abs(f) * p + Fraction(1, 2))
    q = q.numerator // q.denominator
    s = str(q).zfill(places + 1)
    out = s[:-places] if places else s
    if places:
        fr = s[-places:].rstrip('0')
        if fr:
            out += '.' + fr
    if f < 0 and q:
        out = '-' + out
    return out


def quote(text):
    return "'" + text.replace('\\', '\\\\').replace("'", "\\'") + "'"


def lit_of(v):
    """A leaf Node denoting v."""
    if isinstance(v, bool):
        return Node('lit', text='true' if v else 'false', val=v, typ='bool')
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return Node('lit', text=str(v.numerator), val=v, typ='num')
        return Node('/', [lit_of(Fraction(v.numerator)), lit_of(Fraction(v.denominator))], val=v, typ='num')
    if isinstance(v, str):
        return Node('lit', text=quote(v), val=v, typ='str')
    raise AssertionError(v)


class Ctx:
    """What may be used: variables {name: (typ, value)}, operator families, functions."""

    def __init__(self, vars=None, ops=('arith', 'adv', 'pow', 'bit', 'bool', 'cmp', 'str', 'strcmp', 'then', 'regex', 'impl'), funcs=True, words=None):
        self.vars = vars or {}
        self.ops = set(ops)
        self.funcs = funcs
        self.words = words or ['', 'a', 'b', 'ab', 'Ab', 'xyz', 'a b', '+', "it's", '12', 'x_1', '(', '#', 'é']

    def named(self, typ):
        return [n for n, (ty, _) in sorted(self.vars.items()) if ty == typ]


def leaf(s, typ, ctx):
    names = ctx.named(typ)
    if names and s.bool(1, 3):
        n = s.pick(names)
        return Node('lit', text=n, val=ctx.vars[n][1], typ=typ)
    if typ == 'num':
        k = s.draw(7)
        if k < 5:
            v = s.draw(12)
            t = str(v)
            if s.bool(1, 6):
                t = '-' + t
            return Node('lit', text=t, val=Fraction(t), typ='num')
        t, v = gen.num_lit(s, big=False)
        return Node('lit', text=t, val=v, typ='num')
    if typ == 'bool':
        v = s.bool()
        return Node('lit', text='true' if v else 'false', val=v, typ='bool')
    if typ == 'str':
        w = s.pick(ctx.words)
        return Node('lit', text=quote(w), val=w, typ='str')
    raise AssertionError(typ)


def is_int(v):
    return v.denominator == 1


def fits(v):
    return gen.cost(v) <= MAXCOST


def binop(op, a, b):
    """Reference value, or None if the combination is outside the domain."""
    if op == '+':
        r = a + b
    elif op == '-':
        r = a - b
    elif op == '*' or op == 'IMPL':
        r = a * b
    elif op == '/':
        if b == 0:
            return None
        r = a / b
    elif op == '\\':
        if b == 0:
            return None
        r = Fraction(math.floor(a / b))
    elif op == '%':
        if b == 0:
            return None
        r = abs(a) - abs(b) * math.floor(abs(a) / abs(b))
        r = -r if a < 0 else r
    elif op == '^':
        if not is_int(b) or abs(b) > 9 or (a == 0 and b <= 0):
            return None
        if gen.cost(a) * abs(b) > MAXCOST:
            return None
        r = a ** int(b)
    elif op in ('&', '|', '^^', '<<', '>>'):
        if not is_int(a) or not is_int(b):
            return None
        x, y = int(a), int(b)
        if op in ('<<', '>>'):
            if y < 0 or y > 40:
                return None
            r = Fraction(x << y if op == '<<' else x >> y)
        else:
            r = Fraction({'&': x & y, '|': x | y, '^^': x ^ y}[op])
    elif op in CMP:
        return CMP[op](a, b)
    elif op in STRCMP:
        a, b = totext(a), totext(b)
        return STRCMP[op](a, b)
    elif op in CASECMP:
        a, b = totext(a).lower(), totext(b).lower()
        return STRCMP[op.replace('~', '$')](a, b)
    elif op == '+$':
        r = totext(a) + totext(b)
        return r if len(r) <= 60 else None
    elif op == '*$':
        if not is_int(b) or b < 0 or b > 4 or len(totext(a)) > 12:
            return None
        return totext(a) * int(b)
    elif op == 'and':
        return a and b
    elif op == 'or':
        return a or b
    elif op == 'xor':
        return a != b
    elif op in ('=~', '!~'):
        raise AssertionError
    else:
        raise AssertionError(op)
    return r if fits(r) else None


CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}
STRCMP = {k + '$': f for k, f in CMP.items()}
CASECMP = {k + '~': f for k, f in CMP.items()}


def totext(v):
    if isinstance(v, Fraction):
        return num_text(v)
    assert isinstance(v, str)
    return v


def expr(s, typ, depth, ctx):
    if depth <= 0 or s.bool(1, 6):
        return leaf(s, typ, ctx)
    fams = []
    o = ctx.ops
    if typ == 'num':
        fams = [(8, 'arith')] * ('arith' in o) + [(3, 'adv')] * ('adv' in o) + [(3, 'pow')] * ('pow' in o) + [(5, 'bit')] * ('bit' in o) + [(2, 'impl')] * ('impl' in o)
        if ctx.funcs:
            fams += [(2, 'func')]
    elif typ == 'bool':
        fams = [(5, 'bool')] * ('bool' in o) + [(5, 'cmp')] * ('cmp' in o) + [(3, 'strcmp')] * ('strcmp' in o) + [(1, 'regex')] * ('regex' in o) + [(2, 'not')] * ('bool' in o)
    elif typ == 'str':
        fams = [(4, 'str')] * ('str' in o)
        if ctx.funcs:
            fams += [(2, 'func')]
    if 'then' in o:
        fams += [(2, 'then')]
    if not fams:
        return leaf(s, typ, ctx)
    fam = s.weighted(fams)
    d = depth - 1
    if fam == 'then':
        c = expr(s, 'bool', d, ctx)
        a = expr(s, typ, d, ctx)
        b = expr(s, typ, d, ctx)
        return Node('then', [c, a, b], val=a.val if c.val else b.val, typ=typ)
    if fam == 'not':
        a = expr(s, 'bool', d, ctx)
        return Node('not', [a], val=not a.val, typ='bool')
    if fam == 'func':
        return func(s, typ, d, ctx)
    if fam == 'regex':
        import re
        a = expr(s, 'str', d, ctx)
        pat = s.pick(['a', 'b', 'a.', '^a', 'b$', '[a-c]+', 'x', '\\d'])
        op = s.pick(['=~', '!~'])
        m = re.search(pat, a.val) is not None
        return Node(op, [a, Node('lit', text=quote(pat), val=pat, typ='str')], val=m if op == '=~' else not m, typ='bool')
    if fam == 'bool':
        op = s.pick(['and', 'or', 'xor'])
        a, b = expr(s, 'bool', d, ctx), expr(s, 'bool', d, ctx)
        return Node(op, [a, b], val=binop(op, a.val, b.val), typ='bool')
    if fam == 'cmp':
        op = s.pick(list(CMP))
        a, b = expr(s, 'num', d, ctx), expr(s, 'num', d, ctx)
        return Node(op, [a, b], val=binop(op, a.val, b.val), typ='bool')
    if fam == 'strcmp':
        op = s.pick(list(STRCMP) + list(CASECMP))
        a, b = expr(s, 'str', d, ctx), expr(s, 'str', d, ctx)
        return Node(op, [a, b], val=binop(op, a.val, b.val), typ='bool')
    if fam == 'str':
        op = s.pick(['+$', '*$'])
        a = expr(s, 'str', d, ctx)
        b = expr(s, 'str', d, ctx) if op == '+$' and s.bool(3, 4) else expr(s, 'num', d, ctx)
        v = binop(op, a.val, b.val)
        if v is None:
            op = '+$'
            b = leaf(s, 'num', ctx)
            v = binop(op, a.val, b.val)
            if v is None:
                return leaf(s, 'str', ctx)
        return Node(op, [a, b], val=v, typ='str')
    # numeric
    if fam == 'bit' and s.bool(1, 4):
        a = expr(s, 'num', d, ctx)
        if a.op == 'lit' and is_int(a.val) and a.val >= 0 and a.text.isdigit():
            v = int(a.val)
            return Node('~', [a], val=Fraction(~v & (2 ** v.bit_length() - 1)), typ='num')
    a = expr(s, 'num', d, ctx)
    b = expr(s, 'num', d, ctx)
    ops = {'arith': '+-*/', 'adv': ['\\', '%'], 'pow': '^', 'bit': ['&', '|', '^^', '<<', '>>'], 'impl': ['IMPL']}[fam]
    op = s.pick(ops)
    if fam == 'pow' and binop('^', a.val, b.val) is None:
        b = lit_of(Fraction(s.int(1, 3)))
    if fam == 'bit':
        if not is_int(a.val):
            a = leafint(s)
        if not is_int(b.val) or (op in ('<<', '>>') and (b.val < 0 or b.val > 40)):
            b = leafint(s)
    v = binop(op, a.val, b.val)
    if v is None:
        for op in ['+', '*']:
            v = binop(op, a.val, b.val)
            if v is not None:
                break
        else:
            return leaf(s, 'num', ctx)
    return Node(op, [a, b], val=v, typ='num')


def leafint(s):
    v = s.draw(20)
    return Node('lit', text=str(v), val=Fraction(v), typ='num')


def func(s, typ, d, ctx):
    if typ == 'num':
        f = s.pick(['abs', 'floor', 'ceil', 'max', 'min', 'sum', 'length', 'count'])
        if f == 'length':
            if 'str' not in ctx.ops:
                f = 'abs'
            else:
                a = expr(s, 'str', d, ctx)
                return Node('call', [a], text='length', val=Fraction(len(a.val)), typ='num')
        if f in ('abs', 'floor', 'ceil'):
            a = expr(s, 'num', d, ctx)
            g = {'abs': abs, 'floor': math.floor, 'ceil': math.ceil}[f]
            return Node('call', [a], text=f, val=Fraction(g(a.val)), typ='num')
        args = [expr(s, 'num', d, ctx) for _ in range(s.int(2 if f != 'count' else 1, 4))]
        vals = [a.val for a in args]
        if f == 'count':
            return Node('call', [Node('array', args)], text='count', val=Fraction(len(args)), typ='num')
        v = {'max': max, 'min': min, 'sum': sum}[f](vals)
        if not fits(v):
            return leaf(s, 'num', ctx)
        if s.bool(1, 3):
            args = [Node('array', args)]
        return Node('call', args, text=f, val=v, typ='num')
    f = s.pick(['upper', 'lower'])
    a = expr(s, 'str', d, ctx)
    v = a.val.upper() if f == 'upper' else a.val.lower()
    return Node('call', [a], text=f, val=v, typ='str')


def same(value, want):
    """Does a result's value equal the reference value?"""
    if isinstance(want, bool):
        return value is want
    if isinstance(want, Fraction):
        return isinstance(value, sut.Number) and sut.frac(value) == want
    if isinstance(want, str):
        return isinstance(value, str) and value == want
    if isinstance(want, list):
        return isinstance(value, list) and len(value) == len(want) and all(same(v.value, w) for v, w in zip(value, want))
    return value is want


def full(n):
    """Tokens with every operation bracketed."""
    if n.op in ('lit', 'raw'):
        return list(n.text) if isinstance(n.text, list) else [n.text]
    if n.op == 'par':
        return ['('] + full(n.args[0]) + [')']
    if n.op in ('call', 'array'):
        out = [n.text + '(' if n.op == 'call' else '[']
        for i, a in enumerate(n.args):
            if i:
                out.append(',')
            out.extend(full(a))
        out.append(')' if n.op == 'call' else ']')
        return out
    if n.op in ('not', '~'):
        return ['(', n.op] + full(n.args[0]) + [')']
    if n.op == 'then':
        return ['('] + full(n.args[0]) + ['then'] + full(n.args[1]) + ['else'] + full(n.args[2]) + [')']
    if n.op == 'IMPL':
        return ['('] + full(n.args[0]) + ['*'] + full(n.args[1]) + [')']
    return ['('] + full(n.args[0]) + [n.op] + full(n.args[1]) + [')']


def opcount(n):
    return (0 if n.op in ('lit', 'raw', 'par', 'array') else 1) + sum(opcount(a) for a in n.args)


def levels(n, out=None):
    out = set() if out is None else out
    if n.op in gen.LEVEL:
        out.add(gen.LEVEL[n.op])
    for a in n.args:
        levels(a, out)
    return out
