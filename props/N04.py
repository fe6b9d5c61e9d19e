"""Operator precedence and associativity."""
from fractions import Fraction

from vlib import gen, prog, sut
from vlib.gen import Node
from vlib.sut import check, Err, frac
from vlib.pbt import Discard

RULE = ('typed operator trees up to depth 6 over numbers, booleans, strings and quantities, printed with only the brackets the documented '
        'table requires, compared with the value of the tree and with the fully bracketed print. Non-trivial: operators of at least two '
        'precedence levels, or at least three operators of one level.')

NAMES = ['x', 'yy', 'q_1']


def setup(s, calc, names=True):
    vars = {}
    pre = ''
    for n, typ in (('x', 'num'), ('yy', 'num'), ('p_1', 'bool'), ('w', 'str')):
        if s.bool(1, 2):
            continue
        l = prog.leaf(s, typ, prog.Ctx())
        vars[n] = (typ, l.val)
        pre += n + ' = ' + l.text + '\n'
    return vars, pre


def one(s, t, calc, n, pre, what='the documented precedence'):
    tk = gen.toks(n, s, 0)
    text = pre + (gen.joinmin(tk) if s.bool(1, 3) else gen.ws(s, tk))
    fulltext = pre + gen.join(prog.full(n))
    t.show(text)
    got = sut.last(calc, text)
    check(not isinstance(got, Err), '{} was refused ({}); with all brackets it is {}', text, got, fulltext)
    check(prog.same(got[0], n.val), '{} should be {} by {} but is {}', text, n.val, what, sut.model(got[0]))
    ful = sut.last(calc, fulltext)
    check(not isinstance(ful, Err), '{} was refused: {}', fulltext, ful)
    check(prog.same(ful[0], n.val), '{} should be {} but is {}', fulltext, n.val, sut.model(ful[0]))
    if s.bool(1, 2):
        red = pre + gen.ws(s, gen.toks(n, s, 6))
        g = sut.last(calc, red)
        check(not isinstance(g, Err) and prog.same(g[0], n.val), '{} (redundant brackets added) should be {} but is {}', red, n.val, g if isinstance(g, Err) else sut.model(g[0]))
    lv = prog.levels(n)
    if len(lv) >= 2 or prog.opcount(n) >= 3:
        t.nt()


def c_tree(s, t):
    calc = t.env.calc('Computing')
    vars, pre = setup(s, calc)
    n = prog.expr(s, s.weighted([(5, 'num'), (4, 'bool'), (2, 'str')]), s.int(2, 6), prog.Ctx(vars))
    one(s, t, calc, n, pre)


def c_flat(s, t):
    """A flat sequence of operands and binary operators, grouped by the table."""
    calc = t.env.calc(s.pick(['Computing', 'Computing', 'Scientific']))
    comp = calc is t.env.cache.get('Computing')
    fam = s.draw(3)
    if not comp:
        fam = 0
    k = s.int(2, 9)
    if fam != 2 and s.bool(1, 4):
        # a long one
        k = s.int(10, 70)
        if fam == 0:
            ops = ['+', '-', '+', '-', '+', '-', '*', '/']
            lits = [str(s.int(1, 12)) for _ in range(k + 1)]
        elif fam == 1:
            ops = ['+', '-', '&', '|', '^^', '&', '|', '^^', '+', '-', '*']
            lits = [str(s.int(1, 99)) for _ in range(k + 1)]
        else:
            ops = ['and', 'or', 'xor']
        if fam == 3:
            atoms = [prog.leaf(s, 'bool', prog.Ctx()) for _ in range(k + 1)]
        else:
            atoms = [Node('lit', text=l, val=Fraction(int(l)), typ='num') for l in lits]
    elif fam == 0:
        ops = ['+', '-', '*', '/', '^', '%', '\\']
        atoms = [prog.leaf(s, 'num', prog.Ctx()) for _ in range(k + 1)]
    elif fam == 1:
        ops = ['+', '-', '*', '&', '|', '^^', '<<', '>>']
        atoms = [prog.leafint(s) for _ in range(k + 1)]
    elif fam == 2:
        # comparisons between bitwise and boolean operators
        return c_logic(s, t, calc)
    else:
        ops = ['and', 'or', 'xor']
        atoms = [prog.leaf(s, 'bool', prog.Ctx()) for _ in range(k + 1)]
    chosen = [s.pick(ops) for _ in range(k)]
    # shunting by level, left to right
    items = [atoms[0]]
    for o, a in zip(chosen, atoms[1:]):
        items += [o, a]
    for lv in range(16):
        i = 1
        while i < len(items):
            o = items[i]
            if gen.LEVEL[o] == lv:
                l, r = items[i - 1], items[i + 1]
                v = prog.binop(o, l.val, r.val)
                if v is None:
                    if fam == 3:
                        raise Discard()
                    # replace the operator by one of the same family and start over
                    raise Discard()
                items[i - 1:i + 2] = [Node(o, [l, r], val=v, typ=l.typ)]
            else:
                i += 2
    n = items[0]
    one(s, t, calc, n, '')


def c_logic(s, t, calc):
    """chain of comparisons joined by boolean operators: a op b & c and d op e ..."""
    parts = []
    for _ in range(s.int(1, 4)):
        l = prog.expr(s, 'num', s.draw(2), prog.Ctx(ops=('arith', 'bit'), funcs=False))
        r = prog.expr(s, 'num', s.draw(2), prog.Ctx(ops=('arith', 'bit'), funcs=False))
        op = s.pick(list(prog.CMP))
        parts.append(Node(op, [l, r], val=prog.binop(op, l.val, r.val), typ='bool'))
        if s.bool(1, 4):
            parts[-1] = Node('not', [parts[-1]], val=not parts[-1].val, typ='bool')
    n = parts[0]
    for p in parts[1:]:
        o = s.pick(['and', 'or', 'xor'])
        n = Node(o, [n, p], val=prog.binop(o, n.val, p.val), typ='bool')
    one(s, t, calc, n, '')


DIMS = {'len': ['meters', 'km', 'mile', 'feet'], 'time': ['seconds', 'hours', 'ms'], 'mass': ['kg', 'pounds']}


def quantity(s, depth, dim):
    """Trees of quantities of one dimension: list of tokens handled by Node('raw')."""
    if depth <= 0 or s.bool(1, 4):
        v = s.pick(['2', '3.5', '10', '0.25', '7'])
        k = s.draw(4)
        if k == 3:
            e = prog.expr(s, 'num', 1, prog.Ctx(ops=('arith',), funcs=False))
            if e.op in ('lit',):
                return Node('UA', [e], text=s.pick(DIMS[dim]))
            return Node('UA', [Node('par', [e])], text=s.pick(DIMS[dim]))
        if k == 2:
            return Node('UA', [Node('^', [Node('lit', text=v), Node('lit', text=s.pick(['2', '3']))])], text=s.pick(DIMS[dim]))
        return Node('UA', [Node('lit', text=v)], text=s.pick(DIMS[dim]))
    k = s.draw(5)
    if k <= 1:
        return Node(s.pick('+-'), [quantity(s, depth - 1, dim), quantity(s, depth - 1, dim)])
    e = prog.expr(s, 'num', s.draw(2), prog.Ctx(ops=('arith', 'pow'), funcs=False))
    if e.val == 0:
        e = Node('lit', text='4', val=Fraction(4))
    if k == 2:
        return Node('*', [e, quantity(s, depth - 1, dim)])
    if k == 3:
        return Node(s.pick('*/'), [quantity(s, depth - 1, dim), e])
    if k == 4:
        d2 = s.pick(list(DIMS))
        a, b = quantity(s, depth - 2, d2), quantity(s, depth - 2, d2)
        return Node('*', [quantity(s, depth - 1, dim), Node('/', [a, b])])
    return Node('call', [quantity(s, depth - 1, dim)], text='abs')


def q_toks(n, allowed=99, full=False):
    """Minimal (or full) brackets, for trees with unit assignment (level 4)."""
    if n.op == 'UA':
        lv = 4
        out = q_toks(n.args[0], lv, full) + [n.text]
    elif n.op in ('lit', 'raw'):
        return [n.text]
    elif n.op == 'par':
        return ['('] + q_toks(n.args[0], 99, full) + [')']
    elif n.op == 'call':
        return [n.text + '('] + q_toks(n.args[0], 99, full) + [')']
    elif n.op == 'array':
        out = ['[']
        for i, a in enumerate(n.args):
            out += ([','] if i else []) + q_toks(a, 99, full)
        return out + [']']
    else:
        lv = gen.LEVEL[n.op]
        out = q_toks(n.args[0], lv, full) + [n.op] + q_toks(n.args[1], lv - 1, full)
    if full or lv > allowed:
        return ['('] + out + [')']
    return out


def c_units(s, t):
    calc = t.env.calc('Computing')
    dim = s.pick(list(DIMS))
    n = quantity(s, s.int(1, 4), dim)
    k = s.draw(4)
    if k <= 1:
        n = Node('to', [n, Node('raw', text=s.pick(DIMS[dim]))])
        if k == 1:
            n = Node('to', [n, Node('raw', text=s.pick(DIMS[dim]))])
    elif k == 2:
        n = Node(s.pick(['<', '>', '==', '!=']), [n, quantity(s, 2, dim)])
        if s.bool():
            n = Node(s.pick(['and', 'or']), [n, Node('lit', text='true')])
    elif k == 3:
        n = Node('as', [n, Node('raw', text=s.pick(['scientific', 'percentage', 'hexadecimal', 'binary']))])
    text = gen.ws(s, q_toks(n))
    ful = gen.join(q_toks(n, full=True))
    # the unit operand of to/as is no value: keep it out of brackets
    t.show(text)
    a, b = sut.last(calc, text), sut.last(calc, ful)
    if isinstance(b, Err):
        # out of the domain (division by a zero quantity)
        check(isinstance(a, Err), '{} gives a result but {} is refused: {}', text, ful, b)
        return
    check(not isinstance(a, Err), '{} was refused but {} gives a result: {}', text, ful, a)
    check(sut.snap(a[0], a[1], calc) == sut.snap(b[0], b[1], calc), '{} gives {} but {} gives {}', text, sut.snap(a[0], a[1], calc), ful, sut.snap(b[0], b[1], calc))
    if len(n.args) and n.op != 'UA':
        t.nt()


GROUPS = [('trees', c_tree, 6), ('flat', c_flat, 4), ('quantities', c_units, 3)]
