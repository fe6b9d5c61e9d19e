"""Arrays and ranges apply operations element by element."""
from fractions import Fraction

from vlib import gen, prog, script, sut, units as U
from vlib.gen import Node
from vlib.prog import Ctx
from vlib.sut import check, Err, frac, unitpowers, snap

RULE = ('every operator, scalar function and random expression tree applied to arrays of 0 to 12 elements (numbers in all notations, quantities, strings, booleans, dates, failed '
        'elements) and single operands, compared element by element with the operation on the single elements; ranges with and without units vs exact references; arrays '
        'of any expressions vs their elements. Non-trivial: at least 2 elements.')

E = ('error',), None


def one(calc, text):
    r = sut.last(calc, text)
    return E if isinstance(r, Err) else snap(r[0], r[1], calc)


# -- operands: (kind -> element text) ---------------------------------------

LEN = ['m', 'km', 'feet', 'inches', 'cm']
TIM = ['seconds', 'hours', 'days', 'ms']
NOTE = ['0x1F', '0b1011', '0o17', '5%', '2.5E3', '36zHI', '-0x0A', '0b0001', '0x00ff']


def small(s):
    return gen.num_lit(s, big=False)[0]


def element(s, kind):
    """The text of one operand of a kind."""
    if kind == 'num':
        k = s.draw(7)
        return s.pick(NOTE) if k == 7 else s.pick(['0', '1', '-1', '2']) if k == 6 else small(s)
    if kind == 'int':
        return str(s.draw(60)) if s.bool(4, 5) else s.pick(['0x1F', '0b1011', '0o17', '0'])
    if kind == 'tiny':
        return str(s.draw(12))
    if kind == 'exp':
        return s.pick(['0', '1', '2', '3', '-1', '-2', '0.5'])
    if kind == 'len':
        return small(s) + ' ' + s.pick(LEN)
    if kind == 'time':
        return small(s) + ' ' + s.pick(TIM)
    if kind == 'qty':
        return small(s) + ' ' + s.pick(LEN + TIM + ['kg', 'm/s', 'm^2', 'degrees', 'bytes'])
    if kind == 'any':
        return element(s, s.weighted([(6, 'num'), (3, 'len'), (2, 'qty'), (1, 'str'), (1, 'bool')]))
    if kind == 'bool':
        return s.pick(['true', 'false'])
    if kind == 'str':
        return prog.quote(s.pick(['', 'a', 'abc', 'Abc', 'banana', 'a b', 'x,y,z', 'é', '12', 'b', 'aXbX', "it's"]))
    if kind == 'sub':
        return prog.quote(s.pick(['a', 'b', 'X', 'an', ',', ' ', 'zz']))
    if kind == 'pat':
        return prog.quote(s.pick(['a', '[ab]', 'x|y', 'n+', '^a', '\\d', 'b$', '(a)']))
    if kind == 'date':
        return prog.quote(s.pick(['2020-02-28', '1999-12-31T23:59:59', '2000-01-01T00:00:00.5', '2024-02-29', '2021-06-15', '1900-03-01']))
    if kind == 'pos':
        return str(s.int(1, 5))
    if kind == 'base':
        return str(s.int(2, 36))
    if kind == 'strnum':
        return element(s, s.pick(['str', 'str', 'num']))
    if kind == 'func':
        return s.pick(['0.5', '1', '0', '0.25', '2'])
    raise AssertionError(kind)


OPS = [
    ('{} + {}', 'any any'), ('{} - {}', 'any any'), ('{} * {}', 'any any'), ('{} / {}', 'any any'), ('{} + {}', 'len len'), ('{} - {}', 'time time'), ('{} / {}', 'len time'),
    ('{} % {}', 'num num'), ('{} \\ {}', 'num num'), ('{} ^ {}', 'num exp'), ('{} ^ {}', 'len exp'),
    ('{} & {}', 'int int'), ('{} | {}', 'int int'), ('{} ^^ {}', 'int int'), ('{} << {}', 'int tiny'), ('{} >> {}', 'int tiny'), ('~ {}', 'int'),
    ('{} == {}', 'any any'), ('{} != {}', 'any any'), ('{} < {}', 'any any'), ('{} > {}', 'len len'), ('{} <= {}', 'num num'), ('{} >= {}', 'num num'),
    ('{} +$ {}', 'strnum strnum'), ('{} *$ {}', 'str pos'), ('{} ==$ {}', 'str str'), ('{} <$ {}', 'str str'), ('{} >=~ {}', 'str str'), ('{} !=~ {}', 'str str'), ('{} =~ {}', 'str pat'), ('{} !~ {}', 'str pat'),
    ('{} and {}', 'bool bool'), ('{} or {}', 'bool bool'), ('{} xor {}', 'bool bool'), ('not {}', 'bool'), ('{} then {} else {}', 'bool any any'),
    ('{} and {}', 'any bool'), ('not {}', 'any'), ('{} then {} else {}', 'any num num'),
    ('{} to feet', 'len'), ('{} to km/hour', 'qty'), ('{} as hexadecimal', 'int'), ('{} as percentage', 'num'), ('{} as decimal', 'any'), ('{} as scientific', 'num'),
    ('{} m', 'num'), ('{} km/hour', 'num'), ('{} {}', 'num num'),
    ('{} +% {}', 'date time'), ('{} -% {}', 'date time'), ('{} +% {}', 'any any'),
    ('abs({})', 'any'), ('floor({})', 'any'), ('ceil({})', 'any'), ('round({})', 'any'), ('round({}, {})', 'num tiny'), ('floor({}, {})', 'num tiny'), ('exp({})', 'exp'), ('log({})', 'num'), ('log({}, {})', 'pos pos'),
    ('fact({})', 'tiny'), ('gcd({}, {})', 'int int'), ('lcm({}, {})', 'int int'), ('sin({})', 'num'), ('cos({})', 'qty'), ('atan({})', 'num'), ('asin({})', 'num'), ('tanh({})', 'num'),
    ('hex({})', 'num'), ('bin({})', 'int'), ('oct({})', 'int'), ('dec({})', 'num'), ('base({}, {})', 'int base'), ('scientific({})', 'num'),
    ('length({})', 'strnum'), ('upper({})', 'str'), ('lower({})', 'str'), ('strip({}, {})', 'str sub'), ('lstrip({}, {})', 'str sub'), ('find({}, {})', 'str sub'), ('replace({}, {}, {})', 'str sub sub'),
    ('substr({}, {})', 'str pos'), ('substr({}, {}, {})', 'str pos pos'), ('split({}, {})', 'str sub'), ('regexget({}, {})', 'str pat'), ('regexsub({}, {}, {})', 'str pat sub'), ('regexcount({}, {})', 'str pat'),
    ('regexsplit({}, {})', 'str pat'), ('dateadd({}, {})', 'date time'), ('datesubtract({}, {})', 'date time'), ('datedifference({}, {})', 'date date'), ('dateformat({})', 'date'), ('compact({})', 'qty'),
    ('format({})', 'time'), ('sp_erf({})', 'func'), ('sp_jv({}, {})', 'pos func'), ('sp_ellipk({})', 'func'),
]


class Operand:
    """Element texts; None where the element has failed."""

    def __init__(self, s, kind, n):
        self.array = n is not None
        self.items = [element(s, kind) for _ in range(n if self.array else 1)]
        self.failed = [False] * len(self.items)
        if self.array and kind in ('num', 'int', 'any') and s.bool(1, 8):
            self.failed = [s.bool(1, 4) for _ in self.items]
            if any(self.failed):
                self.items = [str(s.int(1, 20)) for _ in self.items]
            if not self.items:
                self.failed = []
        self.nested = None

    def text(self):
        if not self.array:
            return '(' + self.items[0] + ')'
        if not self.items:
            return '[1..2 step 0]'
        if any(self.failed):
            return '([' + ', '.join(self.items) + '] / [' + ', '.join('0' if f else '1' for f in self.failed) + '])'
        return '[' + ', '.join(self.items) + ']'

    def single(self, i):
        i = i if self.array else 0
        return '(' + (self.items[i] + (' / 0' if self.failed[i] else ' / 1' if any(self.failed) else '')) + ')'


def operation(s, t):
    tpl, kinds = s.pick(OPS)
    kinds = kinds.split()
    n = s.weighted([(2, 0), (4, 1), (16, s.int(2, 4)), (4, s.int(5, 12)), (1, s.int(13, 70))])
    which = [s.bool() for _ in kinds]
    if not any(which):
        which[s.draw(len(kinds) - 1)] = True
    args = [Operand(s, k, n if w else None) for k, w in zip(kinds, which)]
    calc = t.env.calc()
    calc.vars = {}
    body = tpl
    names = []
    setup = ''
    for i, a in enumerate(args):
        x = a.text()
        if s.bool(1, 4):
            v = 'va{}'.format(i)
            setup += '{} = {}\n'.format(v, x)
            x = v
        names.append(x)
    text = setup + fill(tpl, names)
    mismatch = sum(which) >= 2 and n >= 1 and s.bool(1, 12)
    if mismatch:
        a = [a for a in args if a.array][-1]
        if any(a.failed):
            return
        a.items = a.items[:-1] if len(a.items) > 1 and s.bool() else a.items + [element(s, kinds[-1])]
        a.failed = [False] * len(a.items)
        text = fill(tpl, [a.text() for a in args])
    t.show(text)
    t.label(tpl.split('(')[0] if '(' in tpl else tpl.replace('{}', '').strip())
    got = sut.last(calc, text)
    if mismatch:
        check(isinstance(got, Err), '{} is {} in spite of the different lengths', text, got)
        t.nt()
        return
    want = [one(calc, fill(tpl, [a.single(i) for a in args])) for i in range(n)]
    if isinstance(got, Err):
        raise sut.Violation('{} fails ({}), its elements give {}'.format(text, got.message, want))
    check(isinstance(got[0], list), '{} is {}', text, got)
    got = [snap(v.value, v.unit, calc) for v in got[0]]
    check(got == want, '{} gives {}, the single operations give {}', text, got, want)
    if n >= 2:
        t.nt()
    if any(w == E for w in want):
        t.label('with a failing element')


def fill(tpl, args):
    for a in args:
        tpl = tpl.replace('{}', a, 1)
    return tpl


def trees(s, t):
    """An expression over array variables against the expression over their elements."""
    n = s.weighted([(24, s.int(1, 5)), (1, s.int(6, 60))])
    vals = {}
    ctxvars = {}
    for name in s.sample(['x', 'y', 'z'], s.int(1, 3)):
        typ = s.weighted([(4, 'num'), (2, 'bool'), (2, 'str')])
        if typ == 'num':
            xs = [Fraction(s.int(-9, 20)) if s.bool(3, 4) else Fraction(small(s)) for _ in range(n)]
            el = [gen_num(v) for v in xs]
        elif typ == 'bool':
            xs = [s.bool() for _ in range(n)]
            el = ['true' if v else 'false' for v in xs]
        else:
            xs = [s.pick(['', 'a', 'b', 'ab', '12', 'a b']) for _ in range(n)]
            el = [prog.quote(v) for v in xs]
        arr = s.bool(3, 4)
        if not arr:
            xs, el = xs[:1] * n, el[:1] * n
        vals[name] = (arr, el)
        ctxvars[name] = (typ, xs[0])
    if not any(a for a, _ in vals.values()):
        return
    ctx = Ctx(ctxvars, ops=['arith', 'adv', 'bool', 'cmp', 'str', 'strcmp', 'then', 'regex'], funcs=False)
    node = prog.expr(s, s.pick(['num', 'bool', 'str']), s.int(1, 4), ctx)
    tk = gen.toks(node, s, s.draw(3))
    used = [v for v in vals if v in tk and vals[v][0]]
    if not used:
        return
    setup = ''.join('{} = {}\n'.format(v, '[' + ', '.join(el) + ']' if arr else el[0]) for v, (arr, el) in sorted(vals.items()))
    text = setup + gen.join(tk)
    t.show(text)
    calc = t.env.calc()
    calc.vars = {}
    got = sut.last(calc, text)
    want = []
    for i in range(n):
        calc.vars = {}
        want.append(one(calc, ''.join('{} = {}\n'.format(v, el[i]) for v, (arr, el) in sorted(vals.items())) + gen.join(tk)))
    check(not isinstance(got, Err), '{} fails: {}; the single operations give {}', text, got, want)
    check(isinstance(got[0], list), '{} is {}', text, got)
    got = [snap(v.value, v.unit, calc) for v in got[0]]
    check(got == want, '{} gives {}, the single expressions give {}', text, got, want)
    if n >= 2 and len(tk) >= 4:
        t.nt()


def gen_num(v):
    return prog.num_text(v)


# -- ranges -----------------------------------------------------------------

def ranges(s, t):
    calc = t.env.calc()
    calc.vars = {}
    k = s.draw(9)
    d = s.pick([1, 1, 1, 2, 10, 100, 4, 3, 7, 6, 11])
    q = lambda lo, hi: Fraction(s.int(lo, hi), d)
    if s.bool(1, 3):
        quantity = s.pick(['length', 'time', 'mass', 'data'])
        unit = [u for u in U.ALL if u.quantity == quantity and not u.tol and not u.offset]
        us = [s.pick(unit) for _ in range(3)] if unit else None
    else:
        us = None
    count = s.weighted([(1, 0), (2, 1), (8, s.int(2, 8)), (3, s.int(9, 40)), (1, s.int(41, 300))])
    a = q(-50, 50)
    step = q(1, 30)
    if s.bool(1, 3):
        step = -step
    b = a + step * max(count - 1, 0) + (step * Fraction(s.draw(9), 10) if s.bool() else 0)
    if s.bool(1, 6):
        # just short of the last element, or just behind it
        b += s.pick([1, -1]) * Fraction(1, 10 ** s.int(8, 30))
    given = True
    if s.bool(1, 4):
        # without a step
        given = False
        step = Fraction(1 if b >= a else -1)
    if k == 0 and given and b != a:
        step = -step                            # the wrong direction
    if k == 1 and given:
        step = Fraction(0)
    if us:
        # all in the unit of the start
        one_ = us[0].scale
        tb, ts = b * one_ / us[1].scale, step * one_ / us[2].scale
        if any(max(gen.digits(x.numerator), gen.digits(x.denominator)) > 14 for x in (tb, ts)) and b.denominator < 10 ** 8:
            us = [us[0]] * 3
            tb, ts = b, step
    else:
        tb, ts = b, step
    form = lambda v: plain(s, v)
    parts = [form(a), form(tb), form(ts)]
    names = [s.pick(u.names) for u in us] if us else None
    if us:
        parts = ['{} {}'.format(p, w) for p, w in zip(parts, names)]
    if us and k == 2:
        # units are missing
        n = 3 if given else 2
        for i in s.pick([[i] for i in range(n)] + ([[0, 1], [0, 2], [1, 2]] if given else [])):
            parts[i] = parts[i].rsplit(' ', len(names[i].split(' ')))[0]
    text = '[{} .. {}{}]'.format(parts[0], parts[1], ' step ' + parts[2] if given else '')
    pre, post = s.draw(2) if s.bool(1, 4) else 0, s.draw(2) if s.bool(1, 4) else 0
    if pre or post:
        text = '[' + '7, ' * pre + text[1:-1] + ', 8' * post + ']'
    t.show(text)
    got = sut.last(calc, text)
    bad = (us and k == 2) or (b - a) * step < 0
    if bad:
        check(isinstance(got, Err), '{} is {}', text, got)
        t.nt()
        return
    want = []
    v = a
    while (step > 0 and v <= b) or (step < 0 and v >= b):
        want.append(v)
        v += step
    check(not isinstance(got, Err), '{} fails: {}', text, got)
    res = got[0]
    check(isinstance(res, list), '{} is {}', text, got)
    res = [(frac(x.value), unitpowers(x.unit)) for x in res]
    u = {us[0].singular: 1} if us else {}
    want = [(Fraction(7), {})] * pre + [(w, u) for w in want] + [(Fraction(8), {})] * post
    check(res == want, '{} is {} instead of {}', text, res, want)
    if len(want) >= 2:
        t.nt()
    t.label('units' if us else 'plain')


def plain(s, v):
    """v as text: decimal if it ends, else a quotient; sometimes in another notation."""
    d = v.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    if d != 1 or Fraction(prog.num_text(v)) != v:
        return '({} / {})'.format(v.numerator, v.denominator)
    if v.denominator == 1 and v >= 0 and s.bool(1, 6):
        return s.pick([hex, bin, oct])(int(v))
    x = prog.num_text(v)
    return x if v >= 0 or s.bool() else '({})'.format(x)


# -- elements -----------------------------------------------------------------

def elements(s, t):
    """An array of expressions holds their values."""
    g = script.Gen(s)
    calc = t.env.calc()
    calc.vars = {}
    n = s.int(1, 8)
    exprs = [gen.join(g.any(s.int(0, 2))[0]) for _ in range(n)]
    text = '[' + ', '.join(exprs) + ']'
    if s.bool(1, 3):
        text = 'xs = ' + text + '\nxs'
    t.show(text)
    want = [one(calc, x) for x in exprs]
    got = sut.last(calc, text)
    if any(w == E for w in want):
        check(isinstance(got, Err), '{} has a failing element, but is {}', text, got)
        return
    check(not isinstance(got, Err), '{} fails: {}', text, got)
    res = [snap(v.value, v.unit, calc) for v in got[0]]
    check(res == want, '{} is {} instead of {}', text, res, want)
    i = s.int(1, n)
    e = one(calc, 'element({}, {})'.format(text if '\n' not in text else 'xs', i))
    check(e == want[i - 1], 'element {} of {} is {} instead of {}', i, text, e, want[i - 1])
    if n >= 2:
        t.nt()


GROUPS = [('operation', operation, 5), ('trees', trees, 3), ('ranges', ranges, 3), ('elements', elements, 2)]
