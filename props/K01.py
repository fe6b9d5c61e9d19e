"""Functions and operators take the documented operands and refuse others."""
from vlib import sut
from vlib.sut import check, Err, model
from props import M01

RULE = ('calls of every function with 0 to 6 arguments of the documented kinds, and of every function and binary or prefix operator with one operand replaced by one of another kind '
        '(number, text, boolean, date, quantity, unit, unit system, function, array of numbers, texts or booleans, undefined), each operand written as a literal, in brackets, through a variable, an inline function or an element of an array; '
        'oracle: own table of counts and kinds. Non-trivial: the operand is not a bare literal, or the call is nested, or an operand is refused.')


# ---- operands -------------------------------------------------------------

def g_int(s):
    return s.pick(['1', '2', '3', '1', '2', '7', '0x2', '0b11', '1.0'])


def g_small(s):
    return s.pick(['1', '2', '3'])


def g_num(s):
    return s.pick(['1', '2', '7', '2.5', '0.25', '1E1', '0x1F', '12%', '3.75'])


def g_bool(s):
    return s.pick(['true', 'false', 'True', 'FALSE'])


def g_text(s):
    n = s.size(1, 6, 3)
    return "'" + 'q' + ''.join(s.pick('xzq uk') for _ in range(n)) + "'"


def g_date(s):
    return "'{:04d}-{:02d}-{:02d}{}'".format(s.int(1900, 2100), s.int(1, 12), s.int(1, 28), s.pick(['', '', 'T10:20:30', 'T01:02:03.250000']))


def g_time(s):
    return s.pick(['(5 days)', '(2 hours)', '(90 s)', '(1.5 hours)', '(2 minutes)'])


def g_qty(s):
    return s.pick(['(5 m)', '(2.5 kg)', '(3 feet)', '(0.25 inches)', '(70 miles)'])


def g_unit(s):
    return s.pick(['meters', 'km', 'kilograms', 'feet'])


def g_timeunit(s):
    return s.pick(['days', 'hours', 'seconds', 'minutes', 's'])


def g_sys(s):
    return s.pick(['si', 'us', 'uk'])


def g_func(s):
    return s.pick(['{ PARAM1 }', '{ 1 }', "{ PARAM1 + 1 }"])


def g_arr(s):
    return '[' + ', '.join(g_int(s) for _ in range(length_of(s))) + ']'


SIZE = [None, 2]


def length_of(s):
    """All arrays of a case have one length."""
    if SIZE[0] is not s:
        SIZE[:] = [s, s.int(2, 6) if s.bool(6, 7) else s.int(7, 50)]
    return SIZE[1]


def g_arr2(s):
    return '[' + ', '.join(g_num(s) for _ in range(length_of(s))) + ']'


def g_barr(s):
    return '[' + ', '.join(g_bool(s) for _ in range(length_of(s))) + ']'


def g_sarr(s):
    return '[' + ', '.join(g_text(s) for _ in range(length_of(s))) + ']'


def g_sarr2(s):
    return '[' + ', '.join(g_text(s) for _ in range(length_of(s))) + ']'


def g_anyarr(s):
    return s.pick([g_arr2, g_barr, g_sarr2])(s)


def g_pattern(s):
    return s.pick(["'q'", "'[qx]'", "'q.*'", "'(q)'", "'^q'"])


def g_none(s):
    return s.pick(['nosuch', 'x_undefined'])


def g_str(s):
    return s.pick([g_text, g_text, g_text, g_num, g_date, g_bool])(s)


def g_rep(s):
    return s.pick(['hexadecimal', 'binary', 'octal', 'decimal', 'scientific', 'percentage'])


def g_var(s):
    return s.pick(['x_v', 'x_w'])


def g_textnum(s):
    return g_text(s)


def g_empty(s):
    return "''"


def g_mixednum(s):
    xs = [g_num(s) for _ in range(length_of(s) - 1)]
    xs.insert(s.draw(len(xs)), s.pick([g_text, g_empty, g_date])(s))
    return '[' + ', '.join(xs) + ']'


def g_mixedbool(s):
    xs = [g_bool(s) for _ in range(length_of(s) - 1)]
    xs.insert(s.draw(len(xs)), s.pick([g_text, g_empty, g_date, g_num, g_qty])(s))
    return '[' + ', '.join(xs) + ']'


GEN = {'mixednum': g_mixednum, 'mixedbool': g_mixedbool, 'int': g_int, 'half': lambda s: s.pick(['2.5', '0.75']), 'num': g_num, 'bool': g_bool, 'text': g_text, 'empty': g_empty, 'date': g_date, 'time': g_time, 'qty': g_qty,
       'unit': g_unit, 'sys': g_sys, 'func': g_func, 'arr': g_arr, 'barr': g_barr, 'sarr': g_sarr, 'none': g_none}
# kinds that can be written in other forms than directly
VALUES = {'mixednum', 'mixedbool', 'int', 'half', 'num', 'bool', 'text', 'empty', 'date', 'time', 'qty', 'arr', 'barr', 'sarr'}
SCALARS = {'int', 'half', 'num', 'bool', 'text', 'empty', 'date', 'time', 'qty'}

# slot -> (generator of right operands, value kind of those, kinds that are refused)
SLOT = {
    'num': (g_num, 'num', ['text', 'empty', 'date', 'unit', 'sys', 'func', 'none']),
    'int': (g_int, 'int', ['text', 'empty', 'date', 'unit', 'sys', 'func', 'none']),
    'small': (g_small, 'int', ['text', 'empty', 'date', 'unit', 'sys', 'func', 'none']),
    'plain': (g_num, 'num', ['text', 'empty', 'date', 'unit', 'sys', 'func', 'none', 'qty', 'time']),
    'plainint': (g_int, 'int', ['text', 'empty', 'date', 'unit', 'sys', 'func', 'none', 'qty', 'time', 'half']),
    'prodnum': (g_num, 'num', ['text', 'empty', 'date', 'sys', 'func', 'none']),
    'whole': (g_int, 'int', ['text', 'empty', 'date', 'unit', 'sys', 'func', 'none', 'half']),
    'str': (g_str, 'text', ['func']),
    'pattern': (g_pattern, 'text', ['func']),
    'bool': (g_bool, 'bool', ['int', 'half', 'text', 'empty', 'date', 'time', 'qty', 'unit', 'sys', 'func', 'none']),
    'any': (g_anyarr, 'arr', ['int', 'half', 'text', 'empty', 'bool', 'date', 'time', 'qty', 'unit', 'sys', 'func', 'none']),
    'nums': (g_arr2, 'arr', ['int', 'half', 'text', 'empty', 'bool', 'date', 'time', 'qty', 'unit', 'sys', 'func', 'none', 'sarr', 'mixednum', 'mixednum']),
    'bools': (g_barr, 'barr', ['int', 'half', 'text', 'empty', 'bool', 'date', 'time', 'qty', 'unit', 'sys', 'func', 'none', 'arr', 'sarr', 'mixedbool', 'mixedbool']),
    'strs': (g_sarr2, 'sarr', ['int', 'half', 'text', 'empty', 'bool', 'date', 'time', 'qty', 'unit', 'sys', 'func', 'none']),
    'date': (g_date, 'date', ['int', 'half', 'text', 'empty', 'bool', 'time', 'qty', 'unit', 'sys', 'func', 'none']),
    'time': (g_time, 'time', ['int', 'half', 'text', 'empty', 'bool', 'date', 'qty', 'unit', 'sys', 'func', 'none']),
    'qty': (g_qty, 'qty', ['int', 'half', 'text', 'empty', 'bool', 'date', 'unit', 'sys', 'func', 'none']),
    'toqty': (lambda s: '(5 m)', 'qty', ['int', 'half', 'text', 'empty', 'bool', 'date', 'sys', 'func', 'none']),
    'tounit': (lambda s: s.pick(['km', 'feet', 'mm']), 'unit', ['int', 'half', 'text', 'empty', 'bool', 'date', 'sys', 'func', 'none']),
    'timeunit': (g_timeunit, 'unit', ['int', 'half', 'text', 'empty', 'bool', 'date', 'qty', 'unit', 'sys', 'func', 'none']),
    'sys': (g_sys, 'sys', ['int', 'half', 'text', 'empty', 'bool', 'date', 'qty', 'unit', 'func', 'none']),
    'rep': (g_rep, 'rep', []),
    'var': (g_var, 'var', ['int', 'half', 'text', 'empty', 'bool', 'date', 'qty', 'unit', 'sys', 'func', 'arr']),
}

# name -> (slots, number of them that must be given, kind of result)
FUNCS = {
    'concat': (['any', 'any'], 2, 'array'), 'element': (['any', 'small2'], 2, None), 'filter': (['any', 'bools'], 2, 'array'), 'count': (['any'], 1, 'number'),
    'sort': (['nums'], 1, 'array'), 'reverse': (['any'], 1, 'array'),
    'dec': (['num'], 1, 'number'), 'scientific': (['num', 'small'], 1, None), 'abs': (['num'], 1, 'number'), 'floor': (['num', 'small'], 1, 'number'),
    'ceil': (['num', 'small'], 1, 'number'), 'round': (['num', 'small'], 1, 'number'), 'fact': (['whole'], 1, 'number'), 'exp': (['num'], 1, 'number'),
    'log': (['num', 'plainbase'], 1, 'number'), 'lcm': (['whole', 'whole'], 2, 'number'), 'gcd': (['whole', 'whole'], 2, 'number'),
    'sum': (['nums'], 1, 'number'), 'min': (['nums'], 1, 'number'), 'max': (['nums'], 1, 'number'), 'mean': (['nums'], 1, 'number'), 'median': (['nums'], 1, 'number'),
    'mode': (['nums'], 1, 'number'), 'stdev': (['nums'], 1, 'number'),
    'reset': ([], 0, None), 'delete': (['var'], 1, None), 'now': ([], 0, 'text'),
    'format': (['qty', 'sys'], 1, None), 'compact': (['qty'], 1, None),
    'dateformat': (['date'], 1, 'text'), 'dateadd': (['date', 'time'], 2, 'text'), 'datesubtract': (['date', 'time'], 2, 'text'), 'datedifference': (['date', 'date', 'timeunit'], 2, 'number'),
    'base': (['plainint', 'plainint10'], 2, None), 'bin': (['int'], 1, None), 'hex': (['int'], 1, None), 'oct': (['int'], 1, None),
    'regexget': (['qtext', 'pattern', 'one'], 2, 'any'), 'regexsplit': (['str', 'pattern'], 2, 'array'), 'regexsub': (['str', 'pattern', 'str', 'small'], 3, 'text'),
    'regexcount': (['str', 'pattern'], 2, 'number'), 'split': (['str', 'qtext'], 2, 'array'), 'join': (['strs', 'str'], 1, 'text'), 'length': (['str'], 1, 'number'),
    'lower': (['str'], 1, 'text'), 'upper': (['str'], 1, 'text'), 'lstrip': (['str', 'str'], 2, 'text'), 'rstrip': (['str', 'str'], 2, 'text'), 'strip': (['str', 'str'], 2, 'text'),
    'find': (['str', 'str'], 2, 'number'), 'replace': (['str', 'qtext', 'str'], 3, 'text'), 'substr': (['qtext', 'one', 'one'], 2, 'text'),
}
for _n in ('sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'tanh', 'asinh'):
    FUNCS[_n] = (['plain'], 1, 'number')
FUNCS['asin'] = FUNCS['acos'] = FUNCS['atanh'] = (['unitrange'], 1, 'number')
FUNCS['acosh'] = (['plainint'], 1, 'number')
SLOT['small2'] = (lambda s: s.pick(['1', '2']), 'int', ['text', 'empty', 'date', 'unit', 'sys', 'func', 'none'])
SLOT['one'] = (lambda s: '1', 'int', ['text', 'empty', 'date', 'unit', 'sys', 'func', 'none'])
SLOT['plainbase'] = (lambda s: s.pick(['2', '10', '3.5']), 'num', SLOT['num'][2])
SLOT['plainint10'] = (lambda s: s.pick(['2', '10', '16', '36']), 'int', [k for k in SLOT['plainint'][2] if k != 'half'])
SLOT['qtext'] = (g_text, 'text', ['func'])
SLOT['unitrange'] = (lambda s: s.pick(['0.25', '0.5', '0', '12%']), 'num', SLOT['plain'][2])
SLOT['plainint'] = (g_int, 'int', [k for k in SLOT['plainint'][2] if k != 'half'])

NAMES = sorted(FUNCS)

OPS = {}
for _o in ('+', '-', '\\', '%'):
    OPS[_o] = ['plain', 'plain', 'number']
for _o in ('<', '>', '<=', '>=', '==', '!='):
    OPS[_o] = ['plain', 'plain', 'bool']
OPS['*'] = OPS['/'] = ['prodnum', 'prodnum', 'number']
OPS['^'] = ['prodnum', 'plainpow', 'number']
SLOT['plainpow'] = (g_small, 'int', SLOT['plain'][2])
for _o in ('&', '|', '^^', '<<', '>>'):
    OPS[_o] = ['bits', 'bits', None]
SLOT['bits'] = (g_int, 'int', SLOT['plain'][2])
for _o in ('and', 'or', 'xor'):
    OPS[_o] = ['bool', 'bool', 'bool']
for _o in ('<$', '>$', '<=$', '>=$', '==$', '!=$', '<~', '>~', '<=~', '>=~', '==~', '!=~'):
    OPS[_o] = ['str', 'str', 'bool']
OPS['+$'] = ['str', 'str', 'text']
OPS['*$'] = ['str', 'small', 'text']
OPS['=~'] = ['str', 'pattern', 'bool']
OPS['!~'] = ['str', 'pattern', 'bool']
OPS['+%'] = OPS['-%'] = ['date', 'time', 'text']
OPS['as'] = ['num', 'rep', None]
OPS['to'] = ['toqty', 'tounit', None]
OPNAMES = sorted(OPS)

SETUP = ['x_v = 5', 'x_w = [1, 2]', 'x_id = { PARAM1 }']


def operand(s, t, lines, kind, text):
    """The operand in one of the forms it can be written in."""
    if kind not in VALUES or not s.bool(1, 3):
        return text
    k = s.draw(3)
    if k == 0:
        return '(' + text + ')'
    t.nt()
    if k == 1:
        name = 'x_o{}'.format('abcdefgh'[len(lines)])
        lines.append('{} = {}'.format(name, text))
        return name
    if k == 2 or kind not in SCALARS:
        return '@x_id({})'.format(text)
    return 'element([{}], 1)'.format(text)


def right(s, t, lines, slot):
    gen, kind, _ = SLOT[slot]
    return operand(s, t, lines, kind, gen(s))


def wrong(s, t, lines, slot):
    k = s.pick(SLOT[slot][2])
    x = GEN[k](s)
    t.label('wrong ' + k)
    t.nt()
    return k, x if slot == 'var' else operand(s, t, lines, k, x)


def prepare(c, t, lines):
    c.calculate('reset()')
    for ln in SETUP + lines:
        r = sut.run(c, ln)
        check(not isinstance(r, Err), '{} was refused: {}', ln, r)
    if lines:
        t.show('given: ' + '; '.join(lines))


def kind_ok(kind, v):
    from fractions import Fraction
    if kind == 'any':
        return v is not None
    if kind is None:
        return v is not None and not isinstance(v, list)
    if kind == 'number':
        return type(v) is Fraction
    if kind == 'bool':
        return type(v) is bool
    if kind == 'text':
        return type(v) is str
    return isinstance(v, list) and all(x[0] is not sut.ERR for x in v)


def accepted(c, t, stmt, kind):
    r = sut.last(c, stmt)
    check(not isinstance(r, Err), '{} was refused: {}', stmt, r)
    if stmt.startswith(('reset(', 'delete(')):
        return
    check(r is not None and (stmt.startswith('element(') or kind_ok(kind, model(r[0]))), '{} gave {} instead of a {}', stmt, None if r is None else model(r[0]), kind or 'value')


def refused(c, t, stmt, why):
    before = sut.snap_vars(c)
    r = sut.last(c, stmt)
    check(isinstance(r, Err), '{} {} but gave {}', stmt, why, None if r is None else model(r[0]) if not isinstance(r, Err) else r)
    after = sut.snap_vars(c)
    check(before == after, '{} was refused but changed the variables from {} to {}', stmt, before, after)


def wrap(s, t, stmt):
    """Something that needs the result, around it."""
    k = s.draw(7)
    if k < 4:
        return stmt
    t.nt()
    if k == 4:
        return '(' + stmt + ')'
    if k == 5:
        return '@x_id(' + stmt + ')'
    if k == 6:
        return 'x_r = ' + stmt
    return 'length(' + stmt + ')'


def call(f, args):
    return '{}({})'.format(f, ', '.join(args))


def counts(s, t):
    """The right kinds of arguments, any number of them."""
    c = t.env.calc('Computing')
    f = s.pick(NAMES)
    slots, least, kind = FUNCS[f]
    lines = []
    n = s.draw(len(slots) + 2)
    args = [right(s, t, lines, sl) for sl in slots[:n]]
    while len(args) < n:
        sl = slots[-1] if slots else 'num'
        if sl in ('any', 'nums', 'bools', 'strs'):
            # one-array functions take several; several arrays are taken element by element
            if len(slots) == 1:
                sl = None
        if sl is None:
            break
        if SLOT[sl][1] in ('arr', 'barr', 'sarr') or s.bool(1, 3):
            sl = s.pick(['num', 'str'])
        args.append(right(s, t, lines, sl))
    n = len(args)
    if n > len(slots):
        # values where arrays are expected in the places there are
        t.label('too many')
    stmt = call(f, args)
    prepare(c, t, lines)
    t.show(stmt)
    if n < least or n > len(slots):
        t.nt()
        if n < least:
            t.label('too few')
        refused(c, t, wrap(s, t, stmt), 'has {} arguments'.format(n))
    else:
        accepted(c, t, stmt, kind)


def kinds(s, t):
    """One argument of another kind."""
    c = t.env.calc('Computing')
    f = s.pick([n for n in NAMES if FUNCS[n][0]])
    slots, least, kind = FUNCS[f]
    n = s.int(least, len(slots))
    if n == 0:
        n = 1
    i = s.draw(n - 1)
    if not SLOT[slots[i]][2]:
        i = 0
    lines = []
    args = []
    for j in range(n):
        if j == i:
            k, x = wrong(s, t, lines, slots[j])
            args.append(x)
        else:
            args.append(right(s, t, lines, slots[j]))
    stmt = call(f, args)
    prepare(c, t, lines)
    t.show(stmt)
    refused(c, t, wrap(s, t, stmt), 'has the {} operand {} at place {}'.format(k, args[i], i + 1))


def special(s, t):
    """Special functions: fixed numbers of numbers."""
    c = t.env.calc('Computing')
    f = s.pick(SPECIAL)
    k = PARAMS[f]
    lines = []
    n = s.draw(k + 2)
    slots = ['num'] * n
    args = [right(s, t, lines, 'num') for _ in range(n)]
    if n == k:
        i = s.draw(n - 1)
        kk, args[i] = wrong(s, t, lines, 'num')
    t.nt()
    prepare(c, t, lines)
    stmt = call(f, args)
    t.show(stmt)
    refused(c, t, wrap(s, t, stmt), 'has {} arguments, not {}'.format(n, k) if n != k else 'has a {} argument'.format(kk))


def operators(s, t):
    c = t.env.calc('Computing')
    o = s.pick(OPNAMES)
    l, r, kind = OPS[o]
    lines = []
    k = s.draw(5)
    if k < 1:
        a, b = right(s, t, lines, l), right(s, t, lines, r)
        stmt = '{} {} {}'.format(a, o, b)
        prepare(c, t, lines)
        t.show(stmt)
        accepted(c, t, stmt, kind)
        return
    if k == 1:
        # an operand is missing
        t.nt()
        t.label('missing')
        if s.bool() or o in '+-':
            stmt = '{} {}'.format(right(s, t, lines, l), o)
        else:
            stmt = '{} {}'.format(o, right(s, t, lines, r))
        prepare(c, t, lines)
        t.show(stmt)
        refused(c, t, s.pick([stmt, stmt, '(' + stmt + ')', 'length(' + stmt + ')']), 'lacks an operand')
        return
    i = s.draw(1)
    if not SLOT[(l, r)[i]][2]:
        i = 0
    ops = []
    for j, sl in enumerate((l, r)):
        if j == i:
            kk, x = wrong(s, t, lines, sl)
            ops.append(x)
        else:
            ops.append(right(s, t, lines, sl))
    stmt = '{} {} {}'.format(ops[0], o, ops[1])
    prepare(c, t, lines)
    t.show(stmt)
    refused(c, t, wrap(s, t, stmt) if o not in ('as', 'to') else stmt, 'has the {} operand {}'.format(kk, ops[i]))


PARAMS = {row[0]: row[3] for row in M01.TABLE}
SPECIAL = sorted(PARAMS)
ARRAYS = {'any', 'nums', 'bools', 'strs'}
DIRECT = {'var', 'sys', 'rep', 'timeunit', 'tounit'}
INARRAY = {'int', 'half', 'text', 'empty', 'bool', 'date', 'time', 'qty'}


def elements(s, t):
    """Arrays for single values: the elements of wrong kinds fail, the others do not."""
    c = t.env.calc('Computing')
    if s.bool(3, 5):
        f = s.pick([n for n in NAMES if any(sl not in ARRAYS | DIRECT for sl in FUNCS[n][0][:1])])
        slots, least, kind = FUNCS[f]
        slots = slots[:s.int(max(least, 1), len(slots))]
    else:
        f = None
        o = s.pick([o for o in OPNAMES])
        slots, kind = OPS[o][:2], OPS[o][2]
    cols = [j for j, sl in enumerate(slots) if sl not in ARRAYS | DIRECT]
    chosen = [j for j in cols if s.bool()] or [s.pick(cols)]
    size = s.size(1, 4, 3)
    bad = set()
    lines, ops = [], []
    for j, sl in enumerate(slots):
        if j not in chosen:
            ops.append(right(s, t, lines, sl))
            continue
        gen, k, refuse = SLOT[sl]
        refuse = [x for x in refuse if x in INARRAY and not (k in ('num', 'int') and x in ('qty', 'time'))]
        elems = []
        for i in range(size):
            if refuse and s.bool(1, 4):
                bad.add(i)
                elems.append(GEN[s.pick(refuse)](s))
            else:
                elems.append(gen(s))
        ops.append(operand(s, t, lines, 'arr', '[' + ', '.join(elems) + ']'))
    if f is None:
        stmt = '{} {} {}'.format(ops[0], o, ops[1])
    else:
        stmt = call(f, ops)
    prepare(c, t, lines)
    t.show(stmt)
    t.nt()
    if bad:
        t.label('with wrong elements')
    r = sut.last(c, stmt)
    check(not isinstance(r, Err), '{} was refused: {}', stmt, r)
    got = model(r[0])
    check(isinstance(got, list) and len(got) == size, '{} gave {} instead of {} elements', stmt, got, size)
    for i, (v, _) in enumerate(got):
        if i in bad:
            check(v is sut.ERR, '{}: element {} has an operand of a wrong kind but gave {}', stmt, i + 1, v)
        else:
            check(v is not sut.ERR, '{}: element {} failed', stmt, i + 1)

GROUPS = [('counts', counts, 3), ('kinds', kinds, 4), ('special', special, 1), ('operators', operators, 4), ('elements', elements, 4)]
