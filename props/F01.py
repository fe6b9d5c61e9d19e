"""User-defined functions see their arguments and restore the caller."""
import os
from fractions import Fraction

from vlib import prog, sut
from vlib.pbt import Discard
from vlib.sut import check, Err, Number, frac

RULE = ('histories of 2 to 8 calls of calculate() that define inline functions and function files and call them, nested up to three deep, with bodies of 1 to 5 statements (assignments to new, outer and PARAM '
        'names, operator assignments, delete, reset, conditionals, further functions), numbers in several notations, texts, booleans, quantities and arrays as arguments, and statements that fail at any place; '
        'oracle is a dictionary-based evaluator of the same language with exact values. Non-trivial: a call whose body assigns or fails.')
ASSUMPTIONS = ['function files are read in the encoding of the system']


class Fail(Exception):
    pass


class Val:
    """kind n (number), s, b, q (quantity), a (array), f (function), u (undefined)"""
    __slots__ = ('kind', 'v', 'unit', 'text', 'dim')

    def __init__(self, kind, v, unit=None, text=None, dim=None):
        self.kind, self.v, self.unit, self.text, self.dim = kind, v, unit, text, dim

    def __repr__(self):
        if self.kind in 'nq':
            return '{}{}'.format(self.text or self.v, ' ' + (self.unit[0] if self.unit else str(self.dim)) if self.kind == 'q' else '')
        return repr(self.v)


FAILED = Val('e', 'error')
UNDEFINED = Val('u', None)

# text of the unit, scale, dimension, unit powers of the result
UNITS = {
    'm': (1, 'distance', {'meter': 1}), 'km': (1000, 'distance', {'kilometer': 1}), 'cm': (Fraction(1, 100), 'distance', {'centimeter': 1}), 'inches': (Fraction('0.0254'), 'distance', {'inch': 1}),
    'seconds': (1, 'time', {'second': 1}), 'hours': (3600, 'time', {'hour': 1}), 'm/s': (1, 'speed', {'meter': 1, 'second': -1}), 's^-1 m': (1, 'speed', {'meter': 1, 'second': -1}),
    'km/hour': (Fraction(1000, 3600), 'speed', {'kilometer': 1, 'hour': -1}), 'newtons': (1, 'force', {'newton': 1}), 'kg m/s^2': (1, 'force', {'kilogram': 1, 'meter': 1, 'second': -2}),
    's^-2 m kg': (1, 'force', {'kilogram': 1, 'meter': 1, 'second': -2}),
}
DIMS = {'distance': [['distance'], ['distance^1'], ['distance^2', 'distance^-1']], 'time': [['time'], ['time^1']], 'speed': [['distance^1', 'time^-1'], ['time^-1', 'distance'], ['velocity'], ['acceleration', 'time']],
        'force': [['force'], ['mass', 'distance', 'time^-2'], ['time^-2', 'mass^1', 'distance'], ['mass', 'acceleration'], ['energy', 'distance^-1']]}


class File:
    def __init__(self, path, stmts, decl):
        self.path, self.stmts, self.decl = path, stmts, decl


# -- evaluating ------------------------------------------------------------------

class World:
    def __init__(self, s, t):
        self.s, self.t = s, t
        self.files = {}
        self.steps = 0
        self.marked = False
        self.depth = 0


def ev(w, e, env):
    w.steps += 1
    if w.steps > 4000:
        raise Discard('too long')
    k = e[0]
    if k == 'lit':
        return e[2]
    if k == 'var':
        return env.get(e[1], UNDEFINED)
    if k == 'fail':
        raise Fail()
    if k == 'fn':
        return Val('f', e)
    if k == 'arr':
        return Val('a', [ev(w, x, env) for x in e[1]])
    if k == 'if':
        try:
            c = ev(w, e[1], env)
        except Fail:
            c = FAILED
        sides = []
        for b in e[2:]:
            # both branches are evaluated, the one not taken may fail
            try:
                sides.append(ev(w, b, env))
            except Fail:
                sides.append(FAILED)
        if any(b.kind == 'a' for b in sides):
            raise Discard()
        if c.kind != 'b':
            raise Fail() if c.kind in 'ue' else Discard()
        v = sides[0 if c.v else 1]
        if v is FAILED:
            raise Fail()
        return v
    if k == 'sum':
        a = ev(w, e[1], env)
        if a.kind == 'u':
            raise Fail()
        if a.kind != 'a' or any(x.kind not in 'ne' for x in a.v):
            raise Discard()
        if any(x.kind == 'e' for x in a.v):
            raise Fail()
        return Val('n', sum((x.v for x in a.v), Fraction(0)))
    if k == 'bin':
        sides = []
        for x in e[2:]:
            try:
                sides.append(ev(w, x, env))
            except Fail:
                sides.append(FAILED)
        if FAILED in sides:
            # a failed operand and an array give an array of failures
            if any(x.kind == 'a' for x in sides):
                raise Discard()
            raise Fail()
        return binop(e[1], *sides)
    if k == 'call':
        f = env.get(e[1], UNDEFINED)
        if e[1] not in env:
            raise Fail()
        args = [ev(w, x, env) for x in e[2]]
        if any(a.kind == 'e' for a in args):
            raise Fail()
        if f.kind == 'a':
            out = []
            for x in f.v:
                out.append(call(w, x, args, env, True))
            return Val('a', out)
        return call(w, f, args, env)
    raise AssertionError(k)


def binop(op, a, b):
    if 'u' in (a.kind, b.kind) and 'a' not in (a.kind, b.kind):
        if op in ('+', '-', '*', '<', '=='):
            raise Fail()
        raise Discard()
    if 'e' in (a.kind, b.kind):
        raise Fail()
    if 'a' in (a.kind, b.kind):
        if a.kind == 'a' and b.kind == 'a' and len(a.v) != len(b.v):
            raise Fail()
        n = len(a.v if a.kind == 'a' else b.v)
        out = []
        for i in range(n):
            try:
                out.append(binop(op, a.v[i] if a.kind == 'a' else a, b.v[i] if b.kind == 'a' else b))
            except Fail:
                out.append(FAILED)
        return Val('a', out)
    kinds = a.kind + b.kind
    if op in '+-' and kinds == 'nn':
        return Val('n', a.v + b.v if op == '+' else a.v - b.v)
    if op == '*' and kinds == 'nn':
        v = a.v * b.v
        if v.numerator.bit_length() > 200 or v.denominator.bit_length() > 200:
            raise Discard()
        return Val('n', v)
    if op in '+-' and kinds == 'qq' and a.dim == b.dim:
        return Val('q', a.v + b.v if op == '+' else a.v - b.v, dim=a.dim)
    if op in '+-' and ('q' in kinds) and set(kinds) <= set('qn'):
        raise Fail()
    if op == '*' and kinds == 'nq':
        return Val('q', a.v * b.v, dim=b.dim)
    if op == '<' and kinds == 'nn':
        return Val('b', a.v < b.v)
    if op == '+$' and kinds == 'ss':
        if len(a.v + b.v) > 200:
            raise Discard()
        return Val('s', a.v + b.v)
    if op in '+-*<' and 's' in kinds and set(kinds) <= set('nsq'):
        raise Fail()
    raise Discard()


def call(w, f, args, env, in_array=False):
    depth = w.depth
    try:
        return call1(w, f, args, env)
    except Fail:
        if in_array:
            raise Discard()  # an array of functions one of which fails
        raise
    finally:
        w.depth = depth


def call1(w, f, args, env):
    if f.kind == 'f':
        body, decl = f.v[1], None
    elif f.kind == 's' and f.v in w.files:
        body, decl = w.files[f.v].stmts, w.files[f.v].decl
    elif f.kind in 'nsbqu':
        raise Fail()
    else:
        raise Discard()

    def can_array(i):
        return decl is not None and i < len(decl) and decl[i][0].startswith('array')
    which = [i for i, a in enumerate(args) if a.kind == 'a' and not can_array(i)]
    if which:
        lens = {len(args[i].v) for i in which}
        if len(lens) > 1:
            raise Fail()
        out = []
        for j in range(lens.pop()):
            row = [a.v[j] if i in which else a for i, a in enumerate(args)]
            if any(row[i].kind == 'a' for i in which):
                raise Discard()
            if any(x.kind == 'e' for x in row):
                out.append(FAILED)
                continue
            try:
                out.append(call(w, f, row, env))
            except Fail:
                out.append(FAILED)
        return Val('a', out)
    if any(x.kind == 'e' for x in args):
        raise Fail()
    for a, d in zip(args, decl or []):
        typ, dims, name = d
        if typ == 'number':
            ok = {'n': True, 'q': True, 's': False, 'u': False, 'f': False}.get(a.kind)
        elif typ == 'string':
            ok = {'s': True, 'f': False}.get(a.kind)
        elif typ == 'boolean':
            ok = {'b': True, 's': False, 'n': False, 'q': False, 'f': False}.get(a.kind)
        elif typ == 'array':
            ok = a.kind == 'a'
        else:
            ok = a.kind == 'a'
            if ok and any(x.kind not in 'nqs' for x in a.v):
                ok = None
            elif ok:
                ok = all(x.kind in 'nq' for x in a.v)
        if ok is None:
            raise Discard()
        if not ok:
            raise Fail()
        if dims is not None and (a.kind != 'q' or a.dim != name):
            raise Fail()
    inner = {} if decl is not None else dict(env)
    for i, a in enumerate(args):
        inner['PARAM%d' % (i + 1)] = a
    last = None
    w.depth += 1
    if w.depth > 8:
        raise Discard('nested too deeply')
    for st in body:
        last = do(w, st, inner)
        if last is not None and last.kind == 'e':
            raise Fail()
        if st[0] != 'expr':
            w.marked = True
    w.depth -= 1
    if last is None:
        raise Fail()
    return last


def do(w, st, env):
    """Executes a statement; the environment changes only if it succeeds."""
    k = st[0]
    try:
        if k == 'expr':
            return ev(w, st[1], env)
        if k == 'set':
            v = ev(w, st[2], env)
            if v.kind in 'ue':
                raise Discard()
            env[st[1]] = v
            return v
        if k == 'default':
            v = ev(w, st[2], env)
            if v.kind in 'ue':
                raise Discard()
            if st[1] not in env:
                env[st[1]] = v
            return v
        if k == 'op':
            v = ev(w, st[2], env)
            if st[1] not in env:
                raise Fail()
            if v.kind in 'ua' or env[st[1]].kind in 'afu':
                raise Discard()
            r = binop('+', env[st[1]], v)
            env[st[1]] = r
            return r
        if k == 'del':
            if st[1] not in env:
                raise Fail()
            if env[st[1]].kind == 'f':
                raise Discard()
            del env[st[1]]
            return Val('any', None)
        if k == 'reset':
            env.clear()
            return Val('any', None)
    except Fail:
        w.marked = True
        raise
    raise AssertionError(k)


# -- printing ----------------------------------------------------------------------

def show(s, e):
    k = e[0]
    if k == 'lit':
        return e[1]
    if k == 'var':
        return e[1]
    if k == 'fail':
        return e[1]
    if k == 'fn':
        return show_fn(s, e[1])
    if k == 'arr':
        return '[' + ', '.join(show(s, x) for x in e[1]) + ']'
    if k == 'if':
        return '({} then {} else {})'.format(show(s, e[1]), show(s, e[2]), show(s, e[3]))
    if k == 'sum':
        return 'sum({})'.format(show(s, e[1]))
    if k == 'bin':
        return '({} {} {})'.format(show(s, e[2]), e[1], show(s, e[3]))
    return '@{}({})'.format(e[1], ', '.join(show(s, x) for x in e[2]))


def show_st(s, st):
    k = st[0]
    if k == 'expr':
        return show(s, st[1])
    if k == 'set':
        return '{} = {}'.format(st[1], show(s, st[2]))
    if k == 'default':
        return '{} ||= {}'.format(st[1], show(s, st[2]))
    if k == 'op':
        return '{} += {}'.format(st[1], show(s, st[2]))
    if k == 'del':
        return 'delete({})'.format(st[1])
    return 'reset()'


def show_fn(s, body):
    """Random line breaks and comments, on one line where there is one statement."""
    out = '{'
    for i, st in enumerate(body):
        if i:
            out += s.pick(['\n', '\n', '\n\n', ' # next\n', ' \n '])
        out += s.pick([' ', '', '\n']) + show_st(s, st)
    return out + s.pick([' ', '', '\n', ' # end\n']) + '}'


# -- generating ----------------------------------------------------------------------

NAMES = ['a', 'b', 'x1', 'foo', 'val', 'Bar_2', 'orange']
FUNCS = ['fa', 'fb', 'twice', 'run', 'calc_1']
WORDS = ['abc', 'Hello', 'x y', 'zed', '', 'é', 'one two']
FAILS = ['(1 / 0)', "('abc' - 1)", '(nosuchname + 1)', '@nofunction(1)', 'element([1], 5)', '(5 m + 2 seconds)', '([1, 2] + [1, 2, 3])', 'floor()', '(not 5)', 'log(0)']


class Scope:
    """What the generator believes about the names: name -> kind or ('fun', argument kinds, result kind)."""

    def __init__(self, names=None):
        self.names = dict(names or {})

    def of(self, kind):
        return sorted(n for n, k in self.names.items() if k == kind)

    def funs(self, kind=None):
        return sorted(n for n, k in self.names.items() if isinstance(k, tuple) and k[0] == 'fun' and (kind is None or k[2] == kind))


KINDS = ['n', 'n', 'n', 'n', 's', 'b', 'q', 'q', 'a']


def literal(s, kind):
    if kind == 'n':
        if s.bool(1, 4):
            text, v = s.pick([('0x1F', 31), ('0b0101', 5), ('0o17', 15), ('50%', Fraction(1, 2)), ('1.5E3', 1500), ('36zZ', 35), ('0xff', 255)])
            return ('lit', text, Val('n', Fraction(v), text={'0xff': '0xFF', '36zZ': '36zZ', '1.5E3': '1.5E3'}.get(text, text)))
        v = Fraction(s.int(0, 40), s.pick([1, 1, 1, 2, 10]))
        return ('lit', prog.num_text(v), Val('n', v))
    if kind == 's':
        x = s.pick(WORDS)
        return ('lit', prog.quote(x), Val('s', x))
    if kind == 'b':
        x = s.bool()
        return ('lit', 'true' if x else 'false', Val('b', x))
    if kind == 'q':
        u = s.pick(sorted(UNITS))
        scale, dim, powers = UNITS[u]
        v = Fraction(s.int(1, 40), s.pick([1, 1, 4]))
        return ('lit', '{} {}'.format(prog.num_text(v), u) if s.bool() else '({} {})'.format(prog.num_text(v), u), Val('q', v * scale, unit=(u, powers), dim=dim))
    return ('arr', [literal(s, 'n') for _ in range(s.int(1, 3))])


def expr(s, kind, d, sc, bad):
    """An expression believed to be of this kind; bad is the chance in 60 of planting a failure here."""
    if bad and s.bool(bad, 60):
        return ('fail', s.pick(FAILS))
    names = sc.of(kind)
    if d <= 0 or s.bool(1, 3):
        if names and s.bool(3, 4):
            return ('var', s.pick(names))
        return literal(s, kind)
    k = s.draw(9)
    funs = sc.funs(kind)
    if funs and k < 5:
        return a_call(s, s.pick(funs), d, sc, bad)
    if k == 5 and kind != 'a':
        return ('if', expr(s, 'b', d - 1, sc, bad), expr(s, kind, d - 1, sc, bad), expr(s, kind, d - 1, sc, bad))
    if kind == 'n':
        if k == 6:
            return ('sum', expr(s, 'a', d - 1, sc, bad))
        return ('bin', s.pick('+-*'), expr(s, 'n', d - 1, sc, bad), expr(s, 'n', d - 1, sc, bad))
    if kind == 's':
        return ('bin', '+$', expr(s, 's', d - 1, sc, bad), expr(s, 's', d - 1, sc, bad))
    if kind == 'b':
        return ('bin', '<', expr(s, 'n', d - 1, sc, bad), expr(s, 'n', d - 1, sc, bad))
    if kind == 'q':
        if k < 8:
            return ('bin', '*', expr(s, 'n', d - 1, sc, bad), expr(s, 'q', d - 1, sc, bad))
        return ('bin', s.pick('+-'), expr(s, 'q', d - 1, sc, bad), expr(s, 'q', d - 1, sc, bad))
    if kind == 'a':
        if k == 6:
            return ('bin', s.pick('+*'), expr(s, 'a', d - 1, sc, bad), expr(s, 'n', d - 1, sc, bad))
        if k == 7 and sc.funs('n'):
            f = s.pick(sc.funs('n'))
            n = s.int(1, 3)
            args = []
            for kk in sc.names[f][1]:
                if s.bool() and kk in 'nsb':
                    args.append(('arr', [expr(s, kk, d - 2, sc, bad) for _ in range(n)]))
                else:
                    args.append(expr(s, kk if isinstance(kk, str) else 'n', d - 1, sc, bad))
            return ('call', f, args)
        return ('arr', [expr(s, 'n', d - 1, sc, bad) for _ in range(s.int(1, 3))])
    return literal(s, kind)


def a_call(s, f, d, sc, bad):
    kinds = list(sc.names[f][1])
    if s.bool(1, 16) and kinds:
        kinds.pop()                      # an argument less
    elif s.bool(1, 16):
        kinds.append(s.pick('nsq'))      # or one more
    if s.bool(1, 16) and kinds:
        kinds[s.int(0, len(kinds) - 1)] = s.pick('nsbqa')
    args = []
    for kk in kinds:
        if isinstance(kk, tuple):
            ok = sorted(n for n, k in sc.names.items() if k == kk)
            args.append(('var', s.pick(ok)) if ok else function(s, kk[1], kk[2], 1, sc, 0, False))
        else:
            args.append(expr(s, kk, d - 1, sc, bad))
    return ('call', f, args)


def body(s, params, ret, d, sc, bad, closed):
    """Statements of a function; closed: it sees only its arguments."""
    inner = Scope() if closed else Scope(sc.names)
    if not closed:
        for n in list(inner.names):
            if n.startswith('PARAM'):
                del inner.names[n]
    for i, k in enumerate(params):
        inner.names['PARAM%d' % (i + 1)] = k
    out = []
    for _ in range(s.weighted([(4, 0), (3, 1), (2, 2), (1, 4)])):
        out.append(statement(s, d, inner, bad, True))
    if s.bool(1, 8):
        kk = ret if isinstance(ret, str) else 'n'
        out.append(('set', s.pick(NAMES), expr(s, kk, d, inner, bad)))
    else:
        late = [i + 1 for i, k in enumerate(params) if i > 3 and k == ret]
        if late and s.bool(3, 4):
            out.append(('expr', ('var', 'PARAM%d' % s.pick(late))))
        else:
            out.append(('expr', expr(s, ret, d, inner, bad)))
    return out


def function(s, params, ret, d, sc, bad, closed):
    return ('fn', body(s, params, ret, d, sc, bad, closed))


def statement(s, d, sc, bad, inside):
    k = s.draw(13)
    if k < 5:
        kind = s.pick(KINDS)
        n = s.pick(NAMES + (['PARAM1', 'PARAM2'] if inside else []))
        e = expr(s, kind, d, sc, bad)
        sc.names[n] = kind
        return ('set', n, e)
    if k == 5:
        kind = s.pick(KINDS)
        n = s.pick(NAMES + (['PARAM1', 'PARAM2'] if inside else []))
        e = expr(s, kind, d, sc, bad)
        sc.names.setdefault(n, kind)
        return ('default', n, e)
    if k == 6 and sc.of('n'):
        return ('op', s.pick(sc.of('n')), expr(s, 'n', d, sc, bad))
    if k == 7 and s.bool():
        names = [n for n in sorted(sc.names) if isinstance(sc.names[n], str)]
        if names:
            n = s.pick(names)
            del sc.names[n]
            return ('del', n)
    if k == 8 and s.bool(1, 6):
        sc.names.clear()
        return ('reset',)
    if k in (9, 10) and d > 0:
        params = [s.pick('nnnsbq') for _ in range(s.weighted([(16, s.int(0, 3)), (1, s.int(4, 14))]))]
        ret = s.pick('nnnsbq')
        n = s.pick(FUNCS)
        e = function(s, params, ret, d - 1, sc, bad, False)
        sc.names[n] = ('fun', tuple(params), ret)
        return ('set', n, e)
    return ('expr', expr(s, s.pick(KINDS), d, sc, bad))


def a_file(s, w, params, ret, bad, other=None):
    """Writes a function file and returns its path."""
    stmts = []
    sc = Scope()
    if other is not None:
        path, f = other
        stmts.append(('set', 'inner', ('lit', prog.quote(path), Val('s', path))))
    inner = body(s, params, ret, 2, sc, bad, True)
    if other is not None:
        sc2 = Scope({'PARAM%d' % (i + 1): k for i, k in enumerate(params)})
        sc2.names['inner'] = f
        kind = f[2]
        stmts.append(('set', 'got', a_call(s, 'inner', 2, sc2, bad)))
        if kind == ret and s.bool():
            inner = inner[:-1] + [('expr', ('var', 'got'))]
    if s.bool(1, 6) and NAMES:
        # a name of the caller, which it must not see
        inner.insert(s.int(0, len(inner)), ('expr', ('bin', '+', ('var', s.pick(NAMES)), ('lit', '1', Val('n', Fraction(1))))))
    stmts += inner
    if s.bool(1, 8):
        stmts.append(('set', 'lastone', stmts.pop()[1])) if stmts[-1][0] == 'expr' else None
    decl = []
    if s.bool():
        for k in params:
            if k == 'q':
                if s.bool(2, 3):
                    dim = s.pick(sorted(DIMS))
                    decl.append(('number', s.pick(DIMS[dim]), dim))
                else:
                    decl.append(('number', None, None))
            else:
                decl.append(({'n': 'number', 's': 'string', 'b': 'boolean', 'a': s.pick(['array', 'array[number]'])}[k], None, None))
        if s.bool(1, 6) and decl:
            decl.pop()
    text = ''
    if decl:
        text = '#INPUT ' + s.pick([' ', '  ']).join(t + (':' + ','.join(dims) if dims else '') for t, dims, _ in decl) + '\n'
    for st in stmts:
        text += show_st(s, st) + s.pick(['\n', '\n', '\n\n', ' # c\n'])
    if s.bool(1, 4):
        text = text.rstrip('\n')
        if text.endswith('# c'):
            text += '\n'
    path = os.path.join(w.t.env.scratch(), 'fn{}'.format(len(w.files)))
    with open(path, 'w') as fh:
        fh.write(text)
    w.files[path] = File(path, stmts, decl)
    return path, text


# -- comparing -------------------------------------------------------------------------

def same(v, unit, want, calc, what):
    k = want.kind
    if k == 'any':
        return
    if k == 'e':
        check(isinstance(v, Exception), '{}: {} instead of an error', what, v)
        return
    check(not isinstance(v, Exception), '{}: error {} instead of {}', what, getattr(v, 'message', v), want)
    if k == 'u':
        check(v is None, '{}: {} instead of nothing', what, v)
    elif k == 'a':
        check(isinstance(v, list) and len(v) == len(want.v), '{}: {} instead of {}', what, v, want)
        for i, (x, y) in enumerate(zip(v, want.v)):
            same(x.value, x.unit, y, calc, '{}, element {}'.format(what, i + 1))
    elif k in 'nq':
        check(isinstance(v, Number), '{}: {} instead of {}', what, v, want)
        powers = sut.unitpowers(unit)
        if k == 'n':
            check(not powers, '{}: {} has unit {} instead of none', what, v, powers)
            check(frac(v) == want.v, '{}: {} instead of {}', what, v, want)
            if want.text is not None:
                check(sut.text(v, calc) == want.text, '{}: {} instead of {}', what, sut.text(v, calc), want.text)
        else:
            check(unit is not None, '{}: {} has no unit, want {}', what, v, want)
            if want.unit:
                check(powers == want.unit[1], '{}: unit {} instead of {}', what, powers, want.unit[0])
                check(frac(v) * UNITS[want.unit[0]][0] == want.v, '{}: {} instead of {}', what, v, want)
            else:
                scale = Fraction(1)
                for n, p in powers.items():
                    check(n in SCALES and p.denominator == 1, '{}: unit {}', what, powers)
                    scale *= SCALES[n] ** int(p)
                check(frac(v) * scale == want.v, '{}: {} {} instead of {}', what, v, powers, want)
    elif k == 'f':
        check(type(v).__name__ == 'InlineFunctionItem', '{}: {} instead of a function', what, v)
    else:
        check(v == want.v and type(v) is type(want.v), '{}: {} instead of {}', what, v, want.v)


from vlib import units as _u  # noqa: E402
SCALES = {u.singular: u.scale for u in _u.ALL if not u.offset and not u.tol}


def history(s, t):
    """A history of calls against the evaluator."""
    w = World(s, t)
    calc = t.env.fresh() if s.bool(1, 8) else t.env.calc()
    calc.vars = {}
    sc, env = Scope(), {}
    bad = s.pick([0, 0, 1, 2, 4])
    log = []
    for f in FUNCS[:s.int(1, 4)]:
        # some functions to begin with
        params = [s.pick('nnnsbqa') for _ in range(s.weighted([(16, s.int(0, 3)), (1, s.int(4, 14))]))]
        ret = s.pick('nnnsbqa')
        if s.bool(1, 3):
            other = None
            if w.files and s.bool():
                p0 = s.pick(sorted(w.files))
                known = [k for n, k in sorted(sc.names.items()) if isinstance(k, tuple) and env[n].kind == 's' and env[n].v == p0]
                if known:
                    other = (p0, known[0])
            path, text = a_file(s, w, params, ret, bad, other)
            log.append('# {}:\n{}\n'.format(path, text))
            st = ('set', f, ('lit', prog.quote(path), Val('s', path)))
        else:
            st = ('set', f, function(s, params, ret, 2, sc, bad, False))
        sc.names[f] = ('fun', tuple(params), ret)
        step(s, t, w, calc, env, [st], log)
    for _ in range(s.int(1, 5)):
        sts = []
        for _ in range(s.int(1, 3)):
            k = s.draw(9)
            if k < 5 and sc.funs():
                f = s.pick(sc.funs())
                c = a_call(s, f, 2, sc, bad)
                if s.bool(1, 3):
                    n = s.pick(NAMES)
                    sc.names[n] = sc.names[f][2]
                    sts.append(('set', n, c))
                else:
                    sts.append(('expr', c))
            elif k == 5 and len(sc.funs()) > 1:
                sig = sc.names[s.pick(sc.funs())]
                alike = [n for n in sc.funs() if sc.names[n] == sig]
                sts.append(('set', 'many', ('arr', [('var', s.pick(alike)) for _ in range(s.int(1, 3))])))
                sts.append(('expr', a_call_named(s, 'many', sig, sc, bad)))
            else:
                sts.append(statement(s, 2, sc, bad, False))
        step(s, t, w, calc, env, sts, log)
        for n in list(sc.names):
            if n not in env:
                del sc.names[n]
    if w.marked:
        t.nt()


def a_call_named(s, name, sig, sc, bad):
    args = [expr(s, k, 1, sc, bad) for k in sig[1]]
    return ('call', name, args)


def step(s, t, w, calc, env, sts, log):
    wants = []
    failed = False
    for st in sts:
        before = dict(env)
        try:
            wants.append(do(w, st, env))
            if wants[-1].kind == 'e':
                raise Discard()
        except Fail:
            env.clear()
            env.update(before)
            failed = True
            break
    for v in list(env.values()) + wants:
        # an array of functions one of which failed is not claimed
        if v.kind == 'a' and any(x.kind == 'u' for x in v.v):
            raise Discard()
    text = '\n'.join(show_st(s, st) for st in sts)
    log.append(text)
    full = '\n---\n'.join(log)
    t.show(full)
    r = sut.run(calc, text)
    if failed:
        check(isinstance(r, Err), '{}: the last call gives {} instead of failing at statement {}', full, [x.value for x in r.results] if not isinstance(r, Err) else None, len(wants) + 1)
        rs = sut.results(r.exc.response)
    else:
        check(not isinstance(r, Err), '{}: the last call fails with {}', full, r)
        rs = sut.results(r)
    check(len(rs) == len(wants), '{}: {} results instead of {}', full, len(rs), len(wants))
    for i, (x, y) in enumerate(zip(rs, wants)):
        same(x.value, x.unit, y, calc, '{}: statement {} of the last call'.format(full, i + 1))
    state = sut.vars_of(calc)
    for n in sorted(set(state) | set(env)):
        check(n in env, '{}: the variable {} = {} is left', full, n, state.get(n, [None])[0])
        check(n in state, '{}: the variable {} is gone', full, n)
        same(state[n][0], state[n][1], env[n], calc, '{}: variable {}'.format(full, n))


def missing(s, t):
    """What is no function, or cannot be read, is refused and nothing changes."""
    calc = t.env.calc()
    calc.vars = {}
    d = t.env.scratch()
    os.makedirs(os.path.join(d, 'folder'), exist_ok=True)
    with open(os.path.join(d, 'empty'), 'w'):
        pass
    with open(os.path.join(d, 'broken'), 'w') as fh:
        fh.write(s.pick(['(1 + ', '1 +\n', 'x = [1, ', '}\n', "'abc", 'nosuch(1)', '# only a comment\n', '\n\n', 'a = 3\n1 / 0\n', '#INPUT number:distance^x\nPARAM1\n', '#INPUT nosuchtype\nPARAM1\n',
                         '#INPUT number:nosuch\nPARAM1\n', '#INPUT number:distance:time\nPARAM1\n', '#INPUT array[nosuch]\nPARAM1\n', 'a = 5\nself = \'' + os.path.join(d, 'broken') + "'\n@self(PARAM1 + 1)\n"]))
    f = s.pick(["'{}/nosuchfile'".format(d), "'{}/folder'".format(d), "'{}/empty'".format(d), "'{}/broken'".format(d), "'{}/broken'".format(d), "'{}/broken'".format(d), '5', 'true', '{ }', '{\n\n}', '{ # nothing\n}',
                 "''", '5 m', '{ a = 7\n(1 / 0) }', '{ a = 7\n@fa(PARAM1) }', '{ b = PARAM1\n@PARAM2(b) }'])
    a = s.pick(['3', "'text'", '5 m', '[1, 2]', 'true'])
    setup = 'a = {}\nfa = {}\n'.format(a, f)
    t.show(setup)
    r = sut.run(calc, setup)
    check(not isinstance(r, Err), '{} fails: {}', setup, r)
    before = sut.snap_vars(calc)
    arg = s.pick(['1', "'x'", '2 m', 'a', '1, 2'])
    stmt = s.pick(['@fa({})', 'x1 = @fa({})', '1 + @fa({})', 'a = @fa({})', 'count([@fa({})])', '@nosuch({})']).format(arg)
    full = setup + stmt
    t.show(full)
    r = sut.last(calc, stmt)
    t.nt()
    if isinstance(r, tuple) and isinstance(r[0], list) and arg == 'a':
        check(all(isinstance(x.value, Exception) for x in r[0]), '{} is {}', full, r[0])
        if stmt.startswith(('x1 =', 'a =')):
            return
    elif isinstance(r, tuple) and stmt.startswith(('1 + ', 'count')) and arg == 'a':
        return
    else:
        check(isinstance(r, Err), '{} is {}', full, r)
    check(sut.snap_vars(calc) == before, '{} changes the variables: {}', full, sut.snap_vars(calc))


GROUPS = [('history', history, 8), ('missing', missing, 1)]
