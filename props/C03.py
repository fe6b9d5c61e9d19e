"""Custom features are handled as built-in ones and stay in the calculators that install them."""
import os
import shutil
import sys
from fractions import Fraction

from vlib import script, sut
from vlib.pbt import Discard
from vlib.sut import check, Err, ModularCalculator, CalculatorException, Number, frac

RULE = ('random feature files (1 to 3 files in one or several directories, also of the same name or named as a library module, with 1 to 4 features each, which name each other and built-in features as dependencies, to come after, '
        'or as parts) that add constants, functions, operators of one to three operands at any place of the order (left or right grouping), units (of a known or a new dimension, with or without prefixes) and words of their own; '
        'one or two calculators with different such files that share names and symbols, expressions over all of it against an evaluator that knows the definitions, and programs on calculators without them. '
        'Non-trivial: an expression with a custom operator or at least two custom names.')
ASSUMPTIONS = ['a feature file registers names and symbols that no built-in feature uses', 'custom operators stand between blanks']

WORDS = ['zorb', 'quib', 'flarn', 'wuzz', 'jyl', 'vrok', 'xyth', 'glim', 'hozz', 'yibb', 'kwee', 'drexx']
SYMBOLS = ['<+>', '@@', '!!', '??', '<=>', '=>', '**', '~>', '^*', '||', '&&', 'zap', 'mix', 'vow', '+++', '<<<', '-/-']
INNER = [':', '::', '=:', 'elze', '><', ';;']
FILES = ['plugin.py', 'plugin.py', 'plugin.py', 'extra.py', 'feature.py', 'random.py', 'string.py', 'arrays.py', 'calendar.py', 'my_feature.py', 'modularcalculator.py']
LEVELS = ['^', '~', '*', '+', '<<', '<', '==', '&', '|', 'and']
TABLE = [('^',), ('not', '~'), ('=~',), ('UNIT_MULTIPLY',), ('UNIT_ASSIGNMENT',), ('IMPLICIT_MULTIPLY',), ('*', '/'), ('+', '-'), ('<<', '>>'), ('<',), ('==',), ('&',), ('|',), ('and',), ('then',), ('to',), ('=',)]
BUILTIN = {'*': 6, '/': 6, '+': 7, '-': 7}
DEPS = ['structure.operators', 'structure.functions', 'state.constants', 'numerical.decimalnumbers', 'unitdefinitions.distance', 'unitdefinitions.time', 'units.units']
ANY = ['units.unitsymbols', 'numerical.numericalfunctions', 'numerical.basicarithmetic', 'numerical.bitwiseoperators', 'units.basicunitprefixes', 'units.advancedunitprefixes', 'strings.strings', 'arrays.arrays', 'state.assignment',
       'numerical.percentagenumbers', 'boolean.booleans', 'numerical.numericalconstants', 'unitdefinitions.mass', 'unitdefinitions.velocity', 'nonfunctional.comments', 'numerical.expnumbers']


def rat(s, zero=True):
    return s.pick(['0', '1', '2', '3', '-1', '0.5', '10', '-2.5', '7', '0.25'] if zero else ['1', '2', '3', '-1', '0.5', '10', '-2.5', '7', '0.25'])


# -- the definitions ------------------------------------------------------------------

class Plug:
    """What the feature files of one calculator define."""

    def __init__(self):
        self.files = []      # [directory, file name, [feature]]
        self.features = []
        self.consts, self.words, self.funcs, self.ops, self.units, self.dims = {}, {}, {}, {}, {}, {}
        self.levels = [('b', i) for i in range(len(TABLE))]  # identities, in order of precedence


class Feat:
    def __init__(self, id):
        self.id, self.deps, self.after, self.parts, self.code = id, [], [], None, []
        self.defs, self.names = [], []


def level_of(p, op):
    return p.levels.index(op['level'])


def define(s, p, f, names, symbols, first):
    """Adds one definition to the feature: source lines of its install()."""
    k = s.weighted([(2, 'const'), (2, 'word'), (3, 'func'), (6, 'op'), (3, 'unit')])
    if k == 'op' and not symbols:
        k = 'const'
    if k != 'op' and not names:
        return
    if k == 'const':
        w, v = names.pop(), rat(s)
        f.deps += ['state.constants', 'numerical.decimalnumbers']
        f.code.append("calculator.constants[{!r}] = Number({!r})".format(w, v))
        f.names.append((w, 'consts'))
        p.consts[w] = Fraction(v)
    elif k == 'word':
        w, v = names.pop(), rat(s)
        f.deps += ['numerical.decimalnumbers']
        before = s.pick(['var', 'var', 'units', 'constant', 'function', 'number', 'terminator', 'operator'])
        f.code += ["calculator.parser_map.insert(calculator.parser_map.index({!r}), {!r})".format(before, 'word_' + w),
                   "calculator.add_parser({!r}, word_parser({!r}, {!r}))".format('word_' + w, w, v)]
        f.names.append((w, 'words'))
        p.words[w] = Fraction(v)
    elif k == 'func':
        w, n = names.pop(), s.pick([1, 2, 2, 3])
        co = [rat(s) for _ in range(n + 1)]
        f.deps += ['structure.functions']
        f.code.append("calculator.funcs[{0!r}] = FunctionDefinition('Custom', {0!r}, 'd', {1!r}, linear({2!r}), {3}, {3}, 'number')".format(w, ['abc'[i] for i in range(n)], co, n))
        f.names.append((w, 'funcs'))
        p.funcs[w] = [Fraction(c) for c in co]
    elif k == 'op':
        define_op(s, p, f, symbols)
    else:
        define_unit(s, p, f, names, first)


def define_op(s, p, f, symbols):
    sym = symbols.pop()
    shape = s.weighted([(6, 'binary'), (2, 'prefix'), (1, 'postfix'), (2, 'ternary'), (1, 'leftthree')])
    n = {'binary': 2, 'prefix': 1, 'postfix': 1, 'ternary': 3, 'leftthree': 3}[shape]
    co = [rat(s) for _ in range(n + 1)]
    mul = shape == 'binary' and s.bool(1, 4)
    rtl = False
    inner = None
    if shape in ('ternary', 'leftthree'):
        inner = s.pick([i for i in INNER if i not in [o['inner'] for o in p.ops.values()]])
    k = s.draw(3)
    mine = [o for o in p.ops.values()]
    if k == 0:
        lv = s.pick(LEVELS)
        idx = [i for i, e in enumerate(TABLE) if lv in e][0]
        rtl = lv in ('~', 'not')
        ident = ('b', idx)
        code = ["for level in calculator.op_map:", "    if {!r} in level:".format(lv), "        level.add({!r})".format(sym)]
    elif k == 1 and mine:
        o = s.pick(mine)
        rtl, ident = o['rtl'], o['level']
        code = ["for level in calculator.op_map:", "    if {!r} in level:".format(o['sym']), "        level.add({!r})".format(sym)]
        f.deps.append(o['feature'])
    else:
        at = s.pick([i for i, e in enumerate(TABLE) if set(e) & set(LEVELS)])
        off = s.draw(1)
        ident = ('c', sym)
        rtl = s.bool(1, 3)
        code = ["at = [i for i, level in enumerate(calculator.op_map) if {!r} in level][0]".format(TABLE[at][0]), "calculator.op_map.insert(at + {}, {{{!r}}})".format(off, sym)]
    if shape in ('prefix', 'postfix') and s.bool() and k > 1:
        rtl = shape == 'prefix'
    l = {'binary': '1', 'prefix': '0', 'postfix': '1', 'ternary': '[1]', 'leftthree': '[1, {!r}, 1]'.format(inner)}[shape]
    r = {'binary': '1', 'prefix': '1', 'postfix': '0', 'ternary': '[1, {!r}, 1]'.format(inner), 'leftthree': '1'}[shape]
    types = s.pick(["'number'", '[' + ', '.join(["'number'"] * n) + ']'])
    code.append("op = OperatorDefinition('Custom', {!r}, 'd', {}, {}, {}, {})".format(sym, 'product({!r})'.format(co) if mul else 'linear({!r})'.format(co), l, r, types))
    if rtl and s.bool():
        code += ["op.rtl = True", "calculator.add_op(op)"]
    elif rtl:
        code.append("calculator.add_op(op, {'rtl': True})")
    else:
        code.append("calculator.add_op(op)")
    f.deps += ['structure.operators']
    f.code += code
    f.names.append((sym, 'ops'))
    p.ops[sym] = {'sym': sym, 'shape': shape, 'co': [Fraction(c) for c in co], 'mul': mul, 'rtl': rtl, 'level': ident, 'inner': inner, 'feature': f.id, 'place': (k, code[0], code[1])}
    f.defs.append((ident, TABLE[at][0], off) if k > 1 or k == 1 and not mine else None)


def define_unit(s, p, f, names, first):
    w = names.pop()
    scale = s.pick(['2', '0.5', '1000', '0.25', '12', '3', '7.5', '60'])
    new = s.bool(1, 3)
    prefixed = s.bool(1, 3)
    dim = 'dim' + w if new else s.pick(['distance', 'time'])
    f.deps += ['units.units', 'units.systems'] if new else ['unitdefinitions.' + dim]
    long = w + s.pick(['ium', 'olitunden', 'ostrafilamentariumquantum'])
    called = s.pick([[w + 's', w], [w + 's', w], [w, long], [long, w], [w + 's', w, 'olden' + w], [w + 's', w, long, 'x' + w]])
    syms = s.pick([None, None, [w.upper()], [w[:2].upper() + w[2:]], [w.title(), long.upper()]])
    if new:
        f.code.append("calculator.unit_normaliser.add_dimension({!r}, 'Custom')".format(dim))
    f.code.append("class Unit(UnitDefinition):")
    f.code.append("    namelist = {!r}".format(called))
    if syms:
        f.code.append("    symbollist = {!r}".format(syms))
    f.code.append("    unitscale = Number({!r})".format(scale))
    f.code.append("    systems = [{!r}]".format(s.pick(['si', 'us', 'gregorian'])))
    if prefixed:
        f.deps.append('units.basicunitprefixes')
        f.code.append("calculator.unit_normaliser.add_prefixed_unit({!r}, Unit)".format(dim))
        pre = [('', '', 1), ('kilo', 'k', 1000), ('milli', 'm', Fraction(1, 1000)), ('micro', 'µ', Fraction(1, 10 ** 6)), ('mega', 'M', 10 ** 6)]
    else:
        f.code.append("calculator.unit_normaliser.add_unit({!r}, Unit())".format(dim))
        pre = [('', '', 1)]
    p.dims[w] = dim
    f.names.append((w, 'units'))
    for name, sym, x in pre:
        for n in called:
            p.units[name + n] = (dim, Fraction(scale) * x, name + called[1], w, False)
        for n in syms or []:
            if n.lower() not in called:
                p.units[sym + n] = (dim, Fraction(scale) * x, name + called[1], w, True)
    if not new:
        for name, x in {'distance': [('meter', 1), ('foot', Fraction('0.3048'))], 'time': [('second', 1), ('minute', 60), ('hour', 3600)]}[dim]:
            p.units[name] = (dim, Fraction(x), name, None, False)


SOURCE = '''from modularcalculator.features.feature import {imports}
from modularcalculator.features.structure.functions import FunctionDefinition
from modularcalculator.objects.items import *
from modularcalculator.objects.number import Number
from modularcalculator.objects.operators import OperationResult, OperatorDefinition
from modularcalculator.objects.units import UnitDefinition


def linear(co):
    co = [Number(c) for c in co]

    def ref(self, vals, units, refs, flags):
        res = co[-1]
        for c, v in zip(co, vals):
            res = res + c * v
        return OperationResult(res)
    return ref


def product(co):
    co = [Number(c) for c in co]

    def ref(self, vals, units, refs, flags):
        return OperationResult(co[0] * vals[0] * vals[1] + co[1] * vals[1] + co[2])
    return ref


def word_parser(word, val):
    def parse(self, expr, i, items, flags):
        if expr[i:].startswith(word):
            return [LiteralItem(word, Number(val))], len(word), None
        return None, None, None
    return parse
'''

FEATURE = '''

class {cls}({base}):

    def id():
        return {id!r}

    def category():
        return 'Custom'

    def title():
        return 'Custom'

    def desc():
        return ''

    def dependencies():
        return {deps!r}
'''


def source(feats):
    out = SOURCE.format(imports='Feature, MetaFeature' if any(f.parts is not None for f in feats) else 'Feature')
    for i, f in enumerate(feats):
        out += FEATURE.format(cls='F{}'.format(i), base='MetaFeature' if f.parts is not None else 'Feature', id=f.id, deps=f.deps)
        if f.after:
            out += '\n    def after():\n        return {!r}\n'.format(f.after)
        if f.parts is not None:
            out += '\n    def subfeatures():\n        return {!r}\n'.format(f.parts)
        else:
            out += '\n    @classmethod\n    def install(cls, calculator):\n        calculator.__dict__.setdefault("install_log", []).append(({!r}, set(calculator.installed_features)))\n'.format(f.id)
            for c in f.code:
                out += '        ' + c + '\n'
    return out


def plug(s, n):
    """Random definitions."""
    p = Plug()
    names, symbols = s.shuffle(list(WORDS)), s.shuffle(list(SYMBOLS))[:6]
    ids = ['custom.' + x for x in s.shuffle(['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l'])]
    dirs = ['d{}'.format(i) for i in range(s.pick([1, 1, 2, 3]))]
    for _ in range(s.pick([1, 1, 2, 3])):
        d, name = s.pick(dirs), s.pick(FILES)
        if (d, name) in [(x[0], x[1]) for x in p.files]:
            continue
        feats = []
        for _ in range(s.pick([1, 1, 2, 3, 4])):
            if not ids:
                break
            f = Feat(ids.pop())
            earlier = [g.id for g in p.features]
            if len(earlier) >= 1 and s.bool(1, 6):
                f.parts = [s.pick(earlier) for _ in range(s.int(1, 2))] + ([s.pick(ANY)] if s.bool() else [])
            else:
                for _ in range(s.pick([1, 1, 2, 3])):
                    define(s, p, f, names, symbols, not feats)
            for _ in range(s.pick([0, 0, 1, 2])):
                f.deps.append(s.pick(earlier + ANY))
            for _ in range(s.pick([0, 0, 1, 2])):
                f.after.append(s.pick(earlier + ANY + ['custom.none', 'nosuch']))
            f.deps = s.shuffle(sorted(set(f.deps) - {f.id}))
            feats.append(f)
            p.features.append(f)
        p.files.append([d, name, s.shuffle(feats)])
    return p


def place(p, log):
    """The order of the operators that results from installing in the order of the log."""
    p.levels = [('b', i) for i in range(len(TABLE))]
    by = {f.id: f for f in p.features}
    for id in log:
        for d in by[id].defs:
            if d is not None:
                ident, near, off = d
                at = p.levels.index(('b', [i for i, e in enumerate(TABLE) if e[0] == near][0]))
                p.levels.insert(at + off, ident)


# -- installing ------------------------------------------------------------------

class Paths:
    """A scratch directory; the module search path is put back."""

    def __init__(self, t):
        self.dir = os.path.join(t.env.scratch(), 'c03')

    def __enter__(self):
        self.path, self.modules = list(sys.path), set(sys.modules)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        return self.dir

    def __exit__(self, *a):
        sys.path[:] = self.path
        for m in set(sys.modules) - self.modules:
            f = getattr(sys.modules[m], '__file__', None) or ''
            if f.startswith(self.dir):
                del sys.modules[m]
        import importlib
        importlib.invalidate_caches()
        shutil.rmtree(self.dir, ignore_errors=True)


def write(base, p, sub):
    for d, name, feats in p.files:
        os.makedirs(os.path.join(base, sub, d), exist_ok=True)
        with open(os.path.join(base, sub, d, name), 'w', encoding='utf8') as fh:
            fh.write(source(feats))


def deps_of(c, p):
    from modularcalculator.features.feature import MetaFeature
    deps = {n: list(f.dependencies()) + (list(f.subfeatures()) if issubclass(f, MetaFeature) else []) for n, f in c.feature_list.items()}
    for f in p.features:
        deps[f.id] = list(f.deps) + list(f.parts or [])
    return deps


def closure(deps, names):
    out, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo += deps[n]
    return out


def build(s, t, p, base, sub):
    """A calculator with the definitions, checked while it is made."""
    preset = s.pick([None, 'Computing', 'Computing', 'Scientific'])
    c = ModularCalculator(preset) if preset and s.bool() else ModularCalculator()
    files = s.shuffle(list(p.files))
    for d, name, feats in files:
        path = os.path.join(base, sub, d, name)
        ids = c.import_feature_file(path)
        check(sorted(set(ids)) == sorted(f.id for f in feats), 'import_feature_file({}) says {} but the file has {}', path, sorted(ids), sorted(f.id for f in feats))
    want = [f.id for f in p.features] if s.bool(2, 3) else s.sample([f.id for f in p.features], s.int(1, len(p.features)))
    names = s.shuffle(want + ['numerical.decimalnumbers', 'numerical.basicarithmetic', 'structure.operators', 'structure.innerexpressions', 'nonfunctional.space'] + (list(c.preset_list[preset]) if preset else []))
    deps = deps_of(c, p)
    already = set(c.installed_features)
    t.show('install {} on {}'.format([n for n in names if n.startswith('custom')], preset))
    c.install_features(names)  # here
    all = closure(deps, names) | already
    check(set(c.installed_features) == all, 'install_features({}): {} more and {} less than asked for', names, sorted(set(c.installed_features) - all), sorted(all - set(c.installed_features)))
    log = getattr(c, 'install_log', [])
    got = [i for i, _ in log]
    check(sorted(got) == sorted(f.id for f in p.features if f.id in all and f.parts is None), 'installed {} for {}', got, want)
    by = {f.id: f for f in p.features}
    for id, had in log:
        for d in by[id].deps:
            check(d in had, '{} is installed before {}, which it depends on', id, d)
        for d in by[id].after:
            check(d in had or d not in all, '{} is installed before {}, which it has to come after', id, d)
    return c, all, got


# -- expressions ------------------------------------------------------------------

def value_of(o, vals):
    co = o['co']
    if o['mul']:
        return co[0] * vals[0] * vals[1] + co[1] * vals[1] + co[2]
    return sum((c * v for c, v in zip(co, vals)), co[-1])


class Out:
    """Tokens, value, level (-1: none), number of custom names, custom operators."""
    __slots__ = ('toks', 'val', 'lv', 'rtl', 'n', 'ops')

    def __init__(self, toks, val, lv=-1, rtl=False, n=0, ops=0):
        self.toks, self.val, self.lv, self.rtl, self.n, self.ops = toks, val, lv, rtl, n, ops


def fit(x, lv, same):
    """The operand in brackets if it needs them: its level has to be tighter than lv, or the same where that is read first."""
    if x.lv < lv or (x.lv == lv and same):
        return x.toks
    return ['('] + x.toks + [')']


def expr(s, p, have, depth):
    if depth <= 0 or s.bool(1, 6):
        k = s.weighted([(4, 'lit'), (2, 'const'), (2, 'word')])
        names = sorted(have['consts'] if k == 'const' else have['words']) if k != 'lit' else []
        if names:
            w = s.pick(names)
            return Out([w], (p.consts if k == 'const' else p.words)[w], n=1)
        v = s.pick(['0', '1', '2', '3', '7', '0.5', '12', '2.25'])
        return Out([v], Fraction(v))
    k = s.weighted([(7, 'op'), (4, 'builtin'), (2, 'func'), (1, 'par')])
    if k == 'op' and have['ops']:
        o = p.ops[s.pick(sorted(have['ops']))]
        lv = level_of(p, o)
        n = {'binary': 2, 'prefix': 1, 'postfix': 1, 'ternary': 3, 'leftthree': 3}[o['shape']]
        args = [expr(s, p, have, depth - 1) for _ in range(n)]
        val = value_of(o, [a.val for a in args])
        if o['shape'] == 'binary':
            toks = fit(args[0], lv, not o['rtl']) + [o['sym']] + fit(args[1], lv, o['rtl'])
        elif o['shape'] == 'prefix':
            toks = [o['sym']] + fit(args[0], lv, o['rtl'])
        elif o['shape'] == 'postfix':
            toks = fit(args[0], lv, not o['rtl']) + [o['sym']]
        elif o['shape'] == 'leftthree':
            toks = fit(args[0], lv, not o['rtl']) + [o['inner']] + fit(args[1], lv, False) + [o['sym']] + fit(args[2], lv, o['rtl'])
        else:
            toks = fit(args[0], lv, not o['rtl']) + [o['sym']] + fit(args[1], lv, False) + [o['inner']] + fit(args[2], lv, o['rtl'])
        return Out(toks, val, lv, o['rtl'], sum(a.n for a in args), 1 + sum(a.ops for a in args))
    if k == 'func' and have['funcs']:
        w = s.pick(sorted(have['funcs']))
        co = p.funcs[w]
        args = [expr(s, p, have, depth - 1) for _ in range(len(co) - 1)]
        toks = [w + '(']
        for i, a in enumerate(args):
            toks += ([','] if i else []) + a.toks
        return Out(toks + [')'], sum((c * a.val for c, a in zip(co, args)), co[-1]), n=1 + sum(a.n for a in args), ops=sum(a.ops for a in args))
    if k == 'par':
        a = expr(s, p, have, depth - 1)
        return Out(['('] + a.toks + [')'], a.val, n=a.n, ops=a.ops)
    o = s.pick(['+', '-', '*', '/'])
    a, b = expr(s, p, have, depth - 1), expr(s, p, have, depth - 1)
    if o == '/' and b.val == 0:
        o = '*'
    v = a.val + b.val if o == '+' else a.val - b.val if o == '-' else a.val * b.val if o == '*' else a.val / b.val
    lv = p.levels.index(('b', BUILTIN[o]))
    return Out(fit(a, lv, True) + [o] + fit(b, lv, False), v, lv, False, a.n + b.n, a.ops + b.ops)


def evaluate(s, t, c, p, have, title):
    x = expr(s, p, have, s.int(1, 4))
    if len(str(x.val.numerator)) + len(str(x.val.denominator)) > 40:
        raise Discard()
    text = ' '.join(x.toks)
    t.show('{}: {}'.format(title, text))
    if x.ops or x.n >= 2:
        t.nt()
    r = sut.last(c, text)
    check(not isinstance(r, Err), '{}: {} is refused ({}), it is {}', title, text, r, x.val)
    check(isinstance(r[0], Number) and frac(r[0]) == x.val and r[1] is None, '{}: {} gives {} {}, it is {}', title, text, sut.model(r[0]), r[1] and r[1].plural(), x.val)


def quantity(s, t, c, p, have, title):
    dims = {p.dims[w] for w in have['units']}
    units = sorted(u for u, x in p.units.items() if x[0] in dims and (x[3] is None or x[3] in have['units']) and (not x[4] or 'units.unitsymbols' in have['all']))
    mine = [u for u in units if p.units[u][3] is not None]
    if not mine:
        return
    a = s.pick(mine)
    b = s.pick([u for u in units if p.units[u][0] == p.units[a][0]])
    if s.bool():
        a, b = b, a
    n, m = s.pick(['1', '2', '5', '0.5', '12']), s.pick(['1', '3', '0.25'])
    (dim, ra, na, _, _), (_, rb, nb, _, _) = p.units[a], p.units[b]
    k = s.draw(3)
    if k == 0:
        text, want, powers = '{} {} + {} {}'.format(n, a, m, b), Fraction(n) + Fraction(m) * rb / ra, {na: 1}
    elif k == 1 and dim in ('distance', 'time'):
        o = 'second' if dim == 'distance' else 'meter'
        if p_has(have, o):
            text, want, powers = '{} {} / {} {} * {} {}'.format(n, a, m, o, m, o), Fraction(n), {na: 1}
        else:
            text, want, powers = '{} {}'.format(n, a), Fraction(n), {na: 1}
    elif k == 2:
        text, want, powers = '{} {} * {} {}'.format(n, a, m, b), Fraction(n) * Fraction(m) * rb / ra, {na: 2}
    else:
        text, want, powers = '{} {} to {}'.format(n, a, b), Fraction(n) * ra / rb, {nb: 1}
    t.show('{}: {}'.format(title, text))
    t.nt()
    r = sut.last(c, text)
    check(not isinstance(r, Err), '{}: {} is refused ({}), it is {} {}', title, text, r, want, powers)
    check(frac(r[0]) == want and sut.unitpowers(r[1]) == powers, '{}: {} gives {} {}, it is {} {}', title, text, frac(r[0]), sut.unitpowers(r[1]), want, powers)


def p_has(have, unit):
    return 'unitdefinitions.' + {'second': 'time', 'meter': 'distance'}[unit] in have['all']


def having(p, all):
    """What the installed features define."""
    h = {'consts': set(), 'words': set(), 'funcs': set(), 'ops': set(), 'units': set(), 'all': all}
    for f in p.features:
        if f.id in all:
            for w, kind in f.names:
                h[kind].add(w)
    return h


def plain(calc, lines):
    out = []
    for l in lines:
        r = sut.run(calc, l)
        out.append((l, ('error', r.exc.find_pos(l)) if isinstance(r, Err) else tuple(sut.snap_all(r, calc))))
    return out


def custom(s, t):
    """One calculator, or several with different files."""
    with Paths(t) as base:
        plugs = [plug(s, i) for i in range(s.pick([1, 1, 2, 2, 3]))]
        for i, p in enumerate(plugs):
            write(base, p, 'p{}'.format(i))
        made = []
        t.show("; ".join("{} {}/{}: {}".format(i, d, n, [(f.id, f.deps, f.after, f.parts) for f in fs]) for i, p in enumerate(plugs) for d, n, fs in p.files))
        pre = s.pick(['Computing', 'Scientific', 'Advanced'])
        g = script.Gen(s, script.PRESETS[pre])
        lines = [script.text(g.program(1, 2, 1)) for _ in range(s.int(0, 2))] if s.bool() else []
        for _ in range(s.int(1, 3)):
            w = s.pick(WORDS)
            lines.append(s.pick(['{0}', '2 {0}', '{0}(1)', '3 kilo{0}s', '{0} + 1', '5 {1} 3', '{1} 4', '5 {1} 6 : 7']).format(w, s.pick(SYMBOLS)))
        before = ModularCalculator(pre)
        first = plain(before, lines)
        before.vars = {}
        for i, p in enumerate(plugs):
            c, all, log = build(s, t, p, base, 'p{}'.format(i))
            place(p, log)
            made.append((c, p, having(p, all), 'calculator {} with {}'.format(i + 1, sorted(x for x in all if x.startswith('custom')))))
        for _ in range(s.int(2, 8)):
            c, p, have, title = s.pick(made)
            if s.bool(3, 4):
                evaluate(s, t, c, p, have, title)
            else:
                quantity(s, t, c, p, have, title)
        again = plain(before, lines)
        check(again == first, 'a calculator without custom features gives {} instead of {} once others have some', again, first)
        after = plain(ModularCalculator(pre), lines)
        check(after == first, 'a calculator made after others got custom features gives {} instead of {}', after, first)
        if s.bool(1, 3):
            # something built in is added afterwards
            c, p, have, title = s.pick(made)
            more = s.pick(ANY)
            if more not in c.installed_features and not any(more in f.after for f in p.features if f.id in have['all']) and order_ok(c, more):
                c.install_features(more)
                evaluate(s, t, c, p, have, title + ' and then ' + more)


def order_ok(c, more):
    new = closure({n: list(f.dependencies()) for n, f in c.feature_list.items()}, [more]) - set(c.installed_features)
    return not any(g in new for n in c.installed_features for g in c.feature_list[n].after())


def again(s, t):
    """The same file with other contents, or another file with a feature of the same name: the one imported last counts."""
    with Paths(t) as base:
        name = s.pick(FILES)
        c = ModularCalculator('Advanced') if s.bool(1, 3) else ModularCalculator()
        w = s.pick(WORDS)
        k = s.int(2, 4)
        for i in range(k):
            v = rat(s)
            f = Feat('custom.a')
            f.deps = ['state.constants', 'numerical.decimalnumbers']
            f.code = ["calculator.constants[{!r}] = Number({!r})".format(w, v)]
            g = Feat('custom.b{}'.format(i))
            g.deps, g.code = ['numerical.decimalnumbers'], ['pass']
            d = os.path.join(base, s.pick(['x', 'y']))
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, name)
            with open(path, 'w', encoding='utf8') as fh:
                fh.write(source([f, g] if s.bool() else [g, f]))
            t.show('import {} with {} = {}'.format(path, w, v))
            ids = c.import_feature_file(path)
            check(sorted(set(ids)) == sorted([f.id, g.id]), 'import_feature_file({}) says {}', path, sorted(ids))
        t.nt()
        check('custom.a' in c.list_features() and all('custom.b{}'.format(i) in c.list_features() for i in range(k)), 'features known: {}', [x for x in c.list_features() if x.startswith('custom')])
        c.install_features(['custom.a'])
        r = sut.last(c, w)
        check(not isinstance(r, Err) and frac(r[0]) == Fraction(v), '{} is {} instead of {}, which was imported last', w, r, v)
        o = ModularCalculator()
        check('custom.a' not in o.list_features(), 'another calculator knows the feature')
        try:
            o.install_features(['custom.a'])
        except CalculatorException:
            pass
        else:
            check(False, 'another calculator installs the feature')


GROUPS = [('custom', custom, 8), ('again', again, 1)]
