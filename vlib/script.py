"""Generator of whole programs over (nearly) all features, as token lists.

Used where the oracle is differential or metamorphic, so no reference values
are kept.  Statements mostly succeed; what they read and assign is recorded.
"""
from . import gen, prog
from .prog import Ctx

NAMES = ['a', 'b', 'c', 'x1', 'foo', 'Bar', '_q', 'orange', 'stepper', 'val_2']
LEN = ['m', 'km', 'cm', 'inches', 'feet', 'miles', 'nautical miles']
TIME = ['seconds', 'minutes', 'hours', 'days', 'ms']
MASS = ['kg', 'grams', 'pounds', 'tonnes']
OTHER = ['newtons', 'J', 'kW', 'bytes', 'kB', 'liters', 'Pa', 'ohms', 'V', 'degrees', 'm/s', 'km/hour', 'm^2', 's^-1', 'kg m/s^2', 'mol']
DATES = ['2020-02-28', '1999-12-31T23:59:59', '2000-01-01T00:00:00.5', '2024-02-29', '0100-01-01', '2021-06-15T12:00:00+0200', '2021-06-15+0000']

# What each part of the language needs; presets offer growing sets.
ALL = {'arith', 'brackets', 'assign', 'assignops', 'adv', 'arrays', 'arrayfuncs', 'funcs', 'stats', 'numfuncs', 'trig', 'special', 'exp', 'percent', 'as', 'units', 'unitfuncs',
       'constants', 'bool', 'bit', 'bases', 'strings', 'strfuncs', 'regex', 'dates', 'inline', 'comments', 'delete'}
PRESETS = {
    'Basic': {'arith'},
    'Advanced': {'arith', 'brackets', 'assign', 'assignops', 'adv'},
    'Scientific': {'arith', 'brackets', 'assign', 'assignops', 'adv', 'arrays', 'arrayfuncs', 'funcs', 'stats', 'numfuncs', 'trig', 'special', 'exp', 'percent', 'as', 'units',
                   'unitfuncs', 'constants', 'delete'},
    'Computing': ALL,
}


class Stmt:
    __slots__ = ('toks', 'assigns', 'reads', 'typ', 'kind')

    def __init__(self, toks, assigns=None, reads=(), typ=None, kind='expr'):
        self.toks = toks
        self.assigns = assigns      # name, or '*' for all
        self.reads = set(reads)
        self.typ = typ
        self.kind = kind

    def text(self):
        return gen.join(self.toks)


class Gen:
    def __init__(self, s, have=None, vars=None):
        self.s = s
        self.have = ALL if have is None else set(have)
        self.vars = dict(vars or {})      # name -> type
        self.reads = set()
        self.names = NAMES
        self.assigning_bodies = True      # inline functions whose body assigns variables

    # -- expressions: token lists ----------------------------------------
    def var(self, typ):
        ns = [n for n, t in sorted(self.vars.items()) if t == typ]
        if ns and self.s.bool(2, 5):
            n = self.s.pick(ns)
            self.reads.add(n)
            return [n]
        return None

    def lit(self):
        s = self.s
        k = s.draw(9)
        if k == 7 and 'bases' in self.have:
            return [s.pick(['0x1F', '0b1011', '0o17', '0xFF.8', '36zHELLO', '3z201', '0b0001', '0xa0'])]
        if k == 8 and 'percent' in self.have:
            return ['(', s.pick(['10%', '2.5%', '150%']), ')'] if 'brackets' in self.have else ['10%']
        if k == 9 and 'exp' in self.have:
            return [s.pick(['1E3', '2.5E-4', '12E2', '6.02E23'])]
        return [gen.num_lit(s, big=False, neg='brackets' in self.have)[0]]

    def par(self, toks):
        return ['('] + toks + [')'] if 'brackets' in self.have else toks

    def num(self, d):
        s = self.s
        h = self.have
        if d <= 0 or s.bool(1, 5):
            return self.var('num') or self.lit()
        opts = [(6, 'bin')]
        if 'brackets' in h:
            opts += [(3, 'par')]
        if 'arrays' in h and 'stats' in h:
            opts += [(3, 'stat')]
        if 'numfuncs' in h:
            opts += [(3, 'func')]
        if 'trig' in h:
            opts += [(1, 'trig')]
        if 'special' in h:
            opts += [(1, 'special')]
        if 'strings' in h:
            opts += [(2, 'strnum')]
        if 'bool' in h:
            opts += [(2, 'then')]
        if 'constants' in h:
            opts += [(1, 'const')]
        if 'bit' in h:
            opts += [(2, 'bit')]
        if 'as' in h:
            opts += [(1, 'as')]
        if 'inline' in h:
            opts += [(2, 'call')]
        if 'arrayfuncs' in h:
            opts += [(1, 'element')]
        k = s.weighted(opts)
        if k == 'bin':
            ops = ['+', '-', '*'] + (['/'] if s.bool(1, 2) else []) + (['%', '\\', '^'] if 'adv' in h and s.bool() else [])
            op = s.pick(ops)
            l = self.num(d - 1)
            if op == '^':
                return ['('] + l + [')', '^', s.pick(['2', '3', '-1', '0'])]
            r = self.num(d - 1)
            if op in '/%\\':
                r = [s.pick(['3', '7', '2.5', '12'])]
            if s.bool(1, 2):
                return l + [op] + r
            return self.par(l) + [op] + self.par(r)
        if k == 'par':
            return ['('] + self.num(d - 1) + [')']
        if k == 'stat':
            f = s.pick(['sum', 'max', 'min', 'mean', 'median', 'mode', 'count'])
            return [f + '('] + self.arr(d - 1) + [')']
        if k == 'func':
            f = s.pick(['abs', 'floor', 'ceil', 'round', 'round2', 'gcd', 'fact', 'exp', 'log'])
            if f == 'round2':
                return ['round('] + self.num(d - 1) + [',', str(s.draw(4)), ')']
            if f == 'gcd':
                return [s.pick(['gcd', 'lcm']) + '(', str(s.int(1, 40)), ',', str(s.int(1, 40)), ')']
            if f == 'fact':
                return ['fact(', str(s.draw(12)), ')']
            if f in ('exp', 'log'):
                return [f + '(', s.pick(['1', '2', '0.5', '3.25']), ')']
            return [f + '('] + self.num(d - 1) + [')']
        if k == 'trig':
            return [s.pick(['sin', 'cos', 'tan', 'atan', 'sinh']) + '('] + [s.pick(['1', '0.5', '2'] + (['30 degrees'] if 'units' in h else []))] + [')']
        if k == 'special':
            return s.pick([['sp_ellipk(', '0.5', ')'], ['sp_jv(', '1', ',', '2.5', ')'], ['sp_airy_ai(', '1', ')'], ['sp_gamma(', '4.5', ')']])
        if k == 'strnum':
            return ['length('] + self.str(d - 1) + [')']
        if k == 'then':
            return ['('] + self.bool(d - 1) + ['then'] + self.num(d - 1) + ['else'] + self.num(d - 1) + [')']
        if k == 'const':
            return [s.pick(['pi', 'e'])]
        if k == 'bit':
            return ['(', str(s.draw(40)), s.pick(['&', '|', '^^', '<<', '>>']), str(s.draw(9)), ')']
        if k == 'as':
            return ['('] + self.num(d - 1) + ['as', s.pick(['decimal', 'percentage', 'scientific'] + (['hexadecimal', 'binary', 'octal'] if 'bases' in h else [])), ')']
        if k == 'call':
            fs = [n for n, t in sorted(self.vars.items()) if t == 'func']
            if not fs:
                return self.lit()
            n = s.pick(fs)
            self.reads.add(n)
            return ['@' + n + '('] + self.num(d - 1) + [')']
        return ['element('] + self.arr(d - 1) + [',', '1', ')']

    def arr(self, d):
        s = self.s
        v = self.var('arr')
        if v:
            return v
        k = s.draw(9)
        if k < 5 or d <= 0:
            out = ['[']
            for i in range(s.int(1, 4)):
                if i:
                    out.append(',')
                out += self.num(d - 1)
            return out + [']']
        if k == 5:
            return ['[', str(s.draw(3)), '..', str(s.int(3, 8)), ']']
        if k == 6:
            return ['[', str(s.int(1, 3)), '..', str(s.int(4, 12)), 'step', s.pick(['2', '0.5', '3']), ']']
        if k == 7 and 'arrayfuncs' in self.have:
            f = s.pick(['sort(', 'reverse('])
            return [f] + self.arr(d - 1) + [')']
        if k == 8 and 'arrayfuncs' in self.have:
            return ['concat('] + self.arr(d - 1) + [','] + self.arr(d - 1) + [')']
        if k == 9 and 'inline' in self.have:
            v = self.var('func')
            if v:
                return ['@' + v[0] + '('] + self.arr(d - 1) + [')']
        return ['('] + self.arr(d - 1) + [s.pick(['+', '*', '-'])] + self.num(0) + [')']

    def qty(self, d):
        """A quantity; compatible operands only."""
        s = self.s
        v = self.var('qty')
        if v and d > 0:
            return s.pick([v, ['2', '*'] + v, ['('] + v + [')', '^', '2'], v + ['/', '4'], v + ['*', '3', s.pick(LEN)]])
        fam = s.pick([LEN, TIME, MASS])
        k = s.draw(8)
        n = gen.num_lit(s, neg=False, big=False)[0]
        if k < 2:
            return [n, s.pick(LEN + TIME + MASS + OTHER)]
        if k == 2:
            return [n, s.pick(fam), s.pick(['+', '-']), str(s.int(1, 9)), s.pick(fam)]
        if k == 3:
            return [n, s.pick(LEN), '/', str(s.int(1, 9)), s.pick(TIME)]
        if k == 4:
            return [n, s.pick(fam), 'to', s.pick(fam)]
        if k == 5:
            return ['('] + [n, s.pick(LEN)] + [')', '*', '('] + [str(s.int(1, 9)), s.pick(LEN + TIME + MASS)] + [')']
        if k == 6 and 'unitfuncs' in self.have:
            return [s.pick(['compact', 'round', 'abs']) + '(', n, s.pick(LEN + TIME + MASS + OTHER[:6]), ')']
        if k == 7:
            return [n, 'km', '/', 'hour', 'to', 'm', '/', 's']
        return [s.pick(['sum', 'max']) + '(', '[', n, s.pick(fam), ',', '3', s.pick(fam), ']', ')'] if 'stats' in self.have else [n, s.pick(fam)]

    def bool(self, d):
        s = self.s
        v = self.var('bool')
        if v:
            return v
        k = s.draw(5)
        if d <= 0 or k == 0:
            return [s.pick(['true', 'false'])]
        if k == 1:
            return ['('] + self.bool(d - 1) + [s.pick(['and', 'or', 'xor'])] + self.bool(d - 1) + [')']
        if k == 2:
            return ['not'] + self.bool(0)
        if k == 3:
            return ['('] + self.str(0) + [s.pick(['==$', '!=$', '<$', '>=~', '==~'])] + self.str(0) + [')']
        return ['('] + self.num(d - 1) + [s.pick(['==', '!=', '<', '>', '<=', '>='])] + self.num(d - 1) + [')']

    WORDS = ['', 'a', 'Hello', 'a b', '+1', "it's", 'x_1', '(', '#no', 'é', '12', ' ', '[1,2]', 'a,b,c', '{x}', '\\', 'step', 'e']

    def str(self, d):
        s = self.s
        v = self.var('str')
        if v:
            return v
        if d <= 0 or s.bool(1, 3):
            return [prog.quote(s.pick(self.WORDS))]
        k = s.draw(6)
        if k < 2 and 'strfuncs' in self.have:
            return [s.pick(['upper', 'lower']) + '('] + self.str(d - 1) + [')']
        if k == 2 and 'strfuncs' in self.have:
            return ['replace('] + self.str(d - 1) + [',', "'a'", ',', "'b'", ')']
        if k == 3 and 'regex' in self.have:
            return ['regexsub('] + self.str(d - 1) + [',', prog.quote(s.pick(['[a-c]', 'l+', '\\d'])), ',', "'Z'", ')']
        if k == 4 and 'arrays' in self.have and 'strfuncs' in self.have:
            return ['join(', '['] + self.str(d - 1) + [','] + self.str(0) + [']', ',', "', '", ')']
        return ['('] + self.str(d - 1) + ['+$'] + (self.str(d - 1) if s.bool(2, 3) else ['('] + self.num(0) + [')']) + [')']

    def date(self):
        s = self.s
        d = [prog.quote(s.pick(DATES))]
        k = s.draw(3)
        if k < 2:
            return d + [s.pick(['+%', '-%']), str(s.int(0, 400)), s.pick(['days', 'hours', 'seconds', 'weeks'])]
        if k == 2:
            return ['dateadd('] + d + [',', '3', 'days', ')']
        return ['datedifference(', prog.quote(s.pick(DATES[:5])), ',', prog.quote(s.pick(DATES[:5])), ')']

    def any(self, d):
        """(tokens, type)"""
        s = self.s
        h = self.have
        opts = [(8, 'num')]
        if 'arrays' in h:
            opts += [(4, 'arr')]
        if 'units' in h:
            opts += [(5, 'qty')]
        if 'bool' in h:
            opts += [(3, 'bool')]
        if 'strings' in h:
            opts += [(4, 'str')]
        if 'dates' in h:
            opts += [(1, 'date')]
        if 'regex' in h:
            opts += [(1, 'strarr')]
        k = s.weighted(opts)
        if k == 'strarr':
            t = s.pick([['split('] + self.str(1) + [',', "','", ')'], ['regexget('] + self.str(1) + [',', "'[a-z]'", ')'], ['format(', '12345', 'seconds', ')'], ['['] + self.str(0) + [','] + self.str(0) + [']'],
                        ['filter('] + ['[', '1', ',', '5', ',', '9', ']', ',', '[', '1', ',', '5', ',', '9', ']', '>', '4', ')']])
            return t, 'other'
        if k == 'date':
            return self.date(), 'other'
        return getattr(self, k)(d), k

    def stmt(self, failing=0):
        s = self.s
        h = self.have
        self.reads = set()
        k = s.weighted([(5, 'expr')] + ([(6, 'set')] if 'assign' in h else []) + ([(2, 'op'), (1, 'inc')] if 'assignops' in h else []) +
                       ([(1, 'empty')] if 'assign' in h else []) + ([(1, 'delete')] if 'delete' in h else []) + ([(2, 'func')] if 'inline' in h else []))
        d = s.int(0, 3)
        if failing and s.bool(failing, 20):
            t = s.pick([['1', '/', '0'], ['nosuch', '+', '1'], ['1', '/', '(', '2', '-', '2', ')'], ['5', '+', "'abc'"], ['5', 'm', '+', '3'], ['log(', '0', ')'], ['[', '1', ',', '2', ']', '+', '[', '1', ']'],
                        ['nosuch(', '1', ')'], ['not', '5']])
            if s.bool(1, 3):
                n = s.pick(self.names)
                return Stmt([n, '='] + t, None, (), None, 'fail')
            return Stmt(t, None, (), None, 'fail')
        if k == 'func':
            n = s.pick(['f', 'fn_2'])
            body = s.pick([['{', 'PARAM1', '+', '1', '}'], ['{', 't1', '=', 'PARAM1', '*', '2', '\n', 't1', '+', '1', '}'],
                           ['{', 'a', '=', '(', 'PARAM1', '-', '1', ')', '\n', 'a', '+=', '3', '\n', 'a', '*', 'a', '}'], ['{', 'PARAM1', '*', 'PARAM1', '-', '2', '}'], ['{', 'abs(', 'PARAM1', ')', '}'],
                           ['{', '(', 'PARAM1', '>', '3', 'then', 'PARAM1', 'else', '3', ')', '}']])
            if '=' in body and not self.assigning_bodies:
                body = ['{', 'PARAM1', '+', '1', '}']
            st = Stmt([n, '='] + body, n, (), 'func', 'set')
            self.vars[n] = 'func'
            return st
        if k in ('op', 'inc', 'delete'):
            ns = [n for n, t in sorted(self.vars.items()) if t == 'num' or (k == 'delete' and t != 'func')]
            if not ns:
                k = 'set' if 'assign' in h else 'expr'
            else:
                n = s.pick(ns)
                if k == 'inc':
                    return Stmt([n, s.pick(['++', '--'])], n, (n,), 'num', 'op')
                if k == 'delete':
                    del self.vars[n]
                    return Stmt(['delete(', n, ')'], n, (n,), None, 'delete')
                e = self.num(s.int(0, 2))
                op = s.pick(['+=', '-=', '*='])
                return Stmt([n, op] + e, n, self.reads | {n}, 'num', 'op')
        e, typ = self.any(d)
        if k == 'expr':
            return Stmt(e, None, self.reads, typ)
        n = s.pick(self.names)
        st = Stmt([n, '=' if k == 'set' else '||='] + e, n, self.reads, typ, k)
        if k == 'set':
            self.vars[n] = typ
        elif n not in self.vars:
            self.vars[n] = typ
        else:
            st.typ = None
        return st

    def program(self, lo, hi, failing=0):
        s = self.s
        if hi >= 3 and s.bool(1, 40):
            # a long one, with many variables
            if s.bool():
                self.names = NAMES + ['vv{}'.format(i) for i in range(s.int(1, 60))] + ['a_long_name_' * 3 + x for x in ('a', 'b', 'aa')] + ['long' * 20]
            n = s.int(hi, 60)
            failing = failing if s.bool(1, 3) else 0
        else:
            n = s.int(lo, hi)
        return [self.stmt(failing) for _ in range(n)]


def text(stmts):
    return '\n'.join(st.text() for st in stmts)
