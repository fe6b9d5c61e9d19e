"""Variables are an assignment store: histories against a dictionary model."""
from fractions import Fraction

from vlib import gen, prog, sut
from vlib.gen import Node
from vlib.prog import Ctx
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard

RULE = ('histories of 3 to 25 statements (=, ||=, ++ -- += -= *= /= ^= %= \\=, delete, reset, reads, functions over variables, statements that fail while '
        'parsing or executing) over numbers, booleans, strings, arrays and quantities, sent in calls of 1 to 4 statements; oracle: dictionary model with '
        'exact values, plus the plain expression evaluated on a twin calculator. Non-trivial: at least two changes of variables and one read or failure after them. Group names: variables named like words of the language with something before or after them, assigned and read in several places.')

NAMES = ['a', 'b', 'c', 'x1', '_t', 'Foo', 'foo', 'abc', 'orange', 'stepper', 'PARAM1', 'v_2', 'a_long_name_' * 3 + 'a', 'a_long_name_' * 3 + 'b', 'long' * 70]
OPS = ['+', '-', '*', '/', '^', '%', '\\']
DELETED = object()


class Model:
    def __init__(self):
        self.vars = {}          # name -> ('exact', value) | ('snap', snapshot)

    def ctx(self, **kw):
        typ = {Fraction: 'num', bool: 'bool', str: 'str'}
        vs = {}
        for n, (k, v) in self.vars.items():
            if k == 'exact' and type(v) in typ:
                if type(v) is str and len(v) > 14:
                    continue
                vs[n] = (typ[type(v)], v)
        return Ctx(vars=vs, ops=('arith', 'adv', 'pow', 'bool', 'cmp', 'str', 'strcmp', 'then', 'impl'), **kw)


def rhs(s, m):
    """(text, exact value or None): a value to assign."""
    k = s.weighted([(8, 'num'), (2, 'bool'), (2, 'str'), (3, 'arr'), (4, 'qty'), (2, 'var'), (1, 'not')])
    ctx = m.ctx()
    if k in ('num', 'bool', 'str'):
        e = prog.expr(s, k, s.int(0, 2), ctx)
        return gen.join(gen.toks(e)), e.val
    if k == 'arr':
        es = [prog.expr(s, 'num', s.int(0, 1), ctx) for _ in range(s.int(1, 4))]
        return gen.join(['['] + [','.join(gen.join(gen.toks(e)) for e in es)] + [']']), [e.val for e in es]
    if k == 'qty':
        t = '{} {}'.format(s.int(0, 30), s.pick(UNITS))
        if s.bool(1, 3):
            t += ' {} {} {}'.format(s.pick(['+', '-', '*', '/']), s.int(1, 9), s.pick(UNITS))
        if s.bool(1, 5):
            t = '[{}, {} {}]'.format(t, s.int(1, 9), s.pick(UNITS))
        return t, None
    if k == 'not':
        return s.pick(['0x1f', '0b101', '10%', '2E5', '16 as hexadecimal', 'hex(31)', '0o17', '5 km to m', '5 as percentage', '36z1z']), None
    if not m.vars:
        return '7', Fraction(7)
    n = s.pick(sorted(m.vars))
    k, v = m.vars[n]
    if s.bool(1, 3):
        return '[{}, {}]'.format(n, s.int(0, 5)), None
    return n, v if k == 'exact' else None


UNITS = ['m', 'km', 'cm', 'seconds', 'minutes', 'kg', 'm/s', 'inches']


def same_value(v, want):
    return prog.same(v, want)


def read(s, m):
    """A statement that changes nothing."""
    names = sorted(m.vars) or ['undefinedvar']
    n, n2 = s.pick(names), s.pick(names)
    k = s.draw(11)
    if k < 3:
        typ = s.pick(['num', 'bool', 'str'])
        e = prog.expr(s, typ, s.int(1, 3), m.ctx())
        return gen.join(gen.toks(e)), e.val
    if k == 3:
        kk, v = m.vars.get(n, ('snap', None))
        return n, v if kk == 'exact' else None
    f = s.pick(['sort({0})', 'reverse({0})', 'concat({0}, {1})', 'sum({0})', 'max({0}, {1})', 'element({0}, 0)', 'count({0})', 'mean({0}, {1})',
                '{0} + {1}', '{0} * {1}', '-1 * {0}', '{0} - {1}', '{0} == {1}', '({0}) to cm', '{0} as hexadecimal', '{0} as decimal', 'round({0})', 'compact({0})',
                '[{0}, {1}, {0}]', '{0} then 1 else 2', 'hex({0})', 'upper({0})', 'abs({0})', '{0} ^ 2', '{0} {1}', 'median([{0}, {1}])', 'not {0}', '~{0}',
                "join({0}, ',')", 'floor({0}, 1)', 'filter({0}, {{PARAM1 > 1}})', 'format({0})', '{0} to minutes', '{0} +$ {1}', '{0} & {1}', '{0} << 1'])
    return f.format(n, n2), None


FAILING = ['1 / 0', 'nosuchvar + 1', "'abc' * 2", '[1,2] + [1,2,3]', '5 m + 3', '5 m + 2 seconds', 'log(0)', 'nosuchfunc(1)', 'true + []', '1 << 0.5', '0 ^ -1',
           'floor()', 'not 5', '5 m to seconds']


def failing(s, m):
    """A statement that is refused while executing."""
    e = s.pick(FAILING)
    if e == 'true + []':
        e = '1 / (2 - 2)'
    n = s.pick(NAMES)
    d = s.pick(sorted(m.vars)) if m.vars else n
    k = s.draw(9)
    if k in (6, 7):
        sc = [x for x in sorted(m.vars) if m.vars[x][0] == 'exact' and not isinstance(m.vars[x][1], list)]
        if not sc:
            return '5 = 6'
        d = s.pick(sc)
    if k == 0:
        return e
    if k < 3:
        return '{} = {}'.format(n, e)
    if k == 3:
        return '{} = 5 + ({})'.format(n, e)
    if k == 4:
        return '{} {}= {}'.format(d, s.pick(OPS), e)
    if k == 5:
        return '{} ||= {}'.format(n, e)
    if k == 6:
        return s.pick(['5 = {0}', '{0} + 1 = 6', '2 * {0}++', '1 += {0}', "'{0}' = 5"]).format(d)
    if k == 7:
        return s.pick(["delete('{0}')", 'delete(nosuchvar)', 'delete({0}, {0})', 'delete()', 'reset(1)', 'delete(5)']).format(d)
    if k == 8:
        return s.pick(['nosuchvar += 1', 'nosuchvar ++', 'nosuchvar -= 2', 'nosuchvar --', 'nosuchvar \\= 2'])
    return '{} = [{}, {}]'.format(n, s.int(0, 9), e) if not e.startswith('[') else e


def parse_error(s):
    return s.pick(['(', 'a = (1', '5 ; 6', '[1, ', 'floor(1', ')', '"', "'abc", 'x = `', '?', 'a = {1'])


def history(s, t):
    env = t.env
    main, twin = env.fresh(), env.fresh()
    m = Model()
    log = []
    changes = reads = fails = after = 0
    if s.bool(1, 15):
        # many variables
        call = ['many_{} = {}'.format(i, i * 7 % 11) for i in range(s.int(10, 150))]
        for i in range(len(call)):
            m.vars['many_{}'.format(i)] = ('exact', Fraction(i * 7 % 11))
        log.append('\n'.join(call))
        for c in (main, twin):
            r = sut.run(c, log[0])
            check(not isinstance(r, Err), '{} was refused: {}', log[0], r)
        changes = len(call)
        t.label('many variables')
    for _ in range(s.int(2, s.pick([4, 8, 12]))):
        k = s.pick([1, 1, 2, 3, 4]) if s.bool(14, 15) else s.int(5, 40)
        call = []
        outcome = []
        failed = False
        touched = set()
        for j in range(k):
            kind = s.weighted([(8, 'set'), (7, 'op'), (4, 'incdec'), (3, 'empty'), (2, 'del'), (1, 'reset'), (6, 'read'), (4, 'fail')])
            names = sorted(m.vars)
            if kind in ('op', 'incdec', 'del') and not names:
                kind = 'set'
            n = s.pick(names) if names and (kind in ('op', 'incdec', 'del') or s.bool()) else s.pick(NAMES)
            val, new, want_snap = None, None, None
            if kind == 'set' or kind == 'empty':
                e, val = rhs(s, m)
                stmt = '{} {} {}'.format(n, '=' if kind == 'set' else '||=', e)
                plain = e
                store = kind == 'set' or n not in m.vars
            elif kind == 'op':
                op = s.pick(OPS)
                cur = m.vars[n]
                mk = s.draw(5)
                if mk < 4 and cur[0] == 'exact' and isinstance(cur[1], Fraction):
                    x = prog.expr(s, 'num', s.int(0, 2), m.ctx())
                    e = gen.join(gen.toks(x))
                    val = prog.binop(op, cur[1], x.val)
                    if val is None and not (x.val == 0 and op in '/\\%'):
                        if op == '^' or op == '*':
                            raise Discard()
                        e = '3'
                        val = prog.binop(op, cur[1], Fraction(3))
                        if val is None:
                            raise Discard()
                else:
                    e, _ = rhs(s, m)
                    if op == '^':
                        e = s.pick(['2', '-1', '0', '1', '2', '[1, 2]'])
                stmt = '{} {}= {}'.format(n, op, e)
                plain = '{} {} ({})'.format(n, op, e)
                store = True
            elif kind == 'incdec':
                op = s.pick('+-')
                cur = m.vars[n]
                if cur[0] == 'exact' and isinstance(cur[1], Fraction):
                    val = cur[1] + (1 if op == '+' else -1)
                stmt = '{}{}{}'.format(n, s.pick(['', ' ']), op * 2)
                plain = '{} {} 1'.format(n, op)
                store = True
            elif kind == 'del':
                stmt, plain, store = 'delete({})'.format(n), None, False
            elif kind == 'reset':
                stmt, plain, store = 'reset()', None, False
            elif kind == 'read':
                stmt, val = read(s, m)
                plain, store = None, False
            else:
                stmt = failing(s, m)
                plain, store = None, False
            call.append(stmt)
            if plain is not None:
                pr = sut.run(twin, plain)
                ok = not isinstance(pr, Err)
                r = sut.results(pr)[-1] if ok else None
                if ok and r.value is None:
                    raise Discard()
                if ok:
                    want_snap = sut.snap(r.value, r.unit, twin)
                    if val is not None:
                        check(prog.same(r.value, val), 'plain {} is {}, want {}', plain, sut.model(r.value), val)
            before = sut.snap_vars(twin)
            tr = sut.run(twin, stmt)
            now = sut.snap_vars(twin)
            good = not isinstance(tr, Err)
            if kind == 'fail':
                check(not good, 'accepted {} in {}', stmt, log)
            elif kind in ('del', 'reset'):
                check(good, 'refused {} in {}: {}', stmt, log, tr)
            elif plain is not None:
                if ok and not good and any(x[0][0] == 'error' for x in (want_snap[0][1] if want_snap[0][0] == 'array' else ())):
                    raise Discard()     # refused as a whole rather than for each element
                check(good == ok, '{}: {} but {}: {}', stmt, tr, plain, pr)
            if not good:
                check(now == before, 'the failing statement {} changed the variables from {} to {}', stmt, before, now)
                failed = True
                fails += 1
                after += changes > 0
            else:
                if want_snap is not None:
                    r = sut.results(tr)[-1]
                    got = sut.snap(r.value, r.unit, twin)
                    check(got == want_snap, '{} returned {}, the plain operator {} gives {}', stmt, got, plain, want_snap)
                if kind == 'read':
                    check(now == before, '{} changed the variables from {} to {}', stmt, before, now)
                    reads += 1
                    after += changes > 0
                    if val is not None:
                        check(prog.same(sut.results(tr)[-1].value, val), '{} after {} is {}, want {}', stmt, log + call, sut.model(sut.results(tr)[-1].value), val)
                if kind == 'del':
                    del m.vars[n]
                    changes += 1
                elif kind == 'reset':
                    m.vars.clear()
                    changes += 1
                elif store:
                    m.vars[n] = ('exact', val) if val is not None else ('snap', want_snap)
                    changes += 1
                for o in set(before) | set(now):
                    if kind == 'reset' or (o == n and (store or kind == 'del')):
                        continue
                    check(before.get(o) == now.get(o), '{} changed {} from {} to {}', stmt, o, before.get(o), now.get(o))
                outcome.append([sut.snap(x.value, x.unit, twin) for x in sut.results(tr)][-1])
            if failed:
                break
        bad = None
        if s.bool(1, 10):
            # the whole call is refused before anything is executed
            bad = '\n'.join(call) + '\n' + parse_error(s)
            before = sut.snap_vars(main)
            rr = sut.run(main, bad)
            check(isinstance(rr, Err), 'accepted {}', bad)
            now = sut.snap_vars(main)
            check(now == before, 'text that does not parse, {}, changed the variables from {} to {}', bad, before, now)
        extra = []
        if failed and s.bool():
            extra = ['{} = 99'.format(s.pick(NAMES)), 'reset()'][:s.int(1, 2)]
        text = '\n'.join(call + extra)
        log.append(text)
        t.show(' || '.join(log))
        rr = sut.run(main, text)
        if failed:
            check(isinstance(rr, Err), 'accepted {}', text)
            resp = rr.exc.response
        else:
            check(not isinstance(rr, Err), '{} was refused in one call: {}', text, rr)
            resp = rr
        got = [sut.snap(x.value, x.unit, main) for x in sut.results(resp)]
        check(len(got) == len(outcome), '{}: {} results, want {}', text, len(got), len(outcome))
        for g, w in zip(got, outcome):
            if w[0][0] != 'other':
                check(g == w, '{}: result {}, want {}', text, g, w)
        state = sut.vars_of(main)
        check(sorted(state) == sorted(m.vars), 'after {} the variables are {}, want {}', log, sorted(state), sorted(m.vars))
        mine, theirs = sut.snap_vars(main), sut.snap_vars(twin)
        check(mine == theirs, 'after {} the variables are {}, sent one by one {}', log, mine, theirs)
        for n, (kind, want) in m.vars.items():
            if kind == 'exact':
                v, u = state[n]
                check(prog.same(v, want) and (u is None or not u.list()), 'after {} the variable {} is {} {}, want {}', log, n, sut.model(v), sut.unitpowers(u), want)
            elif s.bool():
                r = sut.last(main, n)
                check(not isinstance(r, Err), 'variable {} cannot be read after {}', n, log)
                got = sut.snap(r[0], r[1], main)
                check(got == want, 'after {} the variable {} reads {}, want {}', log, n, got, want)
        check(sut.snap_vars(main) == mine, 'reading variables changed them after {}', log)
    if changes >= 2 and after:
        t.nt()
    t.label('fails' if fails else 'no failure')


WORDS = {}


def words(t, preset):
    """All words of the language, and whether their case matters."""
    if preset not in WORDS:
        c = t.env.calc(preset)
        exact = {w for w in c.ops_symbols if w.isalpha()} | set(c.number_types) | set(getattr(c, 'constants', ())) | {'step'}
        folded = {'true', 'false'} if preset == 'Computing' else set()
        n = c.unit_normaliser
        if n is not None:
            exact |= set(n.systems) | {w for w in n.unitsymbols if w.isalpha()}
            folded |= {w for w in n.unitnames if w.isalpha()}
        WORDS[preset] = (sorted(exact | set(getattr(c, 'funcs', ()))), sorted(folded), exact, folded)
    return WORDS[preset]


def plain_name(s):
    return ''.join(s.pick('abcdexyzABEX_0159') for _ in range(s.int(1, 8)))


def names(s, t):
    """A variable may have any name but the words of the language."""
    preset = s.weighted([(6, 'Computing'), (2, 'Scientific'), (1, 'Advanced')])
    a, b, exact, folded = words(t, preset)
    c = t.env.calc(preset)
    c.vars = {}
    used, lines = {}, []
    for _ in range(s.int(1, 3)):
        k = s.draw(5)
        w = s.pick(a if s.bool(2, 3) or not b else b)
        if k == 0:
            n = plain_name(s)
        elif k < 3:
            n = w + '_' + s.pick(['', 'x', '1', '_', 'price', 'm', s.pick(a)])
        elif k == 3:
            n = w + s.pick(['x', 'xq', 'Q', 'z', 'ing', s.pick(a)])
        elif k == 4:
            n = s.pick(['_', 'q', 'x_', 'Z9']) + w
        else:
            n = s.pick([w.swapcase(), w.capitalize(), w.upper()])
        if n in exact or n.lower() in folded or n[0].isdigit() or not n.isascii():
            continue
        # a unit, a constant or the like ends before a digit
        stem = ''.join(ch if ch.isalpha() else ' ' for ch in n).split(' ')[0]
        if stem and len(stem) < len(n) and n[len(stem)].isdigit() and (stem in exact or stem.lower() in folded):
            continue
        used[n] = s.int(1, 99)
        lines.append('{} = {}'.format(n, used[n]))
    if not used:
        raise Discard()
    full = preset == 'Computing'
    total = sum(used.values())
    ns = sorted(used)
    n = s.pick(ns)
    forms = [(n, used[n]), (' + '.join(ns), total), ('({})'.format(n), used[n]), ('2 * {} - 1'.format(n), 2 * used[n] - 1), ('{}++'.format(n), used[n] + 1), ('{} += 3'.format(n), used[n] + 3),
             ('3-{}'.format(n), 3 - used[n]), ('({}+{})*2'.format(n, n), 4 * used[n])]
    if preset != 'Advanced':
        forms += [('sum([{}])'.format(', '.join(ns)), total), ('max({}, 0)'.format(n), used[n]), ('sum([{}..{}])'.format(n, n), used[n]), ('sum([0..100 step {}])'.format(n), sum(range(0, 101, used[n])))]
    if full:
        forms += [('true then {} else 0'.format(n), used[n]), ('@f_({})'.format(n), used[n] + 1), ('({} == {}) then {} else 1'.format(n, n, n), used[n])]
        lines.insert(0, 'f_ = {PARAM1 + 1}')
    e, want = s.pick(forms)
    text = '\n'.join(lines + [e])
    t.show(preset + ': ' + text)
    t.nt()
    r = sut.last(c, text)
    check(not isinstance(r, Err), '{} was refused: {}', text, r)
    check(isinstance(r[0], Number) and frac(r[0]) == want and r[1] is None, '{} gives {} {} instead of {}', text, r[0], r[1], want)


GROUPS = [('history', history, 4), ('names', names, 1)]
