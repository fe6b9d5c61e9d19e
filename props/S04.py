"""Results depend only on the program; what was returned never changes."""
from vlib import fuzz, script, sut
from vlib.fuzz import tame
from vlib.sut import check, Err

RULE = ('random histories of programs (valid, failing, mutated, with every option and setting) on one or several calculators, then a random program; oracle: a calculator '
        'without that history gives the same results, and everything returned earlier still reads the same. Non-trivial: the history calculates at least two results or fails.')

PRESETS = ['Computing', 'Scientific', 'Advanced', 'Basic']


def items(its):
    out = []
    for i in its:
        out.append((type(i).__name__, i.text))
        if hasattr(i, 'items'):
            out.append(items(i.items))
    return out


def view(resp, calc):
    """All a user can see of a response."""
    return [(r.expression, items(r.items), sut.snap(r.value, r.unit, calc) if r.has_result() else None,
             {k: sut.snap(v[0], v[1], calc) for k, v in r.state.items()} if r.has_state() else None) for r in resp.results]


def view_err(e, calc, prog):
    return e.message, [items(x) for x in e.statements], e.next, e.find_pos(prog), view(e.response, calc)


def outcome(calc, x, flags=None):
    r = sut.run(calc, x, flags)
    if isinstance(r, Err):
        return r, ('error', r.message, [sut.snap(q.value, q.unit, calc) for q in r.exc.response.results if q.has_result()])
    return r, ('fine', None, [sut.snap(q.value, q.unit, calc) for q in r.results if q.has_result()])


def message(o):
    """Messages contain addresses of functions."""
    return (o[0], None if o[1] is None or ' object at 0x' in o[1] else o[1], o[2])


def simplify(calc, on):
    if calc.unit_normaliser is not None:
        calc.unit_simplification_set(on)


def piece(s, g, again=()):
    """One call of a history: (text, options, unit simplification)."""
    k = s.draw(9)
    if k == 9 and again:
        x = s.pick(again)
        if s.bool():
            x = s.pick([' ' + x, x + '\n', x.replace(' ', '  ', 1), x.replace(' ', '', 1), x + ' # c'])
    elif k >= 7:
        x = '\n'.join(st.text() for st in g.program(1, 3, failing=3))
        x = fuzz.mutate(s, x, 1, 3)
    elif k == 6:
        x = s.pick(['reset()', '1 +', '(', "'", '1 + (2', '[1, 2', 'f = {', 'a = 1 +\n2', 'a +', 'a + 1', '5 m to', '1 / 0', 'sum(1, 2', '@f(', '12 m + 3 s', 'a = {1 / 0}\n@a()', 'PARAM1', '0.1 +\n', 'not', '3 m s m',
                    'a == b', '((((1))))', '5 km/hour to m/s', '[1 m, 2 km] to m', '1 m == 100 cm', '0x10 + 1'])
    else:
        x = '\n'.join(st.text() for st in g.program(1, 3, failing=2))
    flags = None
    if s.bool(1, 6):
        flags = s.pick([{'parse_only': True}, {'stateless': True}, {'include_state': True}, {'include_state': True, 'stateless': True}])
    return x, flags, s.bool(1, 4)


def used(s, t):
    """A calculator with a history, and a new one."""
    t.hang_ok = True
    preset = s.weighted([(8, 'Computing'), (1, 'Scientific'), (1, 'Advanced')])
    have = script.PRESETS[preset]
    wipe = s.bool()
    g2 = script.Gen(s, have)
    stmts = g2.program(1, 4, failing=1)
    if not wipe:
        kept, known = [], set()
        for st in stmts:
            if st.kind not in ('empty', 'delete', 'fail') and st.reads <= known:
                kept.append(st)
                known.add(st.assigns)
        stmts = kept or [script.Stmt(['1', '+', '1'])]
    prog = '\n'.join(st.text() for st in stmts)
    g = script.Gen(s, have)
    hist = [piece(s, g, [prog] + [st.text() for st in stmts]) for _ in range(s.int(1, 4))]
    hist = [h for h in hist if tame(h[0], True)]
    where = [s.pick(['same', 'same', 'same', 'other']) for _ in hist]
    mode = s.bool()
    t.show('{}: {} {}||| {}'.format(preset, [(h, w) for h, w in zip(hist, where)], 'reset ' if wipe else '', prog))
    calc = t.env.fresh(preset)
    other = t.env.fresh(s.pick(PRESETS))
    n = 0
    for (x, flags, simp), w in zip(hist, where):
        c = calc if w == 'same' else other
        simplify(c, simp)
        r, o = outcome(c, x, flags)
        n += 2 if o[0] == 'error' else len(o[2])
    if wipe:
        if preset != 'Advanced':
            sut.run(calc, 'reset()')
        else:
            calc.vars = {}
    fresh = t.env.fresh(preset)
    simplify(calc, mode)
    simplify(fresh, mode)
    if n >= 2:
        t.nt()
    fl = s.pick([None, None, {'include_state': True}]) if wipe else None
    r1, o1 = outcome(calc, prog, fl)
    r2, o2 = outcome(fresh, prog, fl)
    check(message(o1) == message(o2), 'after {}, {} gives {}, on a new calculator {}', hist, prog, o1, o2)
    if isinstance(r1, Err):
        v1, v2 = view_err(r1.exc, calc, prog)[1:], view_err(r2.exc, fresh, prog)[1:]
    else:
        v1, v2 = view(r1, calc), view(r2, fresh)
    check(v1 == v2, 'after {}, {} gives {}, on a new calculator {}', hist, prog, v1, v2)
    if wipe:
        check(sut.snap_vars(calc) == sut.snap_vars(fresh), 'variables after {} and {}: {}, on a new calculator {}', hist, prog, sut.snap_vars(calc), sut.snap_vars(fresh))
    t.label('used ' + ('after reset' if wipe else 'without reset'))


def frozen(s, t):
    """Earlier responses after later calculations."""
    t.hang_ok = True
    calc = t.env.fresh()
    other = t.env.fresh(s.pick(PRESETS))
    g = script.Gen(s)
    pieces = []
    for _ in range(s.int(2, 6)):
        x, flags, simp = piece(s, g)
        if s.bool(1, 3):
            x += '\n' + s.pick(sorted(g.vars) or ['1'])
        if tame(x, True):
            pieces.append((x, flags, simp))
    t.show(repr(pieces))
    seen = []
    n = 0
    for x, flags, simp in pieces:
        c = calc if s.bool(9, 10) else other
        simplify(c, simp)
        r = sut.run(c, x, flags)
        if isinstance(r, Err):
            seen.append((x, r.exc, view_err(r.exc, c, x), c))
            n += 2
        else:
            seen.append((x, r, view(r, c), c))
            n += len(r.results)
        for x0, r0, v0, c0 in seen[:-1]:
            v1 = view_err(r0, c0, x0) if isinstance(r0, Exception) else view(r0, c0)
            check(v1 == v0, 'what {} returned was changed by {} (in {}): {} instead of {}', x0, x, pieces, v1, v0)
    if n >= 2:
        t.nt()
    t.label('frozen')


def interleaved(s, t):
    """Programs on two calculators in turn, and each alone."""
    pa, pb = s.pick(['Computing', 'Scientific']), s.pick(['Computing', 'Scientific', 'Advanced'])
    la = [st.text() for st in script.Gen(s, script.PRESETS[pa]).program(1, 4, failing=1)]
    lb = [st.text() for st in script.Gen(s, script.PRESETS[pb]).program(1, 4, failing=1)]
    ma, mb = s.bool(), s.bool()
    order = s.shuffle(['a'] * len(la) + ['b'] * len(lb))
    t.show('{} {} {} {} {} {} {}'.format(pa, la, ma, pb, lb, mb, order))
    t.nt()
    a, b = t.env.fresh(pa), t.env.fresh(pb)
    simplify(a, ma)
    simplify(b, mb)
    ia, ib = iter(la), iter(lb)
    got = {'a': [], 'b': []}
    for w in order:
        got[w].append(message(outcome(a if w == 'a' else b, next(ia if w == 'a' else ib))[1]))
    for w, preset, lines, m in (('a', pa, la, ma), ('b', pb, lb, mb)):
        c = t.env.fresh(preset)
        simplify(c, m)
        alone = [message(outcome(c, x)[1]) for x in lines]
        check(alone == got[w], '{} gives {}, in turn with {} on another calculator {}', lines, alone, lb if w == 'a' else la, got[w])
    t.label('interleaved')


HELD = [('n', ['5', '-3', '2.75', '1 / 3', '10%', '1E3', '7 as scientific']), ('h', ['0x1F', '0b101', '0o17', '0xFF.8', '36zHELLO']), ('b', ['true', 'false']),
        ('s', ["'text'", "'a,b,c'", "'12'", "''", "' x '", "'2020-02-28'", "'0x1F'"]), ('d', ["'2020-02-28T12:00:00+0200'", "'1999-12-31'"]),
        ('q', ['5 m', '3.5 km', '-2 hours', '2 m/s', '30 degrees', '20 Celsius', '7 kilobytes', '12 m^2']), ('l', ['[3, 1, 2]', '[1..4]', '[0x1F, 2, 5%]', '[1 / 3, 0.5, -7]', '[2]']),
        ('lq', ['[3 m, 1 km, 2 cm]', '[1 m..4 m]', '[5 s, 2 minutes]', '[90 degrees, 1 radian]']), ('ls', ["['b', 'c', 'a']", "['x']", "['1', 2, '0x10']"]),
        ('ll', ['[[3, 1], [2]]', "[[1 m, 2], ['a']]", '[1, [2, 3]]']), ('lb', ['[true, false, true]', '[false]']), ('f', ['{ PARAM1 + 1 }', '{ reverse(PARAM1) }', '{ n = PARAM1\n n }'])]
VALS = {v: k for v, k in HELD}
# function -> kinds of variables it takes
USES = [('reverse', 'l lq ls ll lb'), ('sort', 'l lq ls lb'), ('concat', 'l,lq ls,ll l,l'), ('filter', 'l,lb lq,lb'), ('element', 'l,1 lq,2 ll,1 ls,1'), ('count', 'l ll ls'), ('sum', 'l lq'),
        ('max', 'l lq'), ('min', 'l lq'), ('mean', 'l lq'), ('median', 'l lq'), ('mode', 'l lq ls'), ('stdev', 'l lq'), ('abs', 'n q l'), ('floor', 'n q lq'), ('ceil', 'n q lq'), ('round', 'n q l n,1'),
        ('format', 'q lq'), ('compact', 'q lq'), ('hex', 'n h l'), ('bin', 'n h'), ('dec', 'h n'), ('oct', 'h'), ('base', 'h,3 n,8'), ('scientific', 'n q'), ('exp', 'n'), ('log', 'n l'), ('sin', 'n q lq'),
        ('length', 's ls'), ('upper', 's ls'), ('lower', 's'), ('split', 's s,1'), ('join', "ls ls,s"), ('replace', 's,s,s'), ('find', 's,s'), ('substr', 's,1'), ('strip', 's,1'), ('regexget', "s,s"),
        ('dateadd', 'd,q'), ('datesubtract', 'd,q'), ('dateformat', 'd,s'), ('datedifference', 'd,d'), ('lcm', 'n,2'), ('gcd', '12,n')]
BIN = ['+', '-', '*', '/', '^', '%', '\\', '==', '!=', '<', '>=', 'and', 'or', '+$', '+%', '-%', '&', '|', '^^', '<<', 'to', 'per', 'as']


def held_use(s, names):
    """An expression reading variables and assigning none."""
    def arg(kind):
        if kind in VALS and s.bool(7, 8):
            return s.pick([n for n in names if names[n] == kind] or [s.pick(VALS[kind])])
        return kind if kind not in VALS else s.pick(VALS[kind])
    k = s.draw(9)
    if k < 5:
        f, kinds = s.pick(USES)
        return '{}({})'.format(f, ', '.join(arg(x) for x in s.pick(kinds.split()).split(',')))
    if k == 5:
        f, _ = s.pick(USES)
        return '{}({})'.format(f, ', '.join(arg(s.pick(sorted(VALS))) for _ in range(s.int(1, 3))))
    if k == 6:
        return '({}) {} ({})'.format(held_use(s, names), s.pick(BIN), arg(s.pick(sorted(VALS))))
    if k == 7:
        return '[{}, {}]'.format(arg(s.pick(sorted(VALS))), arg(s.pick(sorted(VALS))))
    l = arg(s.pick(sorted(VALS)))
    op = s.pick(BIN)
    r = s.pick(['m', 'feet', 'seconds', 'radians']) if op in ('to', 'per') else s.pick(['percentage', 'scientific', 'decimal', 'hexadecimal']) if op == 'as' else arg(s.pick(sorted(VALS)))
    return '{} {} {}'.format(l, op, r)


def reading(s, t):
    """Statements that assign no variable leave all of them as they were, and give the same again."""
    t.hang_ok = True
    calc = t.env.fresh()
    simplify(calc, s.bool(1, 4))
    names, defs = {}, []
    for i in range(s.int(1, 5)):
        kind = s.pick(sorted(VALS))
        names['v{}'.format(i)] = kind
        if i and s.bool(1, 5):
            # the very same value under another name
            j = 'v{}'.format(s.draw(i - 1))
            names['v{}'.format(i)] = names[j]
            defs.append('v{} = {}'.format(i, j))
        else:
            defs.append('v{} = {}'.format(i, s.pick(VALS[kind])))
    uses = [held_use(s, names) for _ in range(s.int(1, 4))]
    t.show('{} ; {}'.format(defs, uses))
    r = sut.run(calc, '\n'.join(defs))
    check(not isinstance(r, Err), '{} gave {}', defs, r)
    before = sut.snap_vars(calc)
    first = []
    for x in uses:
        if not tame(x, True):
            first.append(None)
            continue
        first.append(message(outcome(calc, x)[1]))
        if first[-1][0] == 'fine':
            t.nt()
        after = sut.snap_vars(calc)
        check(after == before, 'after {}, {} changed the variables from {} to {}', defs, uses, before, after)
    for x, o in zip(uses, first):
        if o is not None:
            o2 = message(outcome(calc, x)[1])
            check(o2 == o, 'after {}, of {}: {} gave {}, and again {}', defs, uses, x, o, o2)
    t.label('reading')


GROUPS = [('used', used, 5), ('frozen', frozen, 4), ('interleaved', interleaved, 2), ('reading', reading, 5)]
