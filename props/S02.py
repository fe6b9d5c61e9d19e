"""parse_only, stateless and include_state."""
from vlib import script, sut
from vlib.sut import check, Err
from vlib.pbt import Discard

RULE = ('random programs of 1 to 6 statements over all features (some failing) on calculators with a random history, run with every combination of '
        'the options; oracle: differential against the normal call and against one call per statement. Non-trivial: the program assigns, deletes or fails.')


def items(r):
    out = []

    def walk(its):
        for i in its:
            out.append((type(i).__name__, i.text))
            if hasattr(i, 'items'):
                walk(i.items)
    walk(r.items)
    return out


def state_of(st, calc):
    return {k: sut.snap(v[0], v[1], calc) for k, v in st.items()}


def start(s, t):
    """Two calculators' worth of the same history, as text."""
    g = script.Gen(s)
    g.assigning_bodies = False    # what they assign is not kept when stateless
    return g, [st.text() for st in g.program(0, 5)]


def build(t, hist):
    c = t.env.fresh()
    for h in hist:
        sut.run(c, h)
    return c


def program(s, g):
    stmts = g.program(1, 6, failing=2)
    if s.bool(1, 4):
        stmts.append(s.pick([script.Stmt(['reset(', ')'], '*', (), None, 'delete'), script.Stmt(['a', '=', '7'], 'a', (), 'num', 'set'),
                             script.Stmt(['a', '=', 'b', '=', '7'], None, ('b',), None, 'fail'), script.Stmt(['(', 'a', '=', '7', ')', '+', '1'], 'a', (), 'num', 'set'),
                             script.Stmt(['delete(', 'nosuch', ')'], None, (), None, 'fail')]))
    return stmts


def options(s, t):
    g, hist = start(s, t)
    stmts = program(s, g)
    lines = [st.text() for st in stmts]
    prog = '\n'.join(lines)
    t.show('{} ||| {}'.format(' | '.join(hist), ' | '.join(lines)))
    normal = build(t, hist)
    initial = sut.snap_vars(normal)
    rn = sut.run(normal, prog)
    failed = isinstance(rn, Err)
    respn = rn.exc.response if failed else rn
    if any(st.assigns or st.kind == 'fail' for st in stmts):
        t.nt()
    final = sut.snap_vars(normal)
    which = s.draw(4)
    base = build(t, hist)

    if which in (0, 4):
        flags = {'parse_only': True}
        if which == 4:
            flags[s.pick(['stateless', 'include_state'])] = True
        rp = sut.run(base, prog, flags)
        check(not isinstance(rp, Err), 'only parsing {} was refused: {}', prog, rp)
        check(sut.snap_vars(base) == initial, 'only parsing {} changed the variables', prog)
        check(not any(r.has_result() for r in rp.results), 'only parsing {} returned results', prog)
        check(len(rp.results) == len(lines), 'only parsing {}: {} results', prog, len(rp.results))
        if flags.get('include_state'):
            for r in rp.results:
                check(state_of(r.state, base) == initial, 'state while parsing {}', prog)
        ip, i_n = [items(r) for r in rp.results], [items(r) for r in respn.results]
        check(ip[:len(i_n)] == i_n, 'items when only parsing {}: {} instead of {}', prog, ip, i_n)
        check(''.join(r.expression for r in rp.results) == prog, 'expressions of {}', prog)
        t.label('parse_only')
    if which == 1:
        flags = {'stateless': True}
        if s.bool():
            flags['include_state'] = True
        # statements up to the first one that reads what the program assigned
        assigned = set()
        k = 0
        for st in stmts:
            if (st.reads & assigned) or ('*' in assigned and st.reads) or (assigned and st.kind in ('empty', 'delete')):
                break
            if st.assigns:
                assigned.add(st.assigns)
            k += 1
        before = sut.snap_vars(base)
        rs = sut.run(base, prog, flags)
        check(sut.snap_vars(base) == before, 'the stateless option changed the variables with {}: {} instead of {}', prog, sut.snap_vars(base), before)
        fs = isinstance(rs, Err)
        resps = rs.exc.response if fs else rs
        gn = [sut.snap(r.value, r.unit, normal) if r.has_result() else None for r in respn.results][:k]
        gs = [sut.snap(r.value, r.unit, base) if r.has_result() else None for r in resps.results][:k]
        check(gn == gs, 'stateless results of {} (first {}): {} instead of {}', prog, k, gs, gn)
        if flags.get('include_state'):
            for r in resps.results:
                check(state_of(r.state, base) == initial, 'stateless state of {}', prog)
        if k == len(stmts):
            check(fs == failed, 'stateless {}: {}, otherwise {}', prog, rs, rn)
        t.label('stateless')
    if which in (2, 3):
        rs = sut.run(base, prog, {'include_state': True})
        fs = isinstance(rs, Err)
        resps = rs.exc.response if fs else rs
        check(fs == failed, 'with state {}: {}, otherwise {}', prog, rs, rn)
        if which == 3:
            # later calculations must not change what was returned
            for line in s.sample(['a = 5', 'reset()', 'b ||= 3', 'a += 1', 'delete(a)'] + lines, 3):
                sut.run(base, line)
        gn = [sut.snap(r.value, r.unit, normal) if r.has_result() else None for r in respn.results]
        gs = [sut.snap(r.value, r.unit, base) if r.has_result() else None for r in resps.results]
        check(gn == gs, 'results of {} with state: {} instead of {}', prog, gs, gn)
        step = build(t, hist)
        for line, r in zip(lines, resps.results):
            check(r.has_state(), 'no state for {}', line)
            sut.run(step, line)
            want, got = sut.snap_vars(step), state_of(r.state, base)
            check(got == want, 'state of {} in {}: {}, want {}', line, prog, got, want)
        if which == 2:
            check(sut.snap_vars(base) == final, 'variables after {} with the state option', prog)
            check(not any(r.has_state() for r in respn.results), 'state without the option')
        t.label('include_state')


GROUPS = [('options', options, 1)]
