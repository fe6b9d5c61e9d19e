"""Layout, comments, redundant brackets, and how programs are split into calls."""
from vlib import gen, script, sut
from vlib.sut import check, Err

RULE = ('random programs of 1 to 7 statements over all features (one in ten statements failing) printed with one space between all parts, and again with another layout '
        '(spaces, tabs, comments, blank lines, line breaks inside brackets and after operators), with redundant brackets, or sent in several calls; oracle: same results '
        'and variables. Non-trivial: the program has at least two operators or functions.')

OPS = {'+', '-', '*', '/', '%', '\\', '^', '+=', '-=', '*=', '=', '||=', 'and', 'or', 'xor', 'not', 'then', 'else', '==', '!=', '<', '>', '<=', '>=', '&', '|', '^^', '<<', '>>',
       '+$', '==$', '!=$', '<$', '>=~', '==~', '+%', '-%', 'to'}
COMMENTS = ['#', '# note', "# it's (", '# }])', '# 1 + 2', "#'", '#\\', '##', '# a = 5 \t', '# é', '#,']


def plain_snap(v):
    """The text of an inline function is its source, with its layout."""
    return 'function' if v[0][0] == 'other' else v


def outcome(calc, texts):
    """Results, failure and variables of several calls."""
    got = []
    failed = None
    for x in texts:
        r = sut.run(calc, x)
        e = isinstance(r, Err)
        resp = r.exc.response if e else r
        got += [plain_snap(sut.snap(q.value, q.unit, calc)) for q in resp.results if q.has_result()]
        if e:
            failed = r.message
            break
    return got, failed is not None, {k: plain_snap(v) for k, v in sut.snap_vars(calc).items()}, failed


def program(s):
    g = script.Gen(s)
    return g.program(1, 7, failing=2)


def nontrivial(t, stmts):
    if sum(1 for st in stmts for k in st.toks if k in OPS or k.endswith('(')) >= 2:
        t.nt()


def layout_of(s, st, starts=None):
    """The statement with random white-space; `starts` gets the position of each token."""
    out = ''
    prev = None
    stack = []
    for k in st.toks:
        if prev is not None:
            out += space(s, prev, k, stack)
        if starts is not None:
            starts.append(len(out))
        for c in k if not k.startswith("'") else '':
            if c in '([{':
                stack.append(c)
            elif c in ')]}' and stack:
                stack.pop()
        out += k
        prev = k
    return out


def space(s, prev, k, stack):
    need = gen._need_space(prev, k)
    free = stack and stack[-1] != '{' or prev == '{' or k == '}'
    after = prev in OPS and k != 'else'
    if (free or after) and s.bool(1, 8):
        out = ''
        for _ in range(s.int(1, 2)):
            out += s.pick(['', ' ', '\t'])
            if s.bool(1, 3):
                out += s.pick(COMMENTS)
            out += '\n'
        return out + s.pick(['', ' ', '    ', '\t'])
    if need:
        return s.weighted([(4, ' '), (2, '  '), (1, '\t'), (1, ' \t ')])
    return s.weighted([(5, ''), (5, ' '), (1, '  '), (1, '\t')])


def blank(s):
    return s.pick(['', ' ', '\t', '  ', s.pick(COMMENTS), ' ' + s.pick(COMMENTS)])


def layout(s, t):
    stmts = program(s)
    plain = '\n'.join(' '.join(st.toks) for st in stmts)
    lines = []
    for st in stmts:
        while s.bool(1, 6):
            lines.append(blank(s))
        x = s.pick(['', '', ' ', '\t']) + layout_of(s, st)
        if s.bool(1, 4):
            x += s.pick(['', ' ', '  \t']) + s.pick(COMMENTS)
        elif s.bool(1, 5):
            x += s.pick([' ', '\t', '   ', '\r'])
        lines.append(x)
    while s.bool(1, 5):
        lines.append(blank(s))
    other = '\n'.join(lines)
    t.show('{} ||| {}'.format(plain, other))
    nontrivial(t, stmts)
    a = outcome(t.env.fresh(), [plain])
    b = outcome(t.env.fresh(), [other])
    check(a[:3] == b[:3], '{} gives {}, with another layout {} gives {}', plain, a, other, b)
    t.label('failing' if a[1] else 'fine')
    if '\n' in ''.join(lines):
        t.label('line break inside a statement')


def atom(k):
    return k in ('true', 'false', 'pi', 'e', 'PARAM1') or k[0].isdigit() or k[0] == "'" or (k[0] == '-' and k[1:2].isdigit())


def wrap(s, toks):
    """Tokens with redundant brackets around values, arguments and the whole."""
    out = []
    i = 0
    start = 0
    if len(toks) > 1 and toks[1] in ('=', '||=', '+=', '-=', '*='):
        start = 2
        out = list(toks[:2])
    elif len(toks) > 1 and toks[1] in ('++', '--') or toks[0] == 'delete(':
        return list(toks)
    body = toks[start:]
    # spans that may be wrapped: single values; whole bracketed groups and function calls
    ends = {}
    stack = []
    for i, k in enumerate(body):
        if k[-1] in '([{' and k[0] != "'":
            stack.append(i)
        elif k[0] in ')]}':
            j = stack.pop()
            ends[j] = i
    close = {}
    for i, k in enumerate(body):
        if atom(k) and s.bool(1, 6):
            n = s.int(1, 2)
            out += ['('] * n + [k] + [')'] * n
            continue
        if i in ends and s.bool(1, 6):
            out.append('(')
            close[ends[i]] = close.get(ends[i], 0) + 1
        out.append(k)
        out += [')'] * close.get(i, 0)
    if s.bool(1, 3):
        n = s.int(1, 3)
        out = out[:start] + ['('] * n + out[start:] + [')'] * n
    return out


def brackets(s, t):
    stmts = program(s)
    plain = '\n'.join(gen.join(st.toks) for st in stmts)
    other = '\n'.join(gen.joinmin(wrap(s, st.toks)) if s.bool() else gen.join(wrap(s, st.toks)) for st in stmts)
    t.show('{} ||| {}'.format(plain, other))
    nontrivial(t, stmts)
    a = outcome(t.env.fresh(), [plain])
    b = outcome(t.env.fresh(), [other])
    check(a[:3] == b[:3], '{} gives {}, with more brackets {} gives {}', plain, a, other, b)
    t.label('failing' if a[1] else 'fine')


def split(s, t):
    stmts = program(s) + program(s)
    lines = [st.text() for st in stmts]
    chunks = [[lines[0]]]
    for l in lines[1:]:
        if s.bool(1, 2):
            chunks.append([])
        chunks[-1].append(l)
    plain = '\n'.join(lines)
    calls = ['\n'.join(c) for c in chunks]
    if s.bool(1, 4):
        calls = [x + '\n' for x in calls]
    t.show('{} ||| {}'.format(plain, calls))
    nontrivial(t, stmts)
    a = outcome(t.env.fresh(), [plain])
    b = outcome(t.env.fresh(), calls)
    check(a[:3] == b[:3], '{} gives {}, in calls {} gives {}', plain, a, calls, b)
    c = outcome(t.env.fresh(), lines)
    check(a[:3] == c[:3], '{} gives {}, line by line {}', plain, a, c)
    t.label('{} calls'.format(min(len(calls), 5)))


GROUPS = [('layout', layout, 5), ('brackets', brackets, 3), ('split', split, 2)]
