"""Regular expressions, split and join are consistent."""
from fractions import Fraction

from vlib import prog, sut
from vlib.pbt import Discard
from vlib.sut import check, Err, Number, frac

from . import T01

RULE = ('patterns of a grammar (literals, ., classes, \\d \\w \\s, groups, alternatives, greedy and lazy repeats, anchors, \\b, up to 3 capturing groups) over texts of 0 to 30 '
        'characters of a small alphabet, vs an own backtracking matcher; arbitrary texts and separators for split and join. Non-trivial: at least one match, or one separator found.')

ALPHA = ['a', 'b', 'c', 'A', '0', '1', ' ', '.', '-', '\n', 'é', '\\', "'", '(', '*', '_', '^', '$', '日', ',']
WORD = set('abcA01é_日')
DIGIT = set('01')
SPACE = set(' \n')
SPECIAL = set('.^$*+?{}[]\\|()')


# -- patterns: (kind, ...) -----------------------------------------------------

def atom(s, depth, lists):
    k = s.weighted([(8, 'lit'), (2, 'dot'), (3, 'class'), (2, 'esc'), (1 + (depth > 1), 'group') if depth > 0 else (1, 'lit')])
    if k == 'lit':
        return ('lit', s.pick(ALPHA))
    if k == 'dot':
        return ('dot',)
    if k == 'esc':
        return ('esc', s.pick('dwsDWS'))
    if k == 'class':
        items = []
        for _ in range(s.int(1, 3)):
            if s.bool(1, 4):
                items.append(('range',) + s.pick([('a', 'b'), ('a', 'c'), ('A', 'Z'), ('0', '9'), ('0', '0')]))
            elif s.bool(1, 6):
                items.append(('esc', s.pick('dws')))
            else:
                items.append(('lit', s.pick(ALPHA)))
        return ('class', s.bool(1, 4), items)
    return ('group', alternatives(s, depth - 1, lists))


def piece(s, depth, lists):
    a = atom(s, depth, lists)
    if s.bool(1, 3) and not nullable(a):
        lo, hi = s.pick([(0, None), (0, None), (1, None), (1, None), (0, 1), (0, 1), (2, 2), (1, 2), (2, None), (0, 3)])
        return ('rep', a, lo, hi, s.bool(2, 3))
    return a


def sequence(s, depth, lists, hi=4):
    out = [piece(s, depth, lists) for _ in range(s.size(1, hi))]
    if s.bool(1, 16):
        out.insert(s.int(0, len(out)), ('anchor', s.pick(['^', '$', '\\b', '\\B'])))
    return ('seq', out)


def alternatives(s, depth, lists):
    n = s.weighted([(4, 1), (2, 2), (1, 3)])
    return ('alt', [sequence(s, depth, lists, 3) for _ in range(n)])


def pattern(s):
    """A pattern: a top level sequence with up to three capturing groups in it, or alternatives without."""
    groups = s.weighted([(5, 0), (2, 1), (1, 2), (1, 3)])
    if groups == 0:
        n = s.weighted([(4, 1), (2, 2)])
        return ('alt', [sequence(s, 2, None) for _ in range(n)]), 0
    parts = sequence(s, 1, None, 2)[1]
    for g in range(groups):
        at = s.int(0, len(parts))
        parts.insert(at, ('cap', g, alternatives(s, 1, None)))
    order = 0
    out = []
    for p in parts:
        if p[0] == 'cap':
            p = ('cap', order, p[2])
            order += 1
        out.append(p)
    return ('seq', out), groups


def nullable(p):
    k = p[0]
    if k in ('lit', 'dot', 'esc', 'class'):
        return False
    if k == 'anchor':
        return True
    if k == 'seq':
        return all(nullable(x) for x in p[1])
    if k == 'alt':
        return any(nullable(x) for x in p[1])
    if k in ('group',):
        return nullable(p[1])
    if k == 'cap':
        return nullable(p[2])
    return p[2] == 0 or nullable(p[1])


def show(p):
    k = p[0]
    if k == 'lit':
        return '\\' + p[1] if p[1] in SPECIAL else p[1]
    if k == 'dot':
        return '.'
    if k == 'esc':
        return '\\' + p[1]
    if k == 'class':
        out = ''
        for it in p[2]:
            if it[0] == 'lit':
                out += '\\' + it[1] if it[1] in '^-]\\[' else it[1]
            elif it[0] == 'esc':
                out += '\\' + it[1]
            else:
                out += it[1] + '-' + it[2]
        return '[' + ('^' if p[1] else '') + out + ']'
    if k == 'anchor':
        return p[1]
    if k == 'seq':
        return ''.join(show(x) for x in p[1])
    if k == 'alt':
        return '|'.join(show(x) for x in p[1])
    if k == 'group':
        return '(?:' + show(p[1]) + ')'
    if k == 'cap':
        return '(' + show(p[2]) + ')'
    _, a, lo, hi, greedy = p
    q = {(0, None): '*', (1, None): '+', (0, 1): '?'}.get((lo, hi)) or ('{%d}' % lo if lo == hi else '{%d,%s}' % (lo, '' if hi is None else hi))
    return show(a) + q + ('' if greedy else '?')


# -- the matcher: all ways to match, most preferred first ----------------------

class Steps:
    def __init__(self, n):
        self.n = n

    def tick(self):
        self.n -= 1
        if self.n < 0:
            raise Discard('too many steps')


def inside(kind, c):
    if kind in 'dD':
        r = c in DIGIT
    elif kind in 'wW':
        r = c in WORD
    else:
        r = c in SPACE
    return r != kind.isupper()


def one(p, c):
    k = p[0]
    if k == 'lit':
        return c == p[1]
    if k == 'dot':
        return c != '\n'
    if k == 'esc':
        return inside(p[1], c)
    hit = False
    for it in p[2]:
        if it[0] == 'lit':
            hit = hit or c == it[1]
        elif it[0] == 'esc':
            hit = hit or inside(it[1], c)
        else:
            hit = hit or it[1] <= c <= it[2]
    return hit != p[1]


def ways(p, x, i, caps, st):
    st.tick()
    k = p[0]
    if k in ('lit', 'dot', 'esc', 'class'):
        if i < len(x) and one(p, x[i]):
            yield i + 1, caps
    elif k == 'anchor':
        if p[1] == '^':
            ok = i == 0
        elif p[1] == '$':
            ok = i == len(x) or (i == len(x) - 1 and x[i] == '\n')
        else:
            before = i > 0 and x[i - 1] in WORD
            after = i < len(x) and x[i] in WORD
            ok = (before != after) == (p[1] == '\\b')
            if len(x) == 0:
                ok = False  # the empty text has no boundary and no inside
        if ok:
            yield i, caps
    elif k == 'seq':
        yield from chain(p[1], 0, x, i, caps, st)
    elif k == 'alt':
        for q in p[1]:
            yield from ways(q, x, i, caps, st)
    elif k == 'group':
        yield from ways(p[1], x, i, caps, st)
    elif k == 'cap':
        for j, c in ways(p[2], x, i, caps, st):
            c = dict(c)
            c[p[1]] = (i, j)
            yield j, c
    else:
        yield from repeat(p, 0, x, i, caps, st)


def chain(ps, n, x, i, caps, st):
    if n == len(ps):
        yield i, caps
        return
    for j, c in ways(ps[n], x, i, caps, st):
        yield from chain(ps, n + 1, x, j, c, st)


def repeat(p, count, x, i, caps, st):
    st.tick()
    _, a, lo, hi, greedy = p
    more = hi is None or count < hi
    if not greedy and count >= lo:
        yield i, caps
    if more:
        for j, c in ways(a, x, i, caps, st):
            yield from repeat(p, count + 1, x, j, c, st)
    if greedy and count >= lo:
        yield i, caps


def matches(p, x, limit=60000):
    """All leftmost non-overlapping matches: (start, end, groups)."""
    st = Steps(limit)
    out = []
    pos, last_empty = 0, False
    while pos <= len(x):
        found = None
        for start in range(pos, len(x) + 1):
            for end, caps in ways(p, x, start, {}, st):
                if last_empty and start == pos and end == start:
                    continue
                found = (start, end, caps)
                break
            if found:
                break
        if not found:
            break
        out.append(found)
        pos, last_empty = found[1], found[0] == found[1]
    return out


def subject(s, p):
    """A text, often containing matches."""
    out = ''
    for _ in range(s.size(0, 5)):
        if s.bool(1, 2):
            out += ''.join(s.pick(ALPHA) for _ in range(s.size(0, 4)))
        else:
            out += sample(s, p)
        if len(out) > 40:
            break
    out = out[:30]
    if s.bool(1, 24):
        # many matches
        out = out[:s.int(1, 6)] * s.int(4, 70)
    return out


def sample(s, p):
    k = p[0]
    if k in ('lit',):
        return p[1]
    if k in ('dot', 'esc', 'class'):
        ok = [c for c in ALPHA if one(p, c)]
        return s.pick(ok) if ok else ''
    if k == 'anchor':
        return ''
    if k == 'seq':
        return ''.join(sample(s, x) for x in p[1])
    if k == 'alt':
        return sample(s, s.pick(p[1]))
    if k == 'group':
        return sample(s, p[1])
    if k == 'cap':
        return sample(s, p[2])
    _, a, lo, hi, _g = p
    return ''.join(sample(s, a) for _ in range(s.int(lo, hi if hi is not None else lo + 2)))


class Args:
    """Operands written as literals or held in variables."""

    def __init__(self, s, t):
        self.s = s
        self.setup = ''
        self.n = 0
        self.calc = t.env.calc()
        self.t = t

    def __call__(self, x, plain=False):
        lit = prog.quote(x) if plain else T01.literal(self.s, x)
        if self.s.bool(1, 4):
            self.n += 1
            self.setup += 'arg{} = {}\n'.format(self.n, lit)
            return 'arg{}'.format(self.n)
        return lit

    def last(self, expr):
        full = self.setup + expr
        self.t.show(full)
        self.calc.vars = {}
        return sut.last(self.calc, full), full


def listed(got, full):
    check(not isinstance(got, Err), '{} fails: {}', full, got)
    v, u = got
    check(isinstance(v, list) and u is None, '{} is {}', full, v)
    out = []
    for e in v:
        check(e.unit is None, '{} has an element with the unit {}', full, e.unit)
        out.append([g.value for g in e.value] if isinstance(e.value, list) else e.value)
    return out


def texts(p, groups, x, found):
    out = []
    for a, b, caps in found:
        if groups == 0:
            out.append(x[a:b])
        elif groups == 1:
            out.append(x[caps[0][0]:caps[0][1]])
        else:
            out.append([x[caps[g][0]:caps[g][1]] for g in range(groups)])
    return out


def opmatch(s, t):
    """=~ and !~ tell whether there is a match."""
    p, groups = pattern(s)
    x = subject(s, p)
    found = matches(p, x)
    if found:
        t.nt()
    arg = Args(s, t)
    neg = s.bool()
    a, b = arg(x), arg(show(p))
    got, full = arg.last('{} {} {}'.format(a, '!~' if neg else '=~', b))
    T01.expect(got, bool(found) != neg, full)


def setup(s, t):
    p, groups = pattern(s)
    x = subject(s, p)
    found = matches(p, x)
    if found:
        t.nt()
    t.label('matches:%d' % min(len(found), 3))
    arg = Args(s, t)
    return p, groups, x, found, arg, arg(x), arg(show(p))


def get(s, t):
    p, groups, x, found, arg, a, b = setup(s, t)
    want = texts(p, groups, x, found)
    if s.bool():
        got, full = arg.last('regexget({}, {})'.format(a, b))
        have = listed(got, full)
        check(have == want, '{} is {} instead of {}', full, have, want)
    else:
        n = s.int(-1, len(found) + 2)
        got, full = arg.last('regexget({}, {}, {})'.format(a, b, n))
        if 1 <= n <= len(found):
            w = want[n - 1]
            if isinstance(w, list):
                have = listed(got, full)
                check(have == w, '{} is {} instead of {}', full, have, w)
            else:
                T01.expect(got, w, full)
        else:
            check(isinstance(got, Err), '{} is {} although there are {} matches', full, got, len(found))


def count(s, t):
    p, groups, x, found, arg, a, b = setup(s, t)
    got, full = arg.last('regexcount({}, {})'.format(a, b))
    T01.expect(got, len(found), full)


def split(s, t):
    p, groups, x, found, arg, a, b = setup(s, t)
    want, pos = [], 0
    for i, j, caps in found:
        want.append(x[pos:i])
        for g in range(groups):
            want.append(x[caps[g][0]:caps[g][1]])
        pos = j
    want.append(x[pos:])
    got, full = arg.last('regexsplit({}, {})'.format(a, b))
    have = listed(got, full)
    check(have == want, '{} is {} instead of {}', full, have, want)


def sub(s, t):
    p, groups, x, found, arg, a, b = setup(s, t)
    parts = []
    for _ in range(s.size(0, 3)):
        k = s.draw(5)
        if k == 0:
            parts.append(('whole',))
        elif k == 1 and groups:
            parts.append(('group', s.int(0, groups - 1)))
        else:
            parts.append(('text', ''.join(s.pick([c for c in ALPHA if c != '\\']) for _ in range(s.int(1, 3)))))
    repl = ''
    for q in parts:
        repl += {'whole': lambda: '\\g<0>', 'group': lambda: '\\g<{}>'.format(q[1] + 1), 'text': lambda: q[1]}[q[0]]()
    only = s.bool(1, 4)  # the first occurrence
    out, pos = '', 0
    for i, j, caps in (found[:1] if only else found):
        out += x[pos:i]
        for q in parts:
            out += x[i:j] if q[0] == 'whole' else x[caps[q[1]][0]:caps[q[1]][1]] if q[0] == 'group' else q[1]
        pos = j
    out += x[pos:]
    got, full = arg.last('regexsub({}, {}, {}{})'.format(a, b, arg(repl), ', 1' if only else ''))
    T01.expect(got, out, full)


def laws(s, t):
    """The functions agree with each other, evaluated by the calculator itself."""
    p, groups = pattern(s)
    if groups:
        raise Discard()
    x = subject(s, p)
    calc = t.env.calc()
    calc.vars = {}
    rep = ''.join(s.pick('abXY ') for _ in range(s.size(0, 3)))
    setup = 'x = {}\np = {}\nr = {}\n'.format(T01.literal(s, x), T01.literal(s, show(p)), prog.quote(rep))
    t.show(setup)
    r = sut.run(calc, setup)
    check(not isinstance(r, Err), '{} fails: {}', setup, r)
    for law in ('regexcount(x, p) == count(regexget(x, p))', 'regexcount(x, p) > 0 == (x =~ p)', 'not (x =~ p) == (x !~ p)', 'count(regexsplit(x, p)) == regexcount(x, p) + 1',
                'join(regexsplit(x, p), r) ==$ regexsub(x, p, r)', 'length(join(regexget(x, p))) + length(join(regexsplit(x, p))) == length(x)',
                "regexcount(x, p) > 0 then (regexget(x, p, 1) ==$ element(regexget(x, p), 1)) else true"):
        got = sut.last(calc, '(' + law.replace(' == ', ') == (') + ')' if ' == ' in law and 'then' not in law else law)
        check(not isinstance(got, Err), '{}{} fails: {}', setup, law, got)
        check(got[0] is True, '{}{} does not hold', setup, law)
    if sut.last(calc, 'regexcount(x, p) > 0')[0] is True:
        t.nt()


def arrays(s, t):
    """Given arrays of texts or patterns the functions answer for each."""
    p, groups = pattern(s)
    xs = [subject(s, p) for _ in range(s.weighted([(24, s.int(1, 4)), (1, s.int(5, 40))]))]
    found = [matches(p, x) for x in xs]
    if any(found):
        t.nt()
    arg = Args(s, t)
    a = '[' + ', '.join(arg(x) for x in xs) + ']'
    b = arg(show(p))
    k = s.draw(2)
    if k == 0:
        got, full = arg.last('regexcount({}, {})'.format(a, b))
        have = [frac(e) for e in listed(got, full)]
        want = [len(f) for f in found]
    elif k == 1:
        got, full = arg.last('{} =~ {}'.format(a, b))
        have = listed(got, full)
        want = [bool(f) for f in found]
    else:
        got, full = arg.last("regexsub({}, {}, 'X')".format(a, b))
        have = listed(got, full)
        want = []
        for x, f in zip(xs, found):
            out, pos = '', 0
            for i, j, _c in f:
                out += x[pos:i] + 'X'
                pos = j
            want.append(out + x[pos:])
    check(have == want, '{} is {} instead of {}', full, have, want)


BAD = ['(', ')', '[', '*a', 'a**', 'a{2,1}', '(?P<', '\\', 'a(b', '[b-a]', '+', '?', '(?<n)', '\\g', '(?Px)']


def bad(s, t):
    """What is no pattern is refused."""
    pat = s.pick(BAD)
    arg = Args(s, t)
    x = arg(''.join(s.pick(ALPHA) for _ in range(s.size(0, 6))))
    q = arg(pat)
    got, full = arg.last(s.pick(['{} =~ {}', '{} !~ {}', 'regexget({}, {})', 'regexget({}, {}, 1)', 'regexcount({}, {})', 'regexsplit({}, {})', "regexsub({}, {}, 'a')"]).format(x, q))
    t.nt()
    check(isinstance(got, Err), '{} is {} although the pattern is wrong', full, got)


# -- split and join -------------------------------------------------------------

def pieces(x, sep):
    """The parts of x between the occurrences of sep, found from the left."""
    out, cur, i = [], '', 0
    while i < len(x):
        if x[i:i + len(sep)] == sep:
            out.append(cur)
            cur = ''
            i += len(sep)
        else:
            cur += x[i]
            i += 1
    return out + [cur]


def separator(s):
    return s.pick([',', ', ', ' ', 'a', 'ab', 'aa', 'aba', '\n', "'", '\\', '\\\\', '.', '|', '[', '(', '*', '日', '--', '##', '1', '0'] + T01.PIECES)


def splitting(s, t):
    sep = separator(s)
    x = ''.join(s.pick([sep, sep, s.pick(T01.PIECES), s.pick('aAbB1 '), sep[:1]]) for _ in range(s.size(0, 8))) * s.weighted([(24, 1), (1, s.int(2, 80))])
    want = pieces(x, sep)
    if len(want) > 1:
        t.nt()
    arg = Args(s, t)
    a, b = arg(x), arg(sep)
    k = s.draw(4)
    if k == 0:
        got, full = arg.last('join(split({}, {}), {})'.format(a, b, b))
        T01.expect(got, x, full)
    elif k == 1:
        other = T01.text(s, 3)
        got, full = arg.last('join(split({}, {}), {})'.format(a, b, arg(other)))
        T01.expect(got, other.join(want), full)
    elif k == 2:
        got, full = arg.last('join(split({}, {}))'.format(a, b))
        T01.expect(got, ''.join(want), full)
    else:
        got, full = arg.last('split({}, {})'.format(a, b))
        have = listed(got, full)
        check(have == want, '{} is {} instead of {}', full, have, want)


def joining(s, t):
    """join lists the displayed texts with the separator between them, and split takes them apart again."""
    vals = []
    arg = Args(s, t)
    for _ in range(s.weighted([(24, s.int(1, 6)), (1, s.int(7, 60))])):
        vals.append(T01.operand(s, t, 4))
    sep = separator(s)
    b = arg(sep)
    if len(vals) > 1:
        t.nt()
    a = '[' + ', '.join(v[0] for v in vals) + ']'
    if s.bool(1, 3):
        arg.setup += 'items = {}\n'.format(a)
        a = 'items'
    whole = sep.join(v[1] for v in vals)
    k = s.draw(2)
    if k == 0:
        got, full = arg.last('join({}, {})'.format(a, b))
        T01.expect(got, whole, full)
    elif k == 1:
        got, full = arg.last('split(join({}, {}), {})'.format(a, b, b))
        have = listed(got, full)
        check(have == pieces(whole, sep), '{} is {} instead of {}', full, have, pieces(whole, sep))
        if all(sep not in v[1] for v in vals) and len(set(sep)) == len(sep):
            check(have == [v[1] for v in vals] or any(c in v[1] for v in vals for c in sep), '{} is {}', full, have)
    else:
        got, full = arg.last('join({})'.format(a))
        T01.expect(got, ''.join(v[1] for v in vals), full)


def numbers(s, t):
    """Numbers are taken as the text they are displayed as."""
    a, x = T01.operand(s, t, 6)
    b, y = T01.operand(s, t, 2)
    if not y:
        raise Discard()
    arg = Args(s, t)
    got, full = arg.last('split({}, {})'.format(a, b))
    have = listed(got, full)
    want = pieces(x, y)
    if len(want) > 1:
        t.nt()
    check(have == want, '{} is {} instead of {}', full, have, want)


GROUPS = [('match', opmatch, 2), ('get', get, 3), ('count', count, 2), ('split', split, 2), ('sub', sub, 3), ('laws', laws, 1), ('arrays', arrays, 1), ('bad', bad, 1), ('splitting', splitting, 2),
          ('joining', joining, 2), ('numbers', numbers, 1)]
