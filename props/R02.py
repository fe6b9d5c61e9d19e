"""Items and highlighting reproduce the source."""
import contextlib
import io

from modularcalculator.services.syntaxhighlighter import SyntaxHighlighter
from modularcalculator.objects.items import RecursiveOperandItem

from vlib import fuzz, script, sut
from vlib.fuzz import tame
from vlib.sut import check, Err
from props import S03

RULE = ('random programs of 1 to 6 statements over all features with random layout, two thirds of them mutated, executed or only parsed, with random variables; oracle: the '
        'items (at every depth) and the highlighted segments concatenate to the source, those of an error to the source before the reported position. '
        'Non-trivial: more than 5 items, or a nested item.')

HL = SyntaxHighlighter()


def walk(items, depth=0):
    """Checks nested items; returns (number of items, depth)."""
    n, deep = 0, depth
    for it in items:
        n += 1
        if isinstance(it, RecursiveOperandItem):
            inner = ''.join(x.text for x in it.items)
            check(inner == it.text, 'the items of {} concatenate to {}', it.text, inner)
            m, d = walk(it.items, depth + 1)
            n, deep = n + m, max(deep, d)
    return n, deep


def highlight(statements):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        hl = HL.highlight_statements(statements)
    return hl, out.getvalue()


def flat(hl):
    return ''.join(seg for st in hl for _, seg in st)


def source(s):
    g = script.Gen(s)
    stmts = g.program(1, 6, failing=1)
    lines = []
    for st in stmts:
        while s.bool(1, 8):
            lines.append(S03.blank(s))
        x = s.pick(['', '', ' ']) + (S03.layout_of(s, st) if s.bool() else st.text())
        if s.bool(1, 5):
            x += s.pick(['', ' ']) + s.pick(S03.COMMENTS)
        lines.append(x)
    return '\n'.join(lines) + s.pick(['', '', '\n', ' ', '\n\n'])


def ok_response(resp, text, whole):
    """Returns the text of the results."""
    total = 0
    deep = 0
    exprs = []
    for r in resp.results:
        n, d = walk(r.items)
        total += n
        deep = max(deep, d)
        joined = ''.join(i.text for i in r.items)
        check(joined == r.expression, 'items {}, expression {}, in {}', joined, r.expression, text)
        exprs.append(r.expression)
    joined = ''.join(exprs)
    if whole:
        check(joined == text, 'the results of {} concatenate to {}', text, joined)
    else:
        check(text.startswith(joined), 'the results of {} concatenate to {}', text, joined)
    hl, out = highlight([r.items for r in resp.results])
    check(out == '', 'highlighting {} printed {}', text, out)
    check(len(hl) == len(resp.results), '{}: {} highlighted statements for {} results', text, len(hl), len(resp.results))
    for st, r in zip(hl, resp.results):
        got = ''.join(seg for _, seg in st)
        check(got == r.expression, 'highlighting {} gives {}', r.expression, got)
        check(all(kind != 'default' for kind, _ in st), 'a part of {} is not highlighted: {}', r.expression, st)
    return total, deep


def reconstruct(s, t):
    t.hang_ok = True
    text = source(s)
    mutated = s.bool(2, 3)
    if mutated:
        text = fuzz.mutate(s, text, 1, 3)
    if not tame(text):
        return
    calc = t.env.fresh() if s.bool(1, 10) else t.env.calc()
    calc.vars = {}
    parse_only = s.bool(1, 3)
    t.show(('parse only: ' if parse_only else '') + text)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = sut.run(calc, text, {'parse_only': True} if parse_only else None)
        pos = None
        if isinstance(r, Err):
            pos = r.exc.find_pos(text)
    check(out.getvalue() == '', 'calculating {} printed {}', text, out.getvalue())
    if not isinstance(r, Err):
        n, deep = ok_response(r, text, True)
        t.label('fine')
    else:
        e = r.exc
        n, deep = ok_response(e.response, text, False)
        for items in e.statements:
            m, d = walk(items)
            n, deep = n + m, max(deep, d)
        joined = ''.join(i.text for items in e.statements for i in items)
        check(text.startswith(joined), 'the items of the error {} concatenate to {}, which is not the start of {}', e.message, joined, text)
        hl, o = highlight(e.statements)
        check(o == '', 'highlighting the error of {} printed {}', text, o)
        got = flat(hl)
        check(got == joined, 'the error of {} is highlighted as {} instead of {}', text, got, joined)
        check(0 <= pos <= len(text), 'the error of {} is at {}', text, pos)
        check(text[:pos] == joined, 'the error of {} is at {}, after {}, but its items are {}', text, pos, text[:pos], joined)
        done = ''.join(q.expression for q in e.response.results)
        check(joined.startswith(done), 'the error of {} has the items {}, after results for {}', text, joined, done)
        t.label(type(e).__name__)
    if n > 5 or deep:
        t.nt()
    t.label('depth {}'.format(min(deep, 4)))


GROUPS = [('reconstruct', reconstruct, 1)]
