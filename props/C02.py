"""Configured symbols only rename; date formats are used both ways."""
from datetime import datetime, timedelta, timezone
from fractions import Fraction

from vlib import gen, script, sut
from vlib.pbt import Discard
from vlib.sut import check, Err

RULE = ('random programs of 1 to 6 statements over all features (some failing), as a list of parts printed once with the default symbols and once with a random set of distinct symbols of 1 to 3 characters or words '
        '(array brackets, range, step, element separator, comment, end of statement, quote and escape, function call); oracle: the calculator with default symbols gives the same results, variables and '
        'place of failure. The same for the symbol of scientific notation in numbers, strings and output, for date formats against datetime, and for function files. A second calculator with the default '
        'symbols and one whose symbols are changed midway are used in between. Non-trivial: the program contains at least two renamed symbols.')
ASSUMPTIONS = ['symbols are distinct and not the beginning of each other, of an operator or of a name in the program, other than a name that goes on after a word']

MARKS = [';', '?', '"', '`', ':', '$', '§', '«', '»', ';;', '::', '??', '//', '/*', '$$', '¦', ':=', '§1', '"""', '.:', '@@', '¿', '&&', '!', '|>', '\\\\', '#', '@', ']]', '[', ']', '..', '...', '[[', '%%', ',,', '->', '§§§§', '::::', ':;:;:', '¿?¿?¿?', '$$$$$$', '"""""', '!!!!', '@@@@@@@@@']
OPERATORS = ['^', '~', '=~', '!~', '*', '/', '%', '*$', '\\', '+', '-', '+$', '+%', '-%', '<<', '>>', '<', '>', '<=', '>=', '<$', '>$', '<=$', '>=$', '<~', '>~', '<=~', '>=~', '==', '!=', '==$', '!=$', '==~', '!=~', '&', '|', '^^',
             '=', '++', '--', '+=', '-=', '*=', '/=', '^=', '%=', '\\=', '||=', '(', ')', '{', '}', '.', ',']
QUOTES = ['"', '`', '|', '§', '/', '$', '#', ';', '»', '"', "'"]
ESCAPES = ['\\', '^', '~', '%', '!', '¬', '&', '\\']
RANGES = ['upto', 'til', 'thru']
STEPS = ['by', 'every', 'stepping']
WORDY = {'orange': 'uptown', 'stepper': 'byword', 'Bar': 'tiled', 'val_2': 'everything', 'foo': 'thrust', '_q': 'til_2'}


def clash(a, b):
    return a.startswith(b) or b.startswith(a)


def marks(s):
    """A set of symbols; some stay at their default."""
    out = {'open': '[', 'close': ']', 'range': '..', 'step': 'step', 'param': ',', 'comment': '#', 'end': '\n', 'quote': "'", 'escape': '\\', 'call': '@'}
    for k in out:
        if s.bool(2, 3):
            out[k] = None
    used = [v for v in out.values() if v]
    for k in sorted(out):
        if out[k] is None:
            pool = QUOTES if k == 'quote' else ESCAPES if k == 'escape' else MARKS
            if k == 'step' or k == 'range' and s.bool():
                pool = STEPS if k == 'step' else RANGES
            for _ in range(20):
                v = s.pick(pool)
                if any(clash(v, u) for u in used):
                    continue
                # a symbol is not taken for an operator, nor hides one
                if k not in ('quote', 'escape') and any(clash(v, o) for o in OPERATORS if not (k in ('comment', 'end') and v.startswith(o) or k == 'param' and o == ',')):
                    continue
                if k == 'quote' and v in ('|', '/', '$', '&'):
                    continue
                out[k] = v
                used.append(v)
                break
            else:
                raise Discard()
    return out


def configure(calc, m):
    o = calc.feature_options
    a = o['arrays.arrays']
    a['Open'], a['Close'], a['Range'], a['Step'], a['Param'] = m['open'], m['close'], m['range'], m['step'], m['param']
    o['nonfunctional.comments']['Symbol'] = m['comment']
    o['structure.terminator']['Symbol'] = m['end']
    o['strings.strings']['Symbol'] = m['quote']
    o['strings.strings']['Escape Char'] = m['escape']
    o['structure.functionpointers']['Symbol'] = m['call']


DEFAULT = {'open': '[', 'close': ']', 'range': '..', 'step': 'step', 'param': ',', 'comment': '#', 'end': '\n', 'quote': "'", 'escape': '\\', 'call': '@'}


def text_of(tok):
    out, i = '', 1
    while i < len(tok) - 1:
        if tok[i] == '\\':
            i += 1
        out += tok[i]
        i += 1
    return out


def quoted(x, m):
    return m['quote'] + ''.join(m['escape'] + c if c in (m['quote'], m['escape']) else c for c in x) + m['quote']


def render(lines, m):
    """(text, start of each part); `lines` is a list of (tokens, comment or None)."""
    out, at, renamed = '', [], 0
    for n, (toks, note) in enumerate(lines):
        if n:
            at.append(len(out))
            out += m['end']
        stack = []
        prev = ''
        for k in toks:
            at.append(len(out))
            k2 = k
            if k[0] == "'":
                k2 = quoted(text_of(k), m)
            elif k == '[':
                k2 = m['open']
            elif k == ']':
                k2 = m['close']
            elif k == '..':
                k2 = m['range']
            elif k == 'step':
                k2 = m['step']
            elif k == ',' and stack and stack[-1] == '[':
                k2 = m['param']
            elif k == '\n':
                k2 = m['end']
            elif k[0] == '@':
                k2 = m['call'] + k[1:]
            if k2 != k:
                renamed += 1
            if k[0] != "'":
                for c in k:
                    if c in '([{':
                        stack.append(c)
                    elif c in ')]}':
                        stack.pop()
            out += k2 + ' '
        if note is not None:
            at.append(len(out))
            if m['comment'] != '#':
                renamed += 1
            out += m['comment'] + note
            if m['end'] != '\n':
                out += '\n'
    return out, at, renamed


NOTES = ['', ' note', " it's (", ' }])', ' 1 + 2', "'", '\\', ' a = 5 \t', ' é', ',']


def program(s):
    g = script.Gen(s)
    lines = []
    for st in g.program(1, 6, failing=2):
        toks = [x for k in st.toks for x in parts(k)]
        lines.append((toks, s.pick(NOTES) if s.bool(1, 4) else None))
    return lines


def parts(k):
    return [k]


def names(lines, m):
    """Words followed by more letters are names."""
    if m['range'].isalpha() or m['step'].isalpha():
        return [([WORDY.get(k, k) for k in toks], note) for toks, note in lines]
    return lines


def plain(v):
    return 'function' if v[0][0] == 'other' else v


def outcome(calc, text):
    r = sut.run(calc, text)
    e = isinstance(r, Err)
    resp = r.exc.response if e else r
    got = [plain(sut.snap(q.value, q.unit, calc)) for q in resp.results if q.has_result()]
    pos = r.exc.find_pos(text) if e else None
    vs = {k: plain(sut.snap(v[0], v[1], calc)) for k, v in calc.vars.items()}
    return got, e, vs, pos, r.message if e else None


def rename(s, t):
    m = marks(s)
    lines = names(program(s), m)
    a_text, a_at, _ = render(lines, DEFAULT)
    b_text, b_at, renamed = render(lines, m)
    t.show('{} : {!r} ||| {!r}'.format({k: v for k, v in m.items() if v != DEFAULT[k]}, a_text, b_text))
    if renamed >= 2:
        t.nt()
    a = outcome(t.env.fresh(), a_text)
    calc = t.env.fresh()
    k = s.draw(3)
    bystander = t.env.calc()
    if k == 1:
        # used with the default symbols before, and after
        sut.run(calc, a_text)
        calc.vars = {}
    configure(calc, m)
    b = outcome(calc, b_text)
    check(a[:3] == b[:3], '{!r} gives {}; with {} the program {!r} gives {}', a_text, a, m, b_text, b)
    if a[1]:
        t.label('failing')
        where = (a_at + [len(a_text)])
        there = (b_at + [len(b_text)])
        if a[3] in where:
            check(b[3] == there[where.index(a[3])], '{!r} fails at {}; with {} the program {!r} fails at {} ({})', a_text, a[3], m, b_text, b[3], b[4])
            t.label('failing at a part')
    if k == 1:
        configure(calc, DEFAULT)
        calc.vars = {}
        c = outcome(calc, a_text)
        check(c[:4] == a[:4], 'back to the default symbols after {}, {!r} gives {} instead of {}', m, a_text, c, a)
    elif k == 2:
        bystander.vars = {}
        c = outcome(bystander, a_text)
        check(c[:4] == a[:4], 'after another calculator is given {}, {!r} gives {} instead of {}', m, a_text, c, a)


def old(s, t):
    """Replaced symbols no longer mean what they meant."""
    m = dict(DEFAULT)
    k = s.pick(['open', 'close', 'param', 'comment', 'quote', 'call', 'range', 'step'])
    m[k] = {'open': '<:', 'close': ':>', 'param': ';', 'comment': ';', 'quote': '"', 'call': '$', 'range': s.pick(['::', 'upto']), 'step': s.pick(['by', '::'])}[k]
    x = s.pick({'open': ['[1]', '[1, 2]', 'sum([1])'], 'close': ['[1]', '[1, 2]'], 'param': ['[1, 2]', '[1, 2, 3]', 'sum([5, 6])'], 'comment': ['5 # note', '#'], 'quote': ["'a'", "''", "'5' + 1"],
                'call': ['@f(1)'], 'range': ['[1..5]', '[2..9]'], 'step': ['[1..5 step 2]']}[k])
    calc = t.env.fresh()
    calc.calculate('f = {PARAM1 + 1}')
    if k != 'quote' and s.bool(1, 2):
        # a part of a symbol is no symbol
        c = s.pick(['§', '¿', ':', ';', '«', '§;', ':?'])
        m[k] = c * s.int(2, s.pick([3, 6, 20]))
        part = m[k][:s.int(1, len(m[k]) - 1)]
        x = {'open': '{}1, 2]', 'close': '[1, 2{}', 'param': '[1{} 2]', 'comment': '5 {} 7', 'call': '{}f(1)', 'range': '[1{}5]', 'step': '[1..5 {} 2]'}[k].format(part)
        whole = {'open': '{}1, 2]', 'close': '[1, 2{}', 'param': '[1{} 2]', 'comment': '5 {} 7', 'call': '{}f(1)', 'range': '[1{}5]', 'step': '[1..5 {} 2]'}[k].format(m[k])
        configure(calc, m)
        t.show('{} {} : {}'.format(k, m[k], x))
        t.nt()
        r = sut.run(calc, x)
        check(isinstance(r, Err), 'with {} for {} {!r} is accepted', m[k], k, x)
        r = sut.run(calc, whole)
        check(not isinstance(r, Err), 'with {} for {} {!r} is refused: {}', m[k], k, whole, r)
        return
    if k == 'open':
        m[k] = ';'
    elif k == 'close':
        m[k] = ':'
    configure(calc, m)
    t.show('{} {} : {}'.format(k, m[k], x))
    t.nt()
    r = sut.run(calc, x)
    check(isinstance(r, Err), 'with {} for {} {!r} is still accepted', m[k], k, x)


EXPS = ['E', 'e', '^', '**', 'x10^', '*10^', '*^', 'EE', 'D', 'exp', '$', '+', '|', 'x', '\\', '?', '(', '[e]', 'E+', ' E ', '..', '_']


def scientific(s, t):
    """Numbers in scientific notation with any symbol."""
    sym = s.pick(EXPS)
    calc = t.env.fresh()
    ref = t.env.calc()
    ref.vars = {}
    if s.bool(1, 3):
        sut.run(calc, '1E3 + 1')
    calc.feature_options['numerical.expnumbers']['Symbol'] = sym
    mant = s.pick(['', '-']) + str(s.int(1, s.pick([9, 99, 10 ** 8])))
    if s.bool():
        mant += '.' + str(s.int(1, 10 ** s.int(1, 6)))
    exp = s.sint(-40, 40)
    num, num2 = mant + 'E' + str(exp), mant + sym + str(exp)
    t.show('{!r}: {}'.format(sym, num2))
    if sym not in 'Ee':
        t.nt()
    k = s.draw(3)
    if k == 0:
        a, b = num, num2
    elif k == 1:
        if sym in ('\\', '\\\\'):
            return
        op = s.pick(['+', '-', '*', '/'])
        o = str(s.int(1, 99))
        a, b = "'{}' {} {}".format(num, op, o), "'{}' {} {}".format(num2, op, o)
    elif k == 2:
        op = s.pick(['+', '-', '*'])
        o = s.pick(['3', '2.5', '(7)', '0.001'])
        a, b = '{} {} {}'.format(num, op, o), '{} {} {}'.format(num2, op, o)
    else:
        f = s.pick(['as scientific', 'as decimal', 'as percentage'])
        n = s.pick([num, str(s.int(1, 10 ** 7))])
        a = '{} {}'.format(n, f)
        b = '{} {}'.format(n.replace('E', sym), f)
    x, y = sut.last(ref, a), sut.last(calc, b)
    check(isinstance(x, Err) == isinstance(y, Err), '{} gives {} with E and {} gives {} with {}', a, x, b, y, sym)
    if isinstance(x, Err):
        return
    check(sut.frac(x[0]) == sut.frac(y[0]), '{} is {} with E and {} is {} with {}', a, x[0], b, y[0], sym)
    tx, ty = x[0].to_string(ref), y[0].to_string(calc)
    check(tx.replace('E', sym) == ty, '{} prints {} with E and {} prints {} with {}', a, tx, b, ty, sym)
    if x[0].number_cast is not None and 'E' in tx and sut.frac(x[0]) != 0:
        back = sut.last(calc, ty)
        check(not isinstance(back, Err) and sut.text(back[0], calc) == ty, 'with {} the result {} read again is {}', sym, ty, back)
        t.label('read back')
    # the other calculator still takes E
    z = sut.last(ref, '1E3')
    check(not isinstance(z, Err) and sut.frac(z[0]) == 1000, 'after another calculator is given {}, 1E3 is {}', sym, z)


# ---------------------------------------------------------------- dates

KEYS = ['Date', 'Date + Time', 'Date + Hi Res Time', 'Date + Timezone', 'Date + Time + Timezone', 'Date + Hi Res Time + Timezone']


def formats(s):
    """One format of each kind, told apart by their parts."""
    sep = s.pick(['-', '/', '.', ' ', ''])
    day = s.pick([['%Y', '%m', '%d'], ['%d', '%m', '%Y'], ['%m', '%d', '%Y'], ['%d', '%b', '%Y'], ['%B', '%d', '%Y'], ['%Y', '%j'], ['%A', '%d', '%B', '%Y']])
    if sep == '' and day[0] in ('%B', '%A'):
        sep = ' '
    date = sep.join(day)
    mid = s.pick([' ', 'T', ', ', ' at ', '_'])
    time = s.pick(['%H:%M:%S', '%Hh%Mm%S', '%I:%M:%S %p', '%S:%M:%H'])
    frac = s.pick(['.%f', ',%f', ' + %f us'])
    zone = s.pick(['%z', ' %z', ' (%z)'])
    return {'Date': date, 'Date + Time': date + mid + time, 'Date + Hi Res Time': date + mid + time + frac, 'Date + Timezone': date + zone,
            'Date + Time + Timezone': date + mid + time + zone, 'Date + Hi Res Time + Timezone': date + mid + time + frac + zone}


def moment(s):
    d = datetime(s.int(1100, 9000), s.int(1, 12), s.int(1, 28))
    k = s.draw(5)
    if k % 3:
        d = d.replace(hour=s.int(0, 23), minute=s.int(0, 59), second=s.int(0, 59))
        if d.hour == d.minute == d.second == 0:
            d = d.replace(second=1)
    if k % 3 == 2:
        d = d.replace(microsecond=s.int(1, 999999))
    if k > 2:
        d = d.replace(tzinfo=timezone(timedelta(minutes=s.int(-14, 14) * 60 + s.pick([0, 0, 30, 45]))))
    return d


def kind(d):
    k = 'Date' if not (d.hour or d.minute or d.second or d.microsecond) else 'Date + Hi Res Time' if d.microsecond else 'Date + Time'
    return k + (' + Timezone' if d.tzinfo is not None else '')


def dates(s, t):
    """Dates are read and written in the configured formats."""
    f = formats(s)
    human = formats(s)
    pad = s.pick(['', '', '0>40', '*^44', '<36'])
    calc = t.env.fresh()
    if s.bool(1, 3):
        sut.run(calc, "'2020-01-31' +% 3 days")
    for k in KEYS:
        calc.feature_options['dates.dates'][k + ' Format'] = f[k]
        calc.feature_options['dates.dates'][k + ' Padding'] = ''
        calc.feature_options['dates.datefunctions']['Human Readable ' + k + ' Format'] = human[k]
        calc.feature_options['dates.datefunctions']['Human Readable ' + k + ' Padding'] = pad
    d = moment(s)
    x = d.strftime(f[kind(d)])
    t.nt()
    k = s.draw(4)
    if k < 2:
        n = s.int(0, 4000)
        unit, step = s.pick([('days', timedelta(days=1)), ('hours', timedelta(hours=1)), ('seconds', timedelta(seconds=1)), ('microseconds', timedelta(microseconds=1)), ('weeks', timedelta(days=7))])
        op = s.pick(['+', '-'])
        e = d + n * step if op == '+' else d - n * step
        text = "'{}' {}% {} {}".format(x, op, n, unit) if s.bool() else "{}('{}', {} {})".format('dateadd' if op == '+' else 'datesubtract', x, n, unit)
        want = e.strftime(f[kind(e)])
        if s.bool(1, 4):
            text = "dateformat({})".format(text)
            want = format(e.strftime(human[kind(e)]), pad)
    elif k == 2:
        text, want = "dateformat('{}')".format(x), format(d.strftime(human[kind(d)]), pad)
    elif k == 3:
        e = moment(s)
        e = e.replace(tzinfo=d.tzinfo)
        text, want = "datedifference('{}', '{}', microseconds)".format(x, e.strftime(f[kind(e)])), abs(d - e) // timedelta(microseconds=1)
    else:
        other = {'Date': '%Y~%m~%d', 'Date + Time': '%Y~%m~%dT%H:%M:%S'}[s.pick(['Date', 'Date + Time'])]
        text, want = "dateformat('{}')".format(d.strftime(other)), None
    t.show('{}: {}'.format(f, text))
    r = sut.last(calc, text)
    if want is None:
        check(isinstance(r, Err), 'with the formats {} {} gives {}', f, text, r)
        return
    check(not isinstance(r, Err), 'with the formats {} {} fails: {}', f, text, r)
    got = int(sut.frac(r[0])) if k == 3 else r[0]
    check(got == want, 'with the formats {} {} is {} instead of {}', f, text, got, want)
    b = t.env.calc()
    r = sut.last(b, "'2020-02-28T10:00:00' +% 2 days")
    check(not isinstance(r, Err) and r[0] == '2020-03-01T10:00:00', 'after another calculator is given {} the sum of a date is {}', f, r)


def files(s, t):
    """The first line of a function file follows the comment symbol."""
    sym = s.pick(['#', '//', ';', '"', '$$', '.:', '?', '[', '*-', '\\\\'])
    calc = t.env.fresh()
    calc.feature_options['nonfunctional.comments']['Symbol'] = sym
    other = s.pick(['#', '//', ';'])
    n = s.int(0, 999)
    line, ok = s.pick([('{}INPUT number'.format(sym), True), ('{}INPUT string'.format(sym), 'string'), ('{} some text'.format(sym), None), ('{}INPUT number:length'.format(sym), 'length')])
    body = line + '\nPARAM1 + {} {} note\n'.format(n, sym)
    path = t.env.scratch() + '/f_{}.calc'.format(s.int(0, 9))
    if sym == '[':
        calc.feature_options['arrays.arrays']['Open'] = '<:'
    with open(path, 'w') as fh:
        fh.write(body)
    arg, good = s.pick([('5', True), ("'x'", False), ('5 m', 'length'), ('[1]', None)])
    t.show('{!r} {!r} ({})'.format(sym, body, arg))
    t.nt()
    if arg == '[1]' and sym == '[':
        return
    r = sut.last(calc, "f = '{}'\n@f({})".format(path, arg))
    if arg == '5':
        fails = ok == 'length'
    elif arg == "'x'":
        fails = True
    elif arg == '5 m':
        fails = True
        if ok == 'length':
            fails = True      # 5 m + n has no result
    else:
        return
    check(isinstance(r, Err) == fails, 'with comments from {}, {!r} of {} is {}', sym, body, arg, r)
    if not fails:
        check(sut.frac(r[0]) == 5 + n, 'with comments from {}, {!r} of {} is {}', sym, body, arg, r)


GROUPS = [('rename', rename, 6), ('old', old, 1), ('scientific', scientific, 2), ('dates', dates, 2), ('files', files, 1)]
