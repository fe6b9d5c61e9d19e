"""Unit names and symbols parse, displayed units parse back."""
import re
from fractions import Fraction

from props import U02
from vlib import gen, sut, units
from vlib.sut import check, Err, Number, frac
from vlib.pbt import Discard
from vlib.units import Compound

RULE = ('every name, alias and symbol of every unit in random letter case, in several syntactic positions; words that only start with a unit; words '
        'shared by units; plural, singular and symbol text of random compound units (4 parts, powers -3 to 3) and of results, parsed back. '
        'Oracle: the independent unit table. Non-trivial: an alias, symbol, prefixed or compound unit.')
ASSUMPTIONS = ['the symbol of the attosecond is the operator "as", which has precedence']

WORDS = {}
for _u in units.ALL:
    for _n in _u.names:
        WORDS[_n.lower()] = _u.singular
SYMS = {}
for _u in units.ALL:
    for _n in _u.symbols:
        SYMS[_n] = _u.singular
for _names, _symbols, _main, _ in units.AMBIGUOUS:
    for _n in _names:
        WORDS[_n.lower()] = _main
    for _n in _symbols:
        SYMS[_n] = _main


def understood(word):
    """The unit a word stands for; names win over symbols."""
    return WORDS.get(word.lower()) or SYMS.get(word)


def mixcase(s, n):
    k = s.draw(4)
    if k == 0:
        return n
    if k == 1:
        return n.upper()
    if k == 2:
        return n.lower()
    if k == 3:
        return n.title()
    return ''.join(c.upper() if s.bool() else c.lower() for c in n)


def unit_in(calc, e, t):
    t.show(e)
    r = sut.last(calc, e)
    check(not isinstance(r, Err) and r is not None, '{} gave {}', e, r)
    return r[0], sut.unitpowers(r[1])


def place(s, w):
    """(expression, value, factor on the power) using the word in some position."""
    k = s.draw(9)
    n = s.int(1, 99)
    if k < 3:
        return '{} {}'.format(n, w), n, 1
    if k == 3 and (w[0].isalpha() or w[0] == '\u00b0') and w[0] not in 'zZ':
        return '{}{}'.format(n, w), n, 1
    if k == 4:
        return '({} {})'.format(n, w), n, 1
    if k == 5:
        return '{} {}^2'.format(n, w), n, 2
    if k == 6:
        return '({}) {}'.format(n, w), n, 1
    if k == 7:
        return 'abs({} {})'.format(n, w), n, 1
    if k == 8:
        return '{} {} ^ -2'.format(n, w), n, -2
    return '[{} {}]'.format(n, w), n, 1


def judge(s, t, w, singular):
    calc = U02.calcs(t)['off']
    e, n, p = place(s, w)
    v, powers = unit_in(calc, e, t)
    if isinstance(v, list):
        check(len(v) == 1, '{} gave {}', e, v)
        v, powers = v[0].value, sut.unitpowers(v[0].unit)
    check(isinstance(v, Number) and frac(v) == n, '{} gave {}', e, v)
    check(powers == {singular: p}, '{} has unit {}, want {}', e, powers, singular)


def c_name(s, t):
    u = units.pick_unit(s, 'all') if s.bool() else s.pick(units.ALL)
    n = s.pick(u.names)
    w = mixcase(s, n)
    t.nt(n not in (u.singular, u.plural) or u.prefix is not None or w != n)
    judge(s, t, w, u.singular)


def c_symbol(s, t):
    u = s.pick([x for x in units.ALL if x.symbols])
    w = s.pick(u.symbols)
    if w in units.WORD_OPS:
        raise Discard()
    t.nt(True)
    if s.bool(2, 3):
        judge(s, t, w, understood(w))
        return
    # in another case it is not that symbol
    v = mixcase(s, w)
    if v == w or understood(v) is not None or v in units.WORD_OPS:
        raise Discard()
    e = '1 {}'.format(v)
    t.show(e)
    calc = U02.calcs(t)['off']
    r = sut.last(calc, e)
    if not isinstance(r, Err) and r is not None:
        check(u.singular not in sut.unitpowers(r[1]), '{} gave {} {}', e, r[0], sut.unitpowers(r[1]))


def c_shared(s, t):
    names, symbols, main, systems = s.pick(units.AMBIGUOUS)
    w = s.pick(symbols) if symbols and s.bool() else mixcase(s, s.pick(names))
    t.nt(True)
    judge(s, t, w, main)
    # and its own names still mean each of them
    u = units.BY_NAME[s.pick(sorted(systems.values()))]
    judge(s, t, mixcase(s, s.pick(u.names)), u.singular)


def c_preference(s, t):
    """Another order of preference of the systems."""
    order = s.shuffle(['gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec'])
    calc = U02.calcs(t)['off']
    names, symbols, main, systems = s.pick(units.AMBIGUOUS)
    w = s.pick(symbols) if symbols and s.bool() else mixcase(s, s.pick(names))
    want = systems['us' if order.index('us') < order.index('uk') else 'uk']
    old = calc.unit_normaliser.systems_preference
    calc.unit_normaliser.systems_preference = order
    t.label(want)
    t.nt(True)
    try:
        v, powers = unit_in(calc, '3 ' + w, t)
        check(powers == {want: 1}, '{} is {} when systems are preferred in the order {}', w, powers, order)
        u = s.pick([x for x in units.ALL if len(x.systems) > 1 or x.systems == ('si',)])
        if u.quantity not in ('acceleration',):
            r = sut.last(calc, 'format(2 {})'.format(u.singular))
            check(not isinstance(r, Err) and isinstance(r[0], str), 'format(2 {}) gave {}', u, r)
            for part in r[0].split(', '):
                x = [z for z in units.ALL if part.split(' ', 1)[1] in (z.singular, z.plural)][0]
                best = [sy for sy in order if sy in u.systems][0]
                check(best in x.systems, 'format(2 {}) gave {} when systems are preferred in the order {}', u, r[0], order)
    finally:
        calc.unit_normaliser.systems_preference = old


def c_prefix(s, t):
    """A word that starts with a unit is another word."""
    u = s.pick(units.ALL)
    n = s.pick(u.names + [x for x in u.symbols if x.isalpha() and x.isascii()])
    if ' ' in n or '-' in n or not re.fullmatch('[A-Za-z]+', n):
        raise Discard()
    w = n + s.pick(['x', 'q', '_', 'Q', 'foo', '_1', 'z9', 'xs', '_m', 'q_m'])
    calc = U02.calcs(t)['off']
    if understood(w) or understood(re.match('[A-Za-z_]+', w).group()) or w in calc.constants or w in calc.funcs or w.lower() in ('true', 'false', 'max'):
        raise Discard()
    v = s.int(2, 99)
    e = '{} = {}\n3 * {}'.format(w, v, w)
    t.nt(True)
    try:
        x, powers = unit_in(calc, e, t)
        check(isinstance(x, Number) and frac(x) == 3 * v and powers == {}, '{} gave {} {}', e, x, powers)
    finally:
        calc.vars.clear()


def random_compound(s):
    parts = []
    seen = set()
    for _ in range(s.int(1, 4)):
        u = units.pick_unit(s, 'all') if s.bool(2, 3) else s.pick(units.ALL)
        if u.singular in seen:
            continue
        seen.add(u.singular)
        parts.append((u, s.weighted([(6, 1), (3, -1), (2, 2), (2, -2), (1, 3), (1, -3)])))
    return Compound(parts)


def reparse(t, calc, unit, want, e):
    forms = {'plural': unit.plural(), 'singular': unit.singular(), 'name of 1': unit.get_name(Number(1)), 'name of 2': unit.get_name(Number(2)), 'name of 0.5': unit.get_name(Number('0.5'))}
    check(unit.has_symbols() == all(units.BY_NAME[n].symbols for n in want), '{}: has_symbols is {}', e, unit.has_symbols())
    if unit.has_symbols() and 'attosecond' not in want:
        forms['symbol'] = unit.symbol()
    toks = {'plural': unit.plural(string_result=False), 'singular': unit.singular(string_result=False), 'name of 2': unit.get_name(Number(2), string_result=False)}
    if 'symbol' in forms:
        toks['symbol'] = unit.symbol(string_result=False)
    for k, l in toks.items():
        check(''.join(x[0] for x in l) == forms[k], '{}: parts {} of {}', e, l, forms[k])
    check(forms['name of 1'] == forms['singular'] and forms['name of 2'] == forms['plural'] == forms['name of 0.5'], '{}: {}', e, forms)
    for k, text in sorted(forms.items()):
        r = sut.last(calc, '7 ' + text)
        check(not isinstance(r, Err) and r is not None and isinstance(r[0], Number), '{}: 7 {} gave {}', e, text, r)
        check(frac(r[0]) == 7 and sut.unitpowers(r[1]) == want, '{}: {} {} parses as {}', e, k, text, sut.unitpowers(r[1]))
        if s_converts(want):
            r = sut.last(calc, e + ' to ' + text)
            check(not isinstance(r, Err) and r is not None and sut.unitpowers(r[1]) == want, '{} to {} gave {}', e, text, r)


def s_converts(want):
    return True


def c_print(s, t):
    c = random_compound(s)
    calc = U02.calcs(t)['off']
    e = '1 ' + units.compound_text(s, c.parts)
    t.nt(len(c.parts) > 1 or c.parts[0][1] != 1)
    t.show(e)
    r = sut.last(calc, e)
    check(not isinstance(r, Err) and r is not None and sut.unitpowers(r[1]) == c.powers, '{} gave {}', e, r)
    if len(c.parts) == 1 and c.parts[0][1] == 1:
        u = c.parts[0][0]
        check(r[1].plural() == u.plural and r[1].singular() == u.singular, '{} is displayed as {}', e, r[1].plural())
        if u.symbols:
            check(r[1].symbol() == u.symbols[0], '{} is displayed as {}', e, r[1].symbol())
    reparse(t, calc, r[1], c.powers, e)


def c_fraction(s, t):
    """Units with fractional powers that end."""
    parts = []
    for _ in range(s.int(1, 4)):
        u = units.pick_unit(s, 'all') if s.bool(2, 3) else s.pick(units.ALL)
        if u.singular in [q[0].singular for q in parts]:
            continue
        p = Fraction(s.int(1, 12), s.pick([2, 4, 5, 10, 8, 100])) * s.pick([1, 1, -1])
        if s.bool(1, 4):
            p = Fraction(s.int(1, 3)) * s.pick([1, -1])
        parts.append((u, p))
    words = []
    for u, p in parts:
        w = units.word(s, u)
        x = U02.dec(p)
        words.append(w if p == 1 else w + '^' + x)
    e = '1 ' + ' '.join(words)
    t.show(e)
    if any(p.denominator != 1 for u, p in parts):
        t.nt(True)
    calc = U02.calcs(t)['off']
    want = {u.singular: p for u, p in parts}
    r = sut.last(calc, e)
    check(not isinstance(r, Err) and r is not None and sut.unitpowers(r[1]) == want, '{} gave {}', e, r)
    reparse(t, calc, r[1], want, e)
    if all(q.denominator <= 2 for q in want.values()):
        # the root of the square
        sq = '(9 ' + ' '.join('{}^{}'.format(w.split('^')[0] if '^' in w else w, U02.dec(p * 2)) for w, (u, p) in zip(words, parts)) + ') ^ 0.5'
        r = sut.last(calc, sq)
        check(not isinstance(r, Err) and r is not None and frac(r[0]) == 3 and sut.unitpowers(r[1]) == want, '{} gave {}', sq, r)
        reparse(t, calc, r[1], want, e)


def c_result(s, t):
    """The unit shown for a result is understood again."""
    q = U02.tree(s, s.weighted([(2, 0), (3, 1)]), ('*', '/', '^', '+'))
    if q.n == 0 or q.cost > 100:
        raise Discard()
    calc = U02.calcs(t)['on']
    t.show(q.text)
    r = sut.last(calc, q.text)
    check(not isinstance(r, Err) and r is not None, '{} gave {}', q.text, r)
    if r[1] is None:
        raise Discard()
    t.nt(True)
    reparse(t, U02.calcs(t)['off'], r[1], sut.unitpowers(r[1]), '1 ' + r[1].plural())


GROUPS = [('name', c_name, 6), ('symbol', c_symbol, 5), ('shared', c_shared, 1), ('preference', c_preference, 1), ('prefix', c_prefix, 3), ('print', c_print, 5), ('result', c_result, 2), ('fraction', c_fraction, 2)]
