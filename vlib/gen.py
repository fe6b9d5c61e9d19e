"""Shared generators: numeric literals, typed expression trees and their printing."""
from fractions import Fraction

from . import sut

# Precedence of the documented operator table, tightest first.
LEVEL = {
    '^': 0,
    'not': 1, '~': 1,
    '=~': 2, '!~': 2,
    'IMPL': 5,
    '*': 6, '/': 6, '%': 6, '*$': 6, '\\': 6,
    '+': 7, '-': 7, '+$': 7, '+%': 7, '-%': 7,
    '<<': 8, '>>': 8,
    '<': 9, '>': 9, '<=': 9, '>=': 9, '<$': 9, '>$': 9, '<=$': 9, '>=$': 9, '<~': 9, '>~': 9, '<=~': 9, '>=~': 9,
    '==': 10, '!=': 10, '==$': 10, '!=$': 10, '==~': 10, '!=~': 10,
    '&': 11,
    '|': 12, '^^': 12,
    'and': 13, 'or': 13, 'xor': 13,
    'then': 14,
    'to': 15, 'as': 15,
}


def digits(n):
    return len(str(abs(n)))


def cost(f):
    return digits(f.numerator) + digits(f.denominator)


def num_lit(s, neg=True, big=True):
    """A decimal literal: (text, exact value)."""
    kind = s.weighted([(6, 'small'), (3, 'int'), (5, 'dec'), (2, 'dict'), (2, 'edge'), (1, 'odd')])
    if kind == 'small':
        t = str(s.draw(12))
    elif kind == 'int':
        k = s.int(2, 24 if big else 6)
        t = str(s.draw(10 ** k - 1))
    elif kind == 'dec':
        k = s.int(1, 8)
        p = s.int(1, 20 if big else 4)
        t = str(s.draw(10 ** min(k, 5) - 1)) + '.' + str(s.draw(10 ** p - 1)).zfill(p)
    elif kind == 'dict':
        t = str(abs(s.pick(sut.DICT_INTS)))
    elif kind == 'edge':
        k = s.int(1, 30 if big else 5)
        t = s.pick([str(10 ** k), str(10 ** k - 1), str(10 ** k + 1), '0.' + '0' * (k - 1) + '1', '0.' + '9' * k, str(2 ** k), str(2 ** k - 1)])
    else:
        t = s.pick(['0', '00', '007', '1.0', '1.500', '0.0', '10.10', '100', '0.5', '2.5'])
    if neg and s.bool(1, 5):
        t = '-' + t
    return t, Fraction(t)


class Node:
    """op: 'lit' | 'raw' | binary operator | prefix operator | 'call' | 'then'"""
    __slots__ = ('op', 'args', 'text', 'val', 'typ')

    def __init__(self, op, args=(), text=None, val=None, typ=None):
        self.op = op
        self.args = list(args)
        self.text = text
        self.val = val
        self.typ = typ


def level(n):
    if n.op in ('lit', 'raw', 'call', 'array', 'par'):
        return -1
    return LEVEL[n.op]


def toks(n, s=None, extra=0, allowed=99):
    """Token list of the tree, with parentheses only where precedence needs
    them (plus, with probability extra/20, redundant ones)."""
    out = []
    lv = level(n)
    par = lv > allowed
    if n.op == 'lit' and extra and s is not None and s.bool(extra, 20):
        par = True
    if lv >= 0 and not par and extra and s is not None and s.bool(extra, 20):
        par = True
    if par:
        out.append('(')
    if n.op in ('lit', 'raw'):
        if isinstance(n.text, list):
            out.extend(n.text)
        else:
            out.append(n.text)
    elif n.op == 'par':
        out.append('(')
        out.extend(toks(n.args[0], s, extra))
        out.append(')')
    elif n.op == 'call':
        out.append(n.text + '(')
        for i, a in enumerate(n.args):
            if i:
                out.append(',')
            out.extend(toks(a, s, extra))
        out.append(')')
    elif n.op == 'array':
        out.append('[')
        for i, a in enumerate(n.args):
            if i:
                out.append(',')
            out.extend(toks(a, s, extra))
        out.append(']')
    elif n.op in ('not', '~'):
        out.append(n.op)
        out.extend(toks(n.args[0], s, extra, lv))
    elif n.op == 'then':
        out.extend(toks(n.args[0], s, extra, lv))
        out.append('then')
        out.extend(toks(n.args[1], s, extra, lv - 1))
        out.append('else')
        out.extend(toks(n.args[2], s, extra, lv - 1))
    elif n.op == 'IMPL':
        out.extend(toks(n.args[0], s, extra, lv))
        r = toks(n.args[1], s, extra, lv - 1)
        if not (r[0] == '(' or r[0][0].isalpha()):
            r = ['('] + r + [')']
        out.extend(r)
    else:
        out.extend(toks(n.args[0], s, extra, lv))
        out.append(n.op)
        out.extend(toks(n.args[1], s, extra, lv - 1))
    if par:
        out.append(')')
    return out


def join(tokens, sep=' '):
    return sep.join(tokens)


def joinmin(tokens):
    """As few spaces as the grammar allows between the tokens we generate."""
    out = ''
    prev = None
    for t in tokens:
        if prev is not None and _need_space(prev, t):
            out += ' '
        out += t
        prev = t
    return out


_PUNCT = '()[]{},'


def _need_space(a, b):
    if a[-1] in '([{,' or b[0] in ')]},':
        # 'f(' x , y ')' ... an operand followed by a closing bracket
        return False
    if b[0] in '([' and not (a[-1].isalnum() or a[-1] == '_'):
        return False
    aw = a[-1].isalnum() or a[-1] in "_'."
    bw = b[0].isalnum() or b[0] in "_'"
    if aw and bw:
        return True
    if aw and b[0] in '([{':
        return True
    if a[-1] in ')]}' and (bw or b[0] in '([{'):
        return bw
    if aw or bw:
        # one is a symbol operator, the other an operand
        if b[0] == '%' or a[-1] == '%':
            return True
        if b[0] in '.@#' or a[-1] in '@#':
            return True
        if b[0] == '-' and len(b) > 1:
            return True
        return False
    # two symbols in a row: operator then negative literal, prefix op, ...
    return True


def ws(s, tokens):
    """The same tokens with arbitrary white-space between them."""
    out = ''
    prev = None
    for t in tokens:
        if prev is not None:
            if _need_space(prev, t):
                out += s.weighted([(6, ' '), (2, '  '), (1, '\t'), (1, ' \t ')])
            else:
                out += s.weighted([(4, ''), (6, ' '), (1, '  '), (1, '\t')])
        out += t
        prev = t
    return out


DIGITS = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


class Lit:
    """A number literal in some notation, with its independently computed value."""

    def __init__(self, text, val, kind, base=10, offset=0, width=None):
        self.text = text
        self.val = val
        self.kind = kind
        self.base = base
        self.offset = offset
        self.width = width


def notation_lit(s, kinds=None, maxint=12, maxfrac=8, neg=True, integer=False):
    kind = s.pick(kinds or ['decimal', 'binary', 'hexadecimal', 'octal', 'percentage', 'scientific', 'arb'])
    sign = '-' if neg and s.bool(1, 4) else ''
    if kind in ('decimal', 'percentage', 'scientific'):
        base = 10
    else:
        base = {'binary': 2, 'octal': 8, 'hexadecimal': 16}.get(kind) or s.int(2, 36)
    scale = 1 if base >= 8 else 3
    k = s.int(1, s.pick([1, 2, 4, maxint]) * scale)
    ip = [s.draw(base - 1) for _ in range(k)]
    fp = []
    if not integer and s.bool(1, 2):
        fp = [s.draw(base - 1) for _ in range(s.int(1, s.pick([1, 3, maxfrac]) * scale))]
    if s.bool(1, 8):
        ip = s.pick([[0], [1] + [0] * (len(ip) - 1), [base - 1] * len(ip), [0, 0, 1]])
        if fp:
            fp = s.pick([[0] * len(fp), [base // 2] + [0] * (len(fp) - 1), [base - 1] * len(fp), [0] * (len(fp) - 1) + [1]])
    v = Fraction(0)
    for d in ip:
        v = v * base + d
    for i, d in enumerate(fp):
        v += Fraction(d, base ** (i + 1))
    body = ''.join(DIGITS[d] for d in ip)
    if fp:
        body += '.' + ''.join(DIGITS[d] for d in fp)
    lower = s.bool(1, 3)
    if lower:
        body = body.lower()
    elif s.bool(1, 6):
        body = ''.join(c.lower() if i % 2 else c for i, c in enumerate(body))
    offset = 0
    width = None
    if kind == 'decimal':
        text = body
    elif kind == 'percentage':
        text = body + '%'
        v /= 100
        offset = 2
    elif kind == 'scientific':
        e = s.sint(-12, 12)
        text = body + s.pick('Ee') + str(e)
        v *= Fraction(10) ** e
    elif kind == 'binary':
        text = s.weighted([(4, '0b'), (1, '0B')]) + body
        width = len(ip)
    elif kind == 'octal':
        text = s.weighted([(4, '0o'), (1, '0O')]) + body
    elif kind == 'hexadecimal':
        text = s.weighted([(4, '0x'), (1, '0X')]) + body
    else:
        text = str(base) + s.weighted([(4, 'z'), (1, 'Z')]) + body
    if sign:
        v = -v
    return Lit(sign + text, v, kind, base, offset, width)


def split_lit(text):
    """A '-' in front of anything but a decimal-like literal belongs to the literal."""
    return text
