"""Mutations of program texts."""
from . import gen, script, sut

CHARS = ['(', ')', '[', ']', '{', '}', "'", '\\', '"', ',', '..', ' ', '\n', '\t', '#', '@', '=', '+', '-', '*', '/', '%', '^', '~', '&', '|', '<', '>', '!', '$', '.', ':', ';', '?', '_', '0', '1', '9',
         '00', 'e', 'E', 'x', 'z', 'b', 'é', 'ß', 'İ', '½', '²', '٣', '\u200b', '\ufeff', '\r', '\x00', '\x0b', '\x85', '\u2028', '😀', '\udc80', ' to ', ' as ', ' then ', ' else ', 'not ', ' and ', ' step ', 'm', 'km', ' s',
         'PARAM1', '++', '||=', '+%', '=~', '0x', '0b', '36z', '1E', '.5', '5.', '-', '--', "''", '()', '[]', '{}']


def mutate(s, text, lo=1, hi=4):
    """The text with a few small changes."""
    for _ in range(s.int(lo, hi)):
        k = s.draw(6)
        i = s.draw(len(text))
        if k == 0:
            text = text[:i] + text[i + 1:]
        elif k == 1:
            text = text[:i] + s.pick(CHARS) + text[i:]
        elif k == 2:
            text = text[:i] + s.pick(CHARS) + text[i + 1:]
        elif k == 3:
            j = i + s.draw(min(12, len(text) - i))
            text = text[:i] + text[j:]
        elif k == 4:
            j = i + s.draw(min(12, len(text) - i))
            h = s.draw(len(text))
            text = text[:h] + text[i:j] + text[h:]
        elif k == 5:
            text = text[:i] + s.pick(sut.DICT_STRS) + text[i:]
        else:
            text = text[:i]
    return text


import re

_EXP = re.compile(r'\d[eE]-?\d{4,6}(?!\d)')
_LONG = re.compile(r'\d{4,}')
_SCI = re.compile(r'\d\s*[eEzZxX]-?\s*\w')
_FACT = re.compile(r'fact\s*\((?!\s*-?\d{1,3}(\.\d*)?\s*[,)])')
_EXPF = re.compile(r'exp\s*\((?!\s*-?\d{1,3}(\.\d*)?\s*\))')
_SHIFT = re.compile(r'<<(?!\s*-?\d{1,3}\s*($|[)\],\n+*/#]))')
_POW = re.compile(r'\^(?!\s*\(?\s*-?\s*\d{1,2}(\.\d+)?(?![\w.%]))')
_REP = re.compile(r'\*\$(?!\s*-?\d{1,3}(\.\d*)?\s*($|[)\],\n+*/#]))')
_RANGE = re.compile(r'\[\s*\(?-?\d{1,3}(\.\d{1,4})?\)?\s*\.\.\s*\(?-?\d{1,3}(\.\d{1,4})?\)?\s*(step\s*\(?-?\d{1,3}(\.\d)?\)?\s*)?[\],]')


def tame(text, simplify=False):
    """False for texts that could ask for astronomically large numbers, repetitions or ranges."""
    if _EXP.search(text):
        return False
    if 'fact' in text and (_FACT.search(text) or text.count('fact') > 3):
        return False
    if 'exp' in text and _EXPF.search(text):
        return False
    if '<<' in text and (_SHIFT.search(text) or text.count('<<') > 4):
        return False
    p = text.replace('^^', '')
    if '^' in p:
        if _POW.search(p) or p.count('^') > 4:
            return False
        if (simplify or 'compact' in text or 'format' in text) and re.search(r'\^\W*\d\d', p):
            return False
    if '*$' in text and (_REP.search(text) or text.count('*$') > 2):
        return False
    if '..' in text and text.count('..') != len(_RANGE.findall(text)):
        # a range of unusual shape: only with small numbers
        if re.search(r'\d\d', text) or re.search(r'\d[ezxobEZXOB]|\^|fact|\*\$|<<|exp|\.\d', text) or re.search(r'[a-z]{3,}', text.replace('step', '')):
            return False
    return True
