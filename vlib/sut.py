"""Access to the calculator under test, through its public API."""
import ast
import os
import shutil
import sys
import tempfile
from fractions import Fraction
from decimal import Decimal, getcontext

REPO = os.environ.get('VERIF_REPO', '/repo')

from modularcalculator.modularcalculator import ModularCalculator  # noqa: E402
from modularcalculator.objects.number import Number  # noqa: E402
from modularcalculator.objects.exceptions import CalculatorException, CalculatingException  # noqa: E402

from .pbt import Violation, Discard, Known  # noqa: E402


class Env:
    """Per-worker environment: shared calculators, scratch directory."""

    def __init__(self, seed, shard, known=()):
        self.seed = seed
        self.shard = shard
        self.known = set(known)
        self.cache = {}
        self._scratch = None

    def refresh(self):
        self.cache = {}

    def calc(self, preset='Computing'):
        """A shared calculator: only for cases that leave no state behind."""
        c = self.cache.get(preset)
        if c is None:
            c = self.fresh(preset)
            self.cache[preset] = c
        return c

    def fresh(self, preset='Computing'):
        if preset is None:
            return ModularCalculator()
        return ModularCalculator(preset)

    def scratch(self):
        if self._scratch is None:
            import atexit
            self._scratch = tempfile.mkdtemp(prefix='verif-')
            d = self._scratch
            pid = os.getpid()
            atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
            import multiprocessing.util
            multiprocessing.util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
        return self._scratch


class Err:
    """A calculation that was refused with one of the calculator's own exceptions."""

    def __init__(self, exc):
        self.exc = exc
        self.message = getattr(exc, 'message', str(exc))

    def __eq__(self, other):
        return isinstance(other, Err)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Err({!r})'.format(self.message)


ERR = Err(None)


def frac(n):
    """The exact value of a Number."""
    return Fraction(int(n.num), 1) / Fraction(int(n.den), 1)


def run(calc, text, flags=None):
    """calculate(); returns the response, or Err for the calculator's own exceptions.
    Anything else propagates (and is a violation)."""
    try:
        if flags is None:
            return calc.calculate(text)
        return calc.calculate(text, flags)
    except CalculatingException as e:
        return Err(e)


def results(resp):
    return [r for r in resp.results if r.has_result()]


def last(calc, text, flags=None):
    """(value, unit) of the last statement, or Err."""
    r = run(calc, text, flags)
    if isinstance(r, Err):
        return r
    rs = results(r)
    if not rs:
        return None
    return rs[-1].value, rs[-1].unit


def unitpowers(unit):
    """{unit singular name: power} of a result's unit."""
    if unit is None:
        return {}
    out = {}
    for up in unit.list():
        name = up.unit.singular()
        out[name] = out.get(name, Fraction(0)) + frac(up.power)
    return out


def model(value):
    """Plain Python model of a result's value: numbers are Fractions,
    arrays are lists of (model, unit dict), errors in arrays are ERR."""
    if isinstance(value, Number):
        return frac(value)
    if isinstance(value, bool) or isinstance(value, str) or value is None:
        return value
    if isinstance(value, list):
        return [(model(v.value), unitpowers(v.unit)) for v in value]
    if isinstance(value, Exception):
        return ERR
    return value


def snap(value, unit, calc):
    """Everything a user can see of a value: exact value, text, unit and unit text."""
    if isinstance(value, Number):
        v = ('number', frac(value), text(value, calc))
    elif isinstance(value, list):
        v = ('array', tuple(snap(x.value, x.unit, calc) for x in value))
    elif isinstance(value, Exception):
        v = ('error',)
    elif isinstance(value, (bool, str)) or value is None:
        v = (type(value).__name__, value)
    else:
        v = ('other', getattr(value, 'text', repr(type(value))))
    if unit is None:
        return (v, None)
    return (v, tuple(sorted(unitpowers(unit).items())), unit.plural())


def text(n, calc):
    try:
        return n.to_string(calc)
    except ArithmeticError as e:
        return 'unprintable: {}'.format(type(e).__name__)


def snap_all(resp, calc):
    return [snap(r.value, r.unit, calc) if r.has_result() else None for r in resp.results]


def vars_of(calc):
    """The variables as a user sees them, without disturbing anything."""
    resp = calc.calculate('0', {'include_state': True})
    return resp.results[-1].state


def snap_vars(calc):
    st = vars_of(calc)
    return {k: snap(v[0], v[1], calc) for k, v in st.items()}


def check(cond, fmt, *args):
    if not cond:
        raise Violation(fmt.format(*[_r(a) for a in args]))


def _r(a):
    if isinstance(a, Number):
        return repr(frac(a))
    if isinstance(a, Fraction):
        s = str(a)
        return s if len(s) < 300 else s[:140] + '...' + s[-140:]
    if isinstance(a, str):
        return repr(a)
    if isinstance(a, tuple) or isinstance(a, list):
        return type(a).__name__ + '(' + ', '.join(_r(x) for x in a) + ')'
    if isinstance(a, dict):
        return '{' + ', '.join('{}: {}'.format(_r(k), _r(v)) for k, v in a.items()) + '}'
    return repr(a)


def _parse(text):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ast.parse(text)


def _mine():
    """Literals of the package's source: a fuzzing dictionary, so that inputs
    at values the code treats specially are generated."""
    ints, strs = set(), set()
    for d, _, files in os.walk(os.path.join(REPO, 'modularcalculator')):
        for f in files:
            if not f.endswith('.py'):
                continue
            try:
                tree = _parse(open(os.path.join(d, f), encoding='utf8').read())
            except (SyntaxError, OSError, UnicodeDecodeError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if type(v) is int and -10 ** 12 < v < 10 ** 12:
                        ints.add(v)
                    elif type(v) is float and v == v and abs(v) < 1e12 and v == int(v):
                        ints.add(int(v))
                    elif type(v) is str and 0 < len(v) <= 12:
                        strs.add(v)
    near = set()
    for v in ints:
        near.update((v - 1, v, v + 1))
    return sorted(near, key=lambda v: (abs(v), v)), sorted(strs)


DICT_INTS, DICT_STRS = _mine()
SMALL_INTS = [v for v in DICT_INTS if 0 <= v <= 70]
