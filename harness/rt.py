"""Runtime shared by the recorders.  Runs under the project's interpreter and
imports satisfy from /repo/src.  Installs a controllable clock before satisfy
is imported: time passes only when a recorded program says so."""
import json, operator, os, signal, sys, time as _time, types, logging

sys.dont_write_bytecode = True
SRC = os.environ.get('SATISFY_SRC', '/repo/src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)

REAL = {n: getattr(_time, n) for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time',
                                       'time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time_ns', 'thread_time_ns')}
NONINT = 1999999999       # recorded in place of anything that is not a small integer


class Clock:
    """ticks are seconds; integral, so that float arithmetic on them is exact"""
    def __init__(self):
        self.now = 0
        self.auto = 0         # ticks added by every reading of the clock
        self.log = None       # costs of the evaluations of the current request

    def read(self):
        self.now += self.auto
        return self.now

    def reset(self):
        self.now = 0
        self.log = None

    def tick(self, n):
        self.now += n


CLOCK = Clock()


def install_clock():
    base = {'time': 1000000, 'monotonic': 5000, 'perf_counter': 300, 'process_time': 20, 'thread_time': 10}
    for n, b in base.items():
        setattr(_time, n, (lambda b: (lambda: float(b + CLOCK.read())))(b))
        setattr(_time, n + '_ns', (lambda b: (lambda: (b + CLOCK.read()) * 10 ** 9))(b))


class Hang(BaseException):
    pass


class guard:
    """real-time limit for one step of a recorded program (a planted endless loop)"""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def onalarm(*a):
            raise Hang()
        self.old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(self.seconds)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def excname(e):
    return 'exc:' + type(e).__name__


def enc(v):
    """integers (and booleans) as they are, anything else as a sentinel"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int) and -10 ** 9 < v < 10 ** 9:
        return v
    return NONINT


def bigenc(v):
    """an integer as the specification's BigInt writes it"""
    if not isinstance(v, int):
        return [4, []]
    v, d = int(v), []
    s, v = (v > 0) - (v < 0), abs(v)
    while v:
        d.append(v % 10000)
        v //= 10000
    return [s, d]


def encticks(x):
    """a duration in ticks; a sentinel when it is not a whole number of ticks"""
    try:
        r = round(x)
        return int(r) if abs(x - r) < 1e-6 and abs(r) < 10 ** 9 else NONINT
    except Exception:
        return NONINT


def quiet():
    logging.disable(logging.CRITICAL)


# ---------------------------------------------------------------- formulas
def build(ast, var, par, memo=None, inplace=False):
    """the library expression an author would write for the formula; memo: the expressions of formulas built before,
    which are used again; inplace: as a op= b"""
    if memo is None or ast[0] in ('i', 'v', 'p'): return build1(ast, var, par, lambda t: build(t, var, par), False)
    k = json.dumps(ast)
    if k not in memo: memo[k] = build1(ast, var, par, lambda t: build(t, var, par, memo, inplace), inplace)
    return memo[k]


INPLACE = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv, '%': operator.imod, '**': operator.ipow,
           '&': operator.iand, '|': operator.ior}


def build1(ast, var, par, build, inplace):
    from satisfy import expression as X
    op = ast[0]
    if op == 'i':
        return ast[1]
    if op == 'c':
        return X.Const(ast[1])
    if op == 'v':
        return var[ast[1] - 1]
    if op == 'p':
        return par[ast[1] - 1]
    if op in ('sum', 'prod'):
        cls = X.Sum if op == 'sum' else X.Prod
        return cls([build(a) for a in ast[2]], const=ast[1])
    a = build(ast[1])
    if op in ('neg', 'abs', 'pos', 'not'):
        if op == 'not':
            if hasattr(a, '__not__') and len(repr(ast)) % 2: return a.__not__()
            return X.Not(a)
        if not isinstance(a, X.Expression):
            a = X.Const(a)
        return -a if op == 'neg' else abs(a) if op == 'abs' else +a
    b = build(ast[2])
    if not isinstance(a, X.Expression) and not isinstance(b, X.Expression):
        a = X.Const(a)
    if inplace and op in INPLACE: return INPLACE[op](a, b)
    if op == '+': return a + b
    if op == '-': return a - b
    if op == '*': return a * b
    if op == '/': return a / b
    if op == '%': return a % b
    if op == '**': return a ** b
    if op == '==': return a == b
    if op == '!=': return a != b
    if op == '<': return a < b
    if op == '<=': return a <= b
    if op == '>': return a > b
    if op == '>=': return a >= b
    if op == '&': return a & b
    if op == '|': return a | b
    raise AssertionError(op)


def pyev(ast, asg, par):
    """plain evaluation, used by user-defined test constraints (not an oracle)"""
    op = ast[0]
    if op in ('i', 'c'):
        return ast[1]
    if op == 'v':
        return asg[ast[1] - 1]
    if op == 'p':
        return par[ast[1] - 1]
    a = pyev(ast[1], asg, par)
    if op == 'neg': return -a
    if op == 'abs': return abs(a)
    if op == 'pos': return a
    if op == 'not': return not a
    if op == '&': return a and pyev(ast[2], asg, par)
    if op == '|': return a or pyev(ast[2], asg, par)
    b = pyev(ast[2], asg, par)
    if op == '+': return a + b
    if op == '-': return a - b
    if op == '*': return a * b
    if op == '/': return a // b
    if op == '%': return a % b
    if op == '**': return a ** b
    if op == '==': return a == b
    if op == '!=': return a != b
    if op == '<': return a < b
    if op == '<=': return a <= b
    if op == '>': return a > b
    if op == '>=': return a >= b
    raise AssertionError(op)


def vars_of(ast, acc=None):
    acc = set() if acc is None else acc
    if ast[0] == 'v':
        acc.add(ast[1])
    elif ast[0] in ('sum', 'prod'):
        for a in ast[2]:
            vars_of(a, acc)
    elif ast[0] not in ('i', 'c', 'p'):
        for a in ast[1:]:
            vars_of(a, acc)
    return acc
