"""Independent evaluator and generator for cdx arithmetic expressions."""
import math
import re
from fractions import Fraction

CONSTS = {"pi": math.pi, "e": math.e, "M_E": math.e, "M_LOG2E": 1 / math.log(2), "M_LOG10E": 1 / math.log(10), "M_LN2": math.log(2),
          "M_LN10": math.log(10), "M_PI": math.pi, "M_PI_2": math.pi / 2, "M_PI_4": math.pi / 4, "M_1_PI": 1 / math.pi,
          "M_2_PI": 2 / math.pi, "M_2_SQRTPI": 2 / math.sqrt(math.pi), "M_SQRT2": math.sqrt(2), "M_SQRT1_2": math.sqrt(0.5),
          "M_INF": math.inf, "M_NEG_INF": -math.inf, "M_MAX": 1.7976931348623157e308, "M_MIN": -1.7976931348623157e308,
          "M_MIN_POS": 2.2250738585072014e-308}


def _jn(n, x):
    k = 400
    return sum(math.cos(n * (t * math.pi / k) - x * math.sin(t * math.pi / k)) * (0.5 if t in (0, k) else 1.0) for t in range(k + 1)) / k


def _y0(x):
    s, h, term = 0.0, 0.0, 1.0
    for k in range(1, 60):
        h += 1.0 / k
        term *= -(x * x / 4) / (k * k)
        s -= h * term
    return 2 / math.pi * ((math.log(x / 2) + 0.5772156649015329) * _jn(0, x) + s)


def _y1(x):
    return (_jn(1, x) * _y0(x) - 2 / (math.pi * x)) / _jn(0, x)


def _yn(n, x):
    a, b = _y0(x), _y1(x)
    if n == 0:
        return a
    for i in range(1, n):
        a, b = b, 2 * i / x * b - a
    return b


def _round(x):
    if math.isinf(x) or math.isnan(x) or abs(x) >= 2 ** 52:
        return x
    f = Fraction(x)
    return math.copysign(float(math.floor(abs(f) + Fraction(1, 2))), x)


def _whole(f):
    return lambda x: x if (math.isinf(x) or math.isnan(x)) else float(f(x))


def fact(x):
    if math.isnan(x):
        return x
    if x > 170.5:
        return math.inf
    if x < 0:
        return 0.0
    n = _round(x)
    return math.inf if n > 170 else float(math.factorial(int(n)))


# exact functions: any two correct implementations agree to the last bit
EXACT1 = {"abs": abs, "fabs": abs, "ceil": _whole(math.ceil), "floor": _whole(math.floor), "trunc": _whole(math.trunc), "round": _round}
EXACT2 = {"fmax": max, "fmin": min, "copysign": math.copysign, "fdim": lambda x, y: math.nan if x != x or y != y else x - y if x > y else 0.0}
# var -> (function, domain low, domain high)
TRANS1 = {"acos": (math.acos, -1, 1), "acosh": (math.acosh, 1, 50), "asin": (math.asin, -1, 1), "asinh": (math.asinh, -50, 50),
          "atan": (math.atan, -50, 50), "atanh": (math.atanh, -0.99, 0.99), "cbrt": (lambda x: math.copysign(abs(x) ** (1 / 3), x), -900, 900),
          "cos": (math.cos, -20, 20), "cosh": (math.cosh, -9, 9), "erf": (math.erf, -3, 3), "exp": (math.exp, -20, 20),
          "exp2": (lambda x: 2.0 ** x, -20, 20), "exp10": (lambda x: 10.0 ** x, -9, 9), "expm1": (math.expm1, -5, 5),
          "lgamma": (math.lgamma, 0.1, 60), "log": (math.log, 0.01, 900), "log1p": (math.log1p, -0.9, 900), "log2": (math.log2, 0.01, 900),
          "log10": (math.log10, 0.01, 900), "sin": (math.sin, -20, 20), "sinh": (math.sinh, -9, 9), "sqrt": (math.sqrt, 0, 900),
          "tan": (math.tan, -1.5, 1.5), "tanh": (math.tanh, -9, 9), "tgamma": (math.gamma, 0.1, 30), "j0": (lambda x: _jn(0, x), -9, 9),
          "j1": (lambda x: _jn(1, x), -9, 9), "y0": (_y0, 0.2, 2), "y1": (_y1, 0.2, 2)}
TRANS2 = {"atan2": (math.atan2, -20, 20), "hypot": (math.hypot, -90, 90), "pow": (lambda x, y: x ** y, 0.1, 9),
          "fmod": (math.fmod, 0.5, 90), "remainder": (math.remainder, 0.5, 90), "nextafter": (math.nextafter, -9, 9)}

PREC = {"<": 1, ">": 1, "<=": 1, ">=": 1, "==": 1, "!=": 1, "+": 2, "-": 2, "*": 3, "/": 3, "%": 3, "^": 5}
UNARY, FACT = 4, 6


def lit(rng):
    r = rng.random()
    if r < 0.6:
        return str(rng.randint(0, 12))
    if r < 0.9:
        return "%d.%s" % (rng.randint(0, 20), rng.choice(["5", "25", "125", "75", "0"]))
    return rng.choice(["100", "1e2", "2.5e1", "1000", "007"])


def expr(rng, names, depth):
    """a list of tokens"""
    n = rng.choice([1, 1, 2, 2, 3, 4]) if depth else rng.choice([1, 2])
    out = []
    for i in range(n):
        if i:
            out.append(rng.choice(["+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "+", "-", "*"]))
            if out[-1] == "==" and out[-2] == "!":
                out[-1] = ">"
        out += term(rng, names, depth)
    return out


def term(rng, names, depth):
    out = []
    while rng.random() < 0.2:
        out.append(rng.choice("-+"))
        if len(out) > 2:
            break
    r = rng.random()
    if r < 0.35 or depth <= 0:
        out.append(rng.choice(names) if names and rng.random() < 0.6 else lit(rng))
    elif r < 0.55:
        out += ["("] + expr(rng, names, depth - 1) + [")"]
    elif r < 0.65:
        out += [str(rng.randint(0, 6)), "^"] + [str(rng.randint(0, 3))]
        if rng.random() < 0.3:
            out += ["^", str(rng.randint(0, 2))]
        if rng.random() < 0.25:
            out = [str(rng.choice([1, 2, 4])), "^", "-"] + out
        elif rng.random() < 0.2 and names:
            out = [rng.choice(names), "^", rng.choice(["1", "2"])]
    elif r < 0.72:
        if rng.random() < 0.3:
            out += ["("] + expr(rng, names, 0) + [")", "!"]
        elif names and rng.random() < 0.3:
            out += [rng.choice(names), "!"]
        else:
            out += [str(rng.randint(0, 9)), "!"]
        if rng.random() < 0.1:
            out += ["^", "2"]
    elif r < 0.8:
        f = rng.choice(sorted(EXACT1))
        out += [f + "("] + expr(rng, names, depth - 1) + [")"]
    elif r < 0.82:
        out += ["copysign(", rng.choice(names) if names else lit(rng), ",", rng.choice("-+"), lit(rng), ")"]
    elif r < 0.86:
        f = rng.choice(["fdim", "fmax", "fmin"])
        out += [f + "("] + expr(rng, names, depth - 1) + [","] + expr(rng, names, depth - 1) + [")"]
    elif r < 0.9:
        f = rng.choice(["if", "fma"])
        args = [expr(rng, names, depth - 1) for _ in range(3)]
        if f == "fma":
            args = [[rng.choice(names) if names and rng.random() < 0.5 else str(rng.randint(0, 9))] for _ in range(3)]
        out += [f + "("] + args[0] + [","] + args[1] + [","] + args[2] + [")"]
    else:
        f = rng.choice(["max", "min", "avg"])
        out.append(f + "(")
        for i in range(rng.randint(1, 4)):
            if i:
                out.append(",")
            out += expr(rng, names, depth - 1)
        out.append(")")
    return out


ARITY = {"if": (3, 3), "fma": (3, 3), "max": (1, 99), "min": (1, 99), "avg": (1, 99), "ldexp": (2, 2), "scalbn": (2, 2), "jn": (2, 2), "yn": (2, 2)}
ARITY.update((k, (1, 1)) for k in list(EXACT1) + list(TRANS1))
ARITY.update((k, (2, 2)) for k in list(EXACT2) + list(TRANS2))
_TOK = re.compile(r"(?P<num>\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)|(?P<name>[A-Za-z]\w*)|(?P<op>==|!=|<=|>=|[-+*/%^<>!(),])")


def valid(text):
    """is this an expression?  None if that depends on how numbers are read"""
    toks, i = [], 0
    while i < len(text):
        m = _TOK.match(text, i)
        if not m:
            return False
        i = m.end()
        if m.lastgroup == "num" and i < len(text) and (text[i].isalnum() or text[i] in "._"):
            return None
        toks.append((m.lastgroup, m.group()))
    stack, operand = [], False  # open parentheses: [function or None, arguments]
    for k, (kind, t) in enumerate(toks):
        if kind == "num" or (kind == "name" and toks[k + 1:k + 2] != [("op", "(")]):
            if operand:
                return False
            operand = True
        elif kind == "name":
            if operand or t not in ARITY:
                return False
            stack.append([t, 1])
        elif t == "(":
            if k and toks[k - 1][0] == "name":
                continue
            if operand:
                return False
            stack.append([None, 1])
        elif t == ")":
            if not operand or not stack:
                return False
            f, n = stack.pop()
            if f and not ARITY[f][0] <= n <= ARITY[f][1]:
                return False
        elif t == ",":
            if not operand or not stack or not stack[-1][0]:
                return False
            stack[-1][1] += 1
            operand = False
        elif t == "!":
            if not operand:
                return False
        elif t in "+-":
            operand = False
        else:
            if not operand:
                return False
            operand = False
    return operand and not stack


def broken(rng, toks):
    """text near this valid expression that is not one, or None"""
    t = list(toks)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randrange(len(t) + 1)
        r = rng.random()
        if r < 0.35:
            t.insert(k, rng.choice(["+", "-", "*", "/", "^", "!", "(", ")", ",", "1", "pi", "sin(", "<=", "==", "()", "(2)", "="]))
        elif r < 0.6 and len(t) > 1:
            del t[k % len(t)]
        elif r < 0.8 and len(t) > 1:
            a, b = rng.randrange(len(t)), rng.randrange(len(t))
            t[a], t[b] = t[b], t[a]
        else:
            t.insert(k, t[k % len(t)])
    s = "".join(t)
    return s if "[" not in s and valid(s) is False else None


class Ambiguous(Exception):
    """the value depends on the sign of a zero"""


class Ev:
    def __init__(self, toks, env):
        self.t, self.i, self.env = toks, 0, env

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def all(self):
        v = self.expr(0)
        assert self.i == len(self.t), (self.t, self.i)
        return v

    def expr(self, minp):
        left = self.prefix()
        while True:
            o = self.peek()
            if o == "!":
                self.next()
                if 18 < left < 170.5 and (len(self.t) > 2 or self.env):
                    raise Ambiguous()  # the last digit of a rounded factorial
                left = fact(left)
                continue
            if o not in PREC or PREC[o] < minp:
                return left
            self.next()
            right = self.expr(PREC[o] if o == "^" else PREC[o] + 1)
            left = binary(o, left, right)

    def prefix(self):
        t = self.next()
        if t == "-":
            return -self.expr(UNARY + 1)
        if t == "+":
            return self.expr(UNARY + 1)
        if t == "(":
            v = self.expr(0)
            assert self.next() == ")"
            return v
        if t.endswith("("):
            args = [self.expr(0)]
            while True:
                x = self.next()
                if x == ")":
                    break
                assert x == ","
                args.append(self.expr(0))
            return func(t[:-1], args)
        if t in self.env:
            return self.env[t]
        if t in CONSTS:
            return CONSTS[t]
        return float(t)


def binary(o, a, b):
    if o == "+":
        return a + b
    if o == "-":
        return a - b
    if o == "*":
        return a * b
    if o == "/":
        if b == 0:
            if a == 0 or math.isnan(a):
                return math.nan
            raise Ambiguous()
        return a / b
    if o == "%":
        if b == 0 or math.isinf(a) or math.isnan(a) or math.isnan(b):
            return math.nan
        return math.fmod(a, b)
    if o == "^":
        if math.isnan(a) or math.isnan(b) or a == 0 and b < 0 or abs(b) > 1e3 or a < 0 and b != int(b):
            raise Ambiguous()
        try:
            return float(a) ** b
        except OverflowError:
            raise Ambiguous()
    return float({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[o])


def func(f, a):
    if f in EXACT1:
        return EXACT1[f](a[0])
    if f in ("fmax", "fmin"):
        if a[0] == 0 and a[1] == 0:
            return 0.0
        if math.isnan(a[0]):
            return a[1]
        if math.isnan(a[1]):
            return a[0]
    if f in EXACT2:
        return EXACT2[f](*a)
    if f == "if":
        return a[1] if a[0] != 0 else a[2]
    if f == "fma":
        if not all(map(math.isfinite, a)):
            return a[0] * a[1] + a[2]
        return float(Fraction(a[0]) * Fraction(a[1]) + Fraction(a[2]))
    if f == "max":
        v = a[0]
        for x in a[1:]:
            if x > v:
                v = x
        return v
    if f == "min":
        v = a[0]
        for x in a[1:]:
            if x < v:
                v = x
        return v
    if f == "avg":
        v = 0.0
        for x in a:
            v += x
        return v / len(a)
    if f in TRANS1:
        return TRANS1[f][0](*a)
    if f in TRANS2:
        return TRANS2[f][0](*a)
    if f in ("ldexp", "scalbn"):
        return math.ldexp(a[0], int(a[1]))
    if f == "jn":
        return _jn(int(a[0]), a[1])
    if f == "yn":
        return _yn(int(a[0]), a[1])
    raise KeyError(f)


def trans(rng, names):
    """a transcendental function of a simple argument: (tokens)"""
    r = rng.random()

    def num(lo, hi):
        v = "%.3f" % rng.uniform(lo, hi)
        return (["-", v[1:]] if v[0] == "-" else [v])
    if r < 0.55:
        f = rng.choice(sorted(TRANS1))
        lo, hi = TRANS1[f][1:]
        t = [f + "("] + num(lo, hi) + [")"]
        if f in ("expm1", "log1p", "asinh", "atanh", "asin", "atan", "sin", "tan", "sinh", "tanh", "erf", "cbrt") and rng.random() < 0.25:
            t = [f + "(", "%de-%d" % (rng.randint(1, 999), rng.choice([6, 9, 12, 15, 20])), ")"]
    elif r < 0.75:
        f = rng.choice(sorted(TRANS2))
        lo, hi = TRANS2[f][1:]
        t = [f + "("] + num(lo, hi) + [","] + num(lo, hi) + [")"]
    elif r < 0.82:
        t = [rng.choice(["ldexp(", "scalbn("])] + num(-9, 9) + [","] + ([] if rng.random() < 0.6 else ["-"]) + [str(rng.randint(0, 30)), ")"]
    elif r < 0.88:
        t = ["jn(", str(rng.randint(0, 5)), ","] + num(0.5, 9) + [")"]
    elif r < 0.92:
        t = ["yn(", str(rng.randint(0, 4)), ","] + num(0.5, 2) + [")"]
    else:
        t = [rng.choice(sorted(set(CONSTS) - {"M_INF", "M_NEG_INF", "M_MAX", "M_MIN"}))]
    if rng.random() < 0.4:
        t += [rng.choice(["+", "-", "*"]), rng.choice(["2", "3", "0.5"])]
    if rng.random() < 0.2:
        t = ["-"] + t
    return t


def same(got, want, exact):
    """got: bytes"""
    try:
        g = float(got)
    except ValueError:
        return False
    if math.isnan(want):
        return math.isnan(g)
    if g == want:
        return True
    if exact or math.isinf(g) or math.isinf(want):
        return False
    return abs(g - want) <= 1e-9 * max(1.0, abs(want)) if abs(want) > 1e-6 else abs(g - want) <= 1e-12
