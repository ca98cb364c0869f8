"""Independent readers of the printed and the LaTeX form: text -> tree -> value. They know nothing of simpy's classes.

tree: ("num", Fraction or float) ("sym", name) ("const", "e"/"pi"/...) (op, left, right) with op in + - * / ^, ("neg", t), ("fn", name, t),
("log", t, base)."""
from fractions import Fraction as Fr

from . import val as V


class Unreadable(Exception):
    pass


PLAIN_FNS = {"sin": "sin", "cos": "cos", "tan": "tan", "sec": "sec", "csc": "csc", "cot": "cot", "asin": "asin", "acos": "acos", "atan": "atan", "arcsin": "asin", "arccos": "acos", "arctan": "atan", "ln": "ln", "sqrt": "sqrt", "abs": "Abs"}


class Plain:
    """usual precedence: ^ (from the right) before sign, before * and / (from the left), before + and -"""

    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == " ":
            self.i += 1

    def peek(self):
        self.ws()
        return self.s[self.i] if self.i < len(self.s) else ""

    def eat(self, c):
        if self.peek() != c:
            raise Unreadable("expected %r at %d of %r" % (c, self.i, self.s))
        self.i += 1

    def parse(self):
        t = self.sum()
        if self.peek():
            raise Unreadable("left over %r" % self.s[self.i :])
        return t

    def sum(self):
        t = self.term()
        while self.peek() in ("+", "-") and self.peek():
            op = self.peek()
            self.i += 1
            t = (op, t, self.term())
        return t

    def term(self):
        if self.peek() == "-":
            self.i += 1
            return ("neg", self.term())
        t = self.factor()
        while self.peek() in ("*", "/") and self.peek():
            op = self.peek()
            self.i += 1
            if self.peek() == "-":
                raise Unreadable("sign after %s in %r" % (op, self.s))
            t = (op, t, self.factor())
        return t

    def factor(self):
        b = self.atom()
        if self.peek() == "^":
            self.i += 1
            if self.peek() == "-":
                self.i += 1
                return ("^", b, ("neg", self.factor()))
            return ("^", b, self.factor())
        return b

    def atom(self):
        c = self.peek()
        if c == "(":
            self.i += 1
            t = self.sum()
            self.eat(")")
            return t
        if c == "|":
            self.i += 1
            t = self.sum()
            self.eat("|")
            return ("fn", "Abs", t)
        if c.isdigit():
            return self.number()
        if c.isalpha() or c == "_":
            j = self.i
            while j < len(self.s) and (self.s[j].isalnum() or self.s[j] == "_"):
                j += 1
            name = self.s[self.i : j]
            nxt = self.s[j] if j < len(self.s) else ""
            if name == "log" and nxt == "[":
                self.i = j + 1
                if not self.s.startswith("base=", self.i):
                    raise Unreadable(self.s)
                self.i += 5
                base = self.sum()
                self.eat("]")
                return ("log", self.bracket(), base)
            if name == "log" and nxt == "-":
                self.i = j + 1
                n = self.number()
                return ("log", self.bracket(), ("neg", n))
            if name[:3] == "log" and name[3:].isdigit() and nxt == "(":
                self.i = j
                return ("log", self.bracket(), ("num", Fr(int(name[3:]))))
            if nxt == "(":
                if name not in PLAIN_FNS:
                    raise Unreadable("function %s in %r" % (name, self.s))
                self.i = j
                return ("fn", PLAIN_FNS[name], self.bracket())
            self.i = j
            return ("sym", name)
        raise Unreadable("unexpected %r at %d of %r" % (c, self.i, self.s))

    def bracket(self):
        self.eat("(")
        t = self.sum()
        self.eat(")")
        return t

    def number(self):
        j = self.i
        s = self.s
        while j < len(s) and s[j].isdigit():
            j += 1
        if j < len(s) and s[j] == ".":
            j += 1
            while j < len(s) and s[j].isdigit():
                j += 1
            if j < len(s) and s[j] == "e" and j + 1 < len(s) and (s[j + 1] in "+-" or s[j + 1].isdigit()):
                j += 2
                while j < len(s) and s[j].isdigit():
                    j += 1
            v = float(s[self.i : j])
        elif j + 1 < len(s) and s[j] == "e" and (s[j + 1] in "+-" and s[j + 2 : j + 3].isdigit() or s[j + 1].isdigit()):
            j += 2
            while j < len(s) and s[j].isdigit():
                j += 1
            v = float(s[self.i : j])
        else:
            v = Fr(int(s[self.i : j]))
        self.i = j
        return ("num", v)


# ---- LaTeX ---------------------------------------------------------------------------------------

LATEX_FNS = {"\\sin": "sin", "\\cos": "cos", "\\tan": "tan", "\\sec": "sec", "\\csc": "csc", "\\cot": "cot", "\\ln": "ln"}
INVERSE = {"sin": "asin", "cos": "acos", "tan": "atan"}
OPEN = {"(": ")", "|": "|", "[": "]"}


class Latex:
    """usual reading: a name is a run of letters and digits (with _), juxtaposed factors do not occur except after a fraction, function or bracket"""

    def __init__(self, s):
        self.s = s
        depth = 0
        for c in s:
            depth += {"{": 1, "}": -1}.get(c, 0)
            if depth < 0:
                raise Unreadable("braces do not match in %r" % s)
        if depth:
            raise Unreadable("braces do not match in %r" % s)
        if s.count("\\left") != s.count("\\right") + s.count("\\leftarrow") * 0:
            raise Unreadable("\\left without \\right in %r" % s)
        self.raw = s
        self.i = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == " ":
            self.i += 1

    def tok(self):
        """next token without consuming: a command, or one character"""
        self.ws()
        if self.i >= len(self.s):
            return ""
        c = self.s[self.i]
        if c == "\\":
            j = self.i + 1
            while j < len(self.s) and self.s[j].isalpha():
                j += 1
            return self.s[self.i : j]
        return c

    def take(self):
        t = self.tok()
        self.ws()
        self.i += len(t)
        return t

    def expect(self, t):
        if self.tok() != t:
            raise Unreadable("expected %r at %d of %r" % (t, self.i, self.s))
        self.take()

    def parse(self):
        t = self.sum()
        if self.tok():
            raise Unreadable("left over %r" % self.s[self.i :])
        return t

    def sum(self):
        t = self.term()
        while self.tok() in ("+", "-"):
            op = self.take()
            t = (op, t, self.term())
        return t

    def term(self):
        if self.tok() == "-":
            self.take()
            return ("neg", self.term())
        t = self.factor()
        while self.tok() == "\\cdot":
            self.take()
            if self.tok() == "-":
                raise Unreadable("sign after \\cdot in %r" % self.s)
            t = ("*", t, self.factor())
        return t

    def factor(self):
        b = self.atom()
        if self.tok() == "^":
            self.take()
            b = ("^", b, self.arg())
            if self.tok() == "^":
                raise Unreadable("double superscript in %r" % self.s)
        return b

    def arg(self):
        """argument of ^ or \\frac: one token or a group"""
        c = self.tok()
        if c == "{":
            return self.group()
        if c == "" or c in "+-)|}" or c in ("\\frac", "\\sqrt", "\\left", "\\right") or c in LATEX_FNS:
            raise Unreadable("bad argument %r in %r" % (c, self.s))
        self.take()
        if c.isdigit():
            return ("num", Fr(int(c)))
        if c == "\\pi":
            return ("sym", "pi")
        if c.isalpha():
            return ("sym", c)
        raise Unreadable("bad argument %r in %r" % (c, self.s))

    def group(self):
        self.expect("{")
        t = self.sum()
        self.expect("}")
        return t

    def bracket(self):
        if self.tok() == "\\left":
            self.take()
            self.expect("(")
            t = self.sum()
            self.expect("\\right")
            self.expect(")")
            return t
        self.expect("(")
        t = self.sum()
        self.expect(")")
        return t

    def atom(self):
        c = self.tok()
        if c == "{":
            return self.group()
        if c == "(":
            return self.bracket()
        if c == "|":
            self.take()
            t = self.sum()
            self.expect("|")
            return ("fn", "Abs", t)
        if c == "\\left":
            save = self.i
            self.take()
            d = self.tok()
            if d == "|":
                self.take()
                t = self.sum()
                self.expect("\\right")
                self.expect("|")
                return ("fn", "Abs", t)
            self.i = save
            return self.bracket()
        if c == "\\frac":
            self.take()
            a = self.arg()
            return ("/", a, self.arg())
        if c == "\\sqrt":
            self.take()
            return ("fn", "sqrt", self.group() if self.tok() == "{" else self.arg())
        if c == "\\pi":
            self.take()
            self.setoff()
            return ("sym", "pi")
        if c == "\\log":
            self.take()
            self.expect("_")
            base = self.group() if self.tok() == "{" else self.arg()
            return ("log", self.bracket(), base)
        if c in LATEX_FNS:
            self.take()
            f = LATEX_FNS[c]
            if self.tok() == "^":
                self.take()
                if self.group() != ("neg", ("num", Fr(1))) or f not in INVERSE:
                    raise Unreadable("power of a function's name in %r" % self.s)
                f = INVERSE[f]
            return ("fn", f, self.bracket())
        if c == "\\text":
            self.take()
            self.expect("{")
            j = self.s.index("}", self.i)
            name = self.s[self.i : j]
            self.i = j + 1
            if name not in PLAIN_FNS:
                raise Unreadable("function %r in %r" % (name, self.s))
            return ("fn", PLAIN_FNS[name], self.bracket())
        if c.isdigit():
            p = Plain(self.s)
            self.ws()
            p.i = self.i
            t = p.number()
            self.i = p.i
            return t
        if c.isalpha():
            self.ws()
            j = self.i
            while j < len(self.s) and (self.s[j].isalnum() or self.s[j] == "_"):
                j += 1
            name = self.s[self.i : j]
            self.i = j
            return ("sym", name)
        raise Unreadable("unexpected %r at %d of %r" % (c, self.i, self.s))

    def setoff(self):
        if self.i < len(self.s) and self.s[self.i].isalpha():
            raise Unreadable("command runs into a letter in %r" % self.s)


# ---- value ---------------------------------------------------------------------------------------


def rational(t):
    if t[0] == "num":
        return t[1] if isinstance(t[1], Fr) else None
    if t[0] == "neg":
        r = rational(t[1])
        return None if r is None else -r
    if t[0] == "/":
        a, b = rational(t[1]), rational(t[2])
        return None if a is None or b is None or b == 0 else a / b
    return None


def value(t, env):
    k = t[0]
    if k == "num":
        if isinstance(t[1], Fr):
            return V.const(t[1])
        return (t[1], abs(t[1]) * V.EPS)
    if k == "sym":
        if t[1] in env:
            return env[t[1]]
        if t[1] == "pi":
            return V.PI
        if t[1] == "e":
            return V.EE
        raise Unreadable("symbol %r" % t[1])
    if k == "neg":
        v = value(t[1], env)
        return None if v is None else V.neg(v)
    if k == "fn":
        v = value(t[2], env)
        if t[1] == "sqrt":
            return V.qpow(v, Fr(1, 2))
        if t[1] == "ln":
            return V.ln(v)
        return V.FUNCS[t[1]](v)
    if k == "log":
        a, b = V.ln(value(t[1], env)), V.ln(value(t[2], env))
        return V.div(a, b)
    if k == "^":
        q = rational(t[2])
        a = value(t[1], env)
        if q is not None:
            return V.qpow(a, q)
        if t[2][0] in ("num", "neg") and (t[2][0] == "num" or t[2][1][0] == "num"):
            f = t[2][1] if t[2][0] == "num" else -t[2][1][1]
            if abs(f) < 1e6 and f == int(f):
                return V.ipow(a, int(f))
        return V.power(a, value(t[2], env))
    a, b = value(t[1], env), value(t[2], env)
    if a is None or b is None:
        return None
    return {"+": V.add, "-": V.sub, "*": V.mul, "/": V.div}[k](a, b)
