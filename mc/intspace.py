"""The bounded space of integrands shared by the integration checks."""
import itertools

ATOMS = [
    "x", "x**2", "x**3", "1/x", "1/x**2", "sqrt(x)", "1/sqrt(x)", "e**x", "e**(-x)", "e**(2*x)", "2**x", "log(x)", "sin(x)", "cos(x)", "tan(x)",
    "sec(x)", "csc(x)", "cot(x)", "sin(2*x)", "cos(3*x)", "asin(x)", "acos(x)", "atan(x)", "(x + 1)", "1/(x + 1)", "(2*x - 3)", "1/(2*x + 3)",
    "1/(x**2 + 1)", "1/(1 - x**2)", "sqrt(1 - x**2)", "1/sqrt(1 - x**2)", "(x + 1)**2", "sqrt(x + 1)", "1/(x**2 + 2*x + 5)", "(x**2 + 1)", "sin(x)**2",
    "cos(x)**2", "tan(x)**2", "sec(x)**2", "csc(x)**2", "sin(x)**3", "cos(x)**3", "e**(x**2)", "sin(x**2)", "log(x + 1)", "1/(1 + e**x)", "(e**x + 1)",
    "y", "sin(y*x)", "abs(x)",
]
MORE = [
    "x**4", "x**F(2, 3)", "x**F(-3, 2)", "x**y", "e**(y*x)", "e**(3*x - 1)", "log(2*x)", "log(x)**2", "1/log(x)", "sin(x/2 + 1)", "cos(pi*x)", "sec(2*x)",
    "asin(2*x)", "atan(x/2)", "1/(x**2 + 4)", "1/(4*x**2 + 1)", "1/(9 - x**2)", "sqrt(4 - x**2)", "1/sqrt(9 - 4*x**2)", "1/(x**2 - 4)", "1/((x + 1)*(x + 2))",
    "(x**2 + x + 1)", "(x - 5)**3", "1/(x + 1)**2", "1/(x**2 + 2*x + 1)", "1/sqrt(x**2 + 2*x + 1)", "sqrt(2*x - 1)", "1/sqrt(x + 4)", "(x**3 + 1)", "e**sqrt(x)", "sin(log(x))", "cos(x)**4",
    "sin(x)**4", "tan(x)**3", "sec(x)**3", "sec(x)**4", "cot(x)**2", "csc(x)**3", "1/(1 + sin(x))", "e**(-x**2)", "1/(y + x)", "cos(y*x + 1)", "1/(x**2 + y**2)",
]


# inputs of a known finding of C09 (known_findings.txt); only C09 explores them, so that it is reported once
KNOWN = ["1/sqrt((3*x - 1)**2 + 2*(3*x - 1) + 1)", "1/sqrt((x/3 - 1)**2 + 2*(x/3 - 1) + 1)"]


def linear(a, t):
    """a with x replaced by t"""
    out = []
    i = 0
    while i < len(a):
        ch = a[i]
        if ch == "x" and (i == 0 or not (a[i - 1].isalnum() or a[i - 1] == "_")) and (i + 1 == len(a) or not (a[i + 1].isalnum() or a[i + 1] == "_")):
            out.append("(%s)" % t)
        else:
            out.append(ch)
        i += 1
    return "".join(out)


def families():
    """the shapes a calculus course asks for, each enumerated over its small parameters"""
    out = []
    for m in range(0, 5):
        for n in range(0, 5):
            if m + n:
                out.append("sin(x)**%d*cos(x)**%d" % (m, n))
                out.append("tan(x)**%d*sec(x)**%d" % (m, n))
    for n in range(1, 4):
        for f in ("e**x", "e**(-x)", "e**(3*x)", "sin(x)", "cos(x)", "sin(2*x)", "cos(pi*x)", "log(x)", "2**x"):
            out.append("x**%d*%s" % (n, f))
    for a in (1, 2, -3):
        for b in (1, 2, 3):
            out.append("e**(%d*x)*sin(%d*x)" % (a, b))
            out.append("e**(%d*x)*cos(%d*x)" % (a, b))
            out.append("sin(%d*x)*cos(%d*x)" % (abs(a), b))
            out.append("sin(%d*x)*sin(%d*x)" % (abs(a), b))
            out.append("cos(%d*x)*cos(%d*x)" % (abs(a), b))
    for p in (-3, -2, -1, 1, 2, 3):
        for q in (-2, 1, 3):
            if p != q:
                for num in ("1", "x", "(2*x + 1)"):
                    out.append("%s/((x + %d)*(x + %d))" % (num, p, q))
    for p, q in itertools.product((0, 1, 2, 4, -6), (1, 5, 13, -7, -11)):
        for num in ("1", "x", "(x + 3)"):
            out.append("%s/(x**2 + %d*x + %d)" % (num, p, q))
            out.append("%s/sqrt(x**2 + %d*x + %d)" % (num, p, q))
            out.append("%s/sqrt(-x**2 + %d*x + %d)" % (num, p, abs(q)))
    for num in ("x**3", "x**2 + 1", "x**3 - 1", "2*x**3 + 4*x**2 - 5", "x - 5", "x**4"):
        for den in ("x + 2", "x + 3", "1 - x", "x**2 + 1", "1 - x**2", "2*x + 4", "x**2 - 4"):
            out.append("(%s)/(%s)" % (num, den))
    for n in (2, 3):
        for f in ("e**(x**%d)" % n, "sin(x**%d)" % n, "1/sqrt(1 - x**%d)" % n, "sqrt(x**%d + 1)" % n, "1/(1 + x**%d)" % n, "(x**%d + 1)**6" % n, "cos(3*x**%d)" % n):
            out.append("x**%d*%s" % (n - 1, f))
            out.append("5*x**%d*%s" % (n - 1, f))
    for k in ("2", "F(1, 2)", "1/2", "y", "pi"):
        for f in ("asin(%s*x)", "atan(%s*x)", "1/(1 + (%s*x)**2)", "1/sqrt(1 - (%s*x)**2)", "e**(%s*x)", "sec(%s*x)**2", "tan(%s*x)", "log(%s*x)", "x*e**(%s*x)", "x*sin(%s*x)", "(x + %s)**3", "1/(x + %s)", "x/(x + %s)"):
            out.append(f % ("(" + k + ")"))
    out += [
        "asin(x/6)/sqrt(1 - x**2/36)", "atan(x/2)/(1 + x**2/4)", "sqrt(x)*(1 - sqrt(x))", "(1 + sqrt(x))**2", "log(x)/x", "log(x)**2/x", "1/(x*log(x))", "log(x)/x**2",
        "asin(x)/sqrt(1 - x**2)", "atan(x)/(1 + x**2)", "e**x/(1 + e**x)", "e**x*(1 + e**x)**3", "sin(x)*e**cos(x)", "cos(x)*sin(x)**5", "sec(x)**2*tan(x)**3", "sin(x)/(1 + cos(x))",
        "cos(x)/(1 + sin(x)**2)", "x*(x + 1)**5", "x*sqrt(x + 1)", "x*(2*x - 5)**4", "-5*x**4/(1 - x**2)**F(5, 2)", "x**2/(1 - x**2)**F(3, 2)", "(1 - x**2)**F(3, 2)", "x**3/sqrt(1 - x**2)",
        "x**2*sqrt(1 - x**2)", "1/(x**2*sqrt(1 - x**2))", "1/(1 + x**2)**2", "x**2/(1 + x**2)**2", "log(x + 6)/x**2", "x*log(x)", "x**2*log(x)", "x*log(x + 1)", "x*atan(x)", "x**2*atan(x)", "x*asin(x)",
        "sec(x)*tan(x)", "sec(2*x)*tan(2*x)", "csc(x)*cot(x)", "5*csc(x)**2", "sin(x)*cos(2*x)*sin(2*x)", "cos(y*x - 1)*cos(y*x)", "(x/90*(x - 5)**2/350)", "1/(e**x + e**(-x))", "e**(2*x + 1)*x",
    ]
    return out


def integrands(tier):
    """one list, simplest first; quick is a prefix-like subset of thorough"""
    out = list(ATOMS) + MORE
    fam = families()
    pairs = ["(%s)*(%s)" % p for p in itertools.combinations_with_replacement(ATOMS, 2)]
    sums = ["(%s) + (%s)" % p for p in itertools.combinations(ATOMS, 2)]
    lin = [linear(a, t) for t in ("2*x", "x + 1", "x/3 - 1", "-x", "y*x + 2") for a in ATOMS + MORE]
    if tier == "quick":
        out += fam + lin[::2] + pairs[::2] + sums[::6]
    else:
        out += fam + lin + pairs + sums
        big = ATOMS + MORE
        out += ["(%s)*(%s)" % p for p in itertools.product(ATOMS, MORE)]
        out += ["(%s)*(%s)" % p for p in itertools.combinations_with_replacement(MORE, 2)]
        out += ["(%s)/(%s)" % p for p in itertools.permutations(ATOMS, 2)]
        out += ["(%s) - 2*(%s)" % p for p in itertools.product(ATOMS, MORE)]
        out += [linear(a, t) for t in ("3*x - 1", "1 - x/2", "x + y", "pi*x") for a in fam]
        out += ["(%s)*(%s)*(%s)" % p for p in itertools.combinations(ATOMS[:26], 3)]
    seen = set(KNOWN)
    res = []
    for t in out:
        if t not in seen:
            seen.add(t)
            res.append(t)
    return res
