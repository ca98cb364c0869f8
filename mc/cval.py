"""Complex principal values, for answers that are real only as a whole (ln of a negative number minus another one).

Odd roots of negative reals are real, as everywhere in simpy. No error bounds: callers compare loosely."""
import cmath
import math


class Undefined(Exception):
    pass


def ev(e, env):
    n = e.__class__.__name__
    if n == "Symbol":
        return complex(env[e.name][0])
    if n == "Rat":
        return complex(float(e.value))
    if n == "Float":
        return complex(e.value)
    if n == "Pi":
        return complex(math.pi)
    if n == "E":
        return complex(math.e)
    if n == "Sum":
        return sum(ev(t, env) for t in e.terms)
    if n == "Prod":
        out = 1
        for t in e.terms:
            out *= ev(t, env)
        return out
    try:
        if n == "Power":
            b = ev(e.base, env)
            x = ev(e.exponent, env)
            if e.exponent.__class__.__name__ == "Rat" and e.exponent.value.denominator % 2 and e.exponent.value.denominator > 1 and b.imag == 0 and b.real < 0:
                return (-1) ** e.exponent.value.numerator * (-b) ** x
            return b**x
        if n == "log":
            r = cmath.log(ev(e.inner, env))
            return r if e.base.__class__.__name__ == "E" else r / cmath.log(ev(e.base, env))
        u = ev(e.inner, env)
        if n == "Abs":
            return complex(abs(u))
        if n in ("sec", "csc", "cot"):
            return 1 / {"sec": cmath.cos, "csc": cmath.sin, "cot": cmath.tan}[n](u)
        return getattr(cmath, n)(u)
    except (ArithmeticError, ValueError, AttributeError) as ex:
        raise Undefined(str(ex))


def real(e, env):
    """the real value as a val pair, None if undefined or not real"""
    try:
        v = ev(e, env)
    except (Undefined, ArithmeticError, ValueError):
        return None
    if v != v or abs(v.imag) > 1e-7 * (1 + abs(v)):
        return None
    return (v.real, 1e-9 * (1 + abs(v)))
