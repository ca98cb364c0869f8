"""C18: the LaTeX form, read by an independent reader, has the expression's value.

Same space as C17; the text must be balanced LaTeX of the commands used for formulas, and read with the usual conventions
it must have the expression's value at 6 points."""
from simpy import latex

from mc import reader
from mc.checks import c17

ID = "C18"
LEVEL = "model_checking"
RULE = "state = expression; transition = LaTeX output of the real code, read back by an independent reader; value compared at 6 points"
ASSUMPTIONS = ["a name and a following bracket are a function's argument, \\sin(x)^2 is the square of the sine"]
stage_tasks = c17.stage_tasks
PRINTERS = [("latex()", lambda ex: ex.latex()), ("latex(...)", latex)]




def run(task, acc):
    old = c17.one
    c17.one = lambda a, t, ex: old(a, t, ex, PRINTERS, lambda s: reader.Latex(s).parse())
    try:
        c17.run(task, acc)
    finally:
        c17.one = old
