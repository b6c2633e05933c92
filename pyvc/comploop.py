"""A list comprehension whose element expression has effects, as a loop."""


def comp_loop(it, out, f):
    for x in it:
        out.append(f(x))
