"""Drivers executed by the verifier together with the real code: histories of any length."""


def play(w, ops, act):
    """ops: sequence of booleans, True = reset, False = step"""
    for op in ops:
        if op:
            w.reset()
        else:
            w.step(act)


def steps(w, n, act):
    for _ in range(n):
        w.step(act)
