"""The Python engine: one function per property, each a property-based test over random models."""
import operator
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import numpy as np  # noqa: E402

import pbt  # noqa: E402
from gen import World, N, show, REFUSALS, S  # noqa: E402,F401
from pbt import Violation  # noqa: E402
import modes_model as mm  # noqa: E402
import modes_gen as mg  # noqa: E402
import modes_bad as mb
import modes_deep as md  # noqa: E402


def evaluate_states(w, nstates, rounds=1):
    """Sets every decision of every state and compares all symbols with NumPy."""
    src, info, m = w.src, w.info, w.model
    m.states.resize(nstates)
    last = {}
    with m.lock():
        for r in range(rounds):
            for i in range(nstates):
                asg = w.assignment()
                if i in last:  # change only some of the decisions
                    asg = [a if src.chance(1, 2) else b for a, b in zip(asg, last[i])]
                last[i] = asg
                info.steps += 1
                if info.verbose:
                    info.log(f"  state {i}: " + "; ".join(f"{d.kind}={show(a)}" for d, a in zip(w.decs, asg)))
                w.set_all(asg, i)
                w.check_state(i, asg)
        for i in range(nstates):
            w.check_state(i, last[i], where="after the other states were set")
    return last


def c08(src, info):
    w = World(src, info)
    w.start((1, 3), (0, 3))
    w.grow(World.ARITH * 3 + ["basic_index", "advanced_index", "reshape_op", "size_op"], src.range(1, 10))
    w.check_meta()
    if src.chance(1, 3):
        constants(w)
    last = evaluate_states(w, src.range(1, 2), src.range(1, 2))
    if src.chance(1, 3):
        # building more never changes the value of what is there
        w.grow(World.ARITH, src.range(1, 4))
        w.check_meta()
        with w.model.lock():
            for i, asg in last.items():
                asg = asg + [d.random(src) for d in w.decs[len(asg):]]
                w.set_all(asg[len(last[i]):] and asg, i)
                w.check_state(i, asg, where="after more symbols were added")
    info.nontrivial = sum(n.kind == "op" for n in w.nodes) >= 2


def constants(w):
    """Constants behave as the NumPy arrays they were made from."""
    s, info = w.src, w.info
    for n in w.nodes:
        if n.kind != "const" or n.sym is None or not s.chance(1, 3):
            continue
        a, c = n.const, n.sym
        got = np.asarray(c)
        mm.check(info, got.shape == a.shape and got.dtype == float and got.tobytes() == a.tobytes() and (not got.flags.writeable or not got.size),
                 "constant-buffer", lambda: f"the buffer of {n!r} = {n.name} is {got!r}")
        mm.check(info, memoryview(c).tolist() == a.tolist() and memoryview(c).format == "d", "constant-view", f"memoryview of {n!r}")
        k = s.draw(5)
        v = (a if a.size == 0 else float(a.flat[s.draw(a.size)]), s.range(-5, 5), np.float64(s.range(-20, 20) / 4),
             a.copy(), a.tolist() if a.size else 0.5)[k]
        op = s.pick([operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge])
        want = op(a, v)
        got = op(c, v)
        mm.check(info, np.array_equal(np.asarray(got), np.asarray(want)) and np.shape(got) == np.shape(want), "constant-compare",
                 lambda: f"{n!r} = {n.name} {op.__name__} {v!r} is {got!r}, NumPy says {want!r}")
        if isinstance(v, (np.ndarray, float)) and s.chance(1, 2):
            got = op(v, c)
            want = op(v, a)
            mm.check(info, np.array_equal(np.asarray(got), np.asarray(want)), "constant-compare-right",
                     lambda: f"{v!r} {op.__name__} {n!r} = {n.name} is {got!r}, NumPy says {want!r}")
        if s.chance(1, 4):
            big = s.pick([2.0 ** 62, 2.0 ** 63, -2.0 ** 63, 1e18, 1e19, -1e300, 2.0 ** 64 + 4096, 12345678901234567.0, -0.0, float("inf"), float("nan")])
            c, a = w.model.constant(big), np.asarray(big)
        for f in (bool, operator.index, int):
            try:
                want = f(a) if f is bool else f(a.item()) if f is int else int(a.item()) if a.item() == int(a.item()) else None
            except (ValueError, TypeError, OverflowError):
                want = None
            if a.shape != () or (f is int and want is not None and want != a.item()):
                want = None
            try:
                got = f(c)
            except (ValueError, TypeError, OverflowError):
                got = None
            mm.check(info, got == want and type(got) is type(want), "constant-" + f.__name__,
                     lambda: f"{f.__name__} of the constant {a!r} is {got!r}, expected {want!r}")


def c09(src, info):
    w = World(src, info)
    w.start((1, 3), (1, 3))
    w.grow(World.INDEX * 4 + ["binary_op", "unary_op", "reduce_op", "where_op"], src.range(1, 9))
    w.check_meta()
    evaluate_states(w, src.range(1, 2), src.range(1, 2))
    # out-of-range requests are refused
    for _ in range(src.range(0, 3)):
        x = w.pick(lambda n: n.shape)
        if x is None:
            break
        before = w.model.num_nodes()
        ax = src.draw(len(x.shape))
        if x.shape[ax] == -1:
            continue
        d = x.shape[ax]
        i = d + src.draw(3) if src.chance(1, 2) else -d - 1 - src.draw(3)
        if src.chance(1, 20):
            i = src.pick([2 ** 62, -2 ** 62, 2 ** 31, -2 ** 63])
        t = (slice(None),) * ax + (i,)
        info.log(f"  {x!r}[{t}] must be refused")
        refuse(w, "integer index out of range", lambda: x.sym[t], before)
        if d and not x.dyn:
            lo, hi = (0, d) if src.chance(1, 2) else (-1 - d, d - 1)
            idx = w.model.integer(2, lo, hi)
            before = w.model.num_nodes()
            info.log(f"  {x!r} indexed on axis {ax} by integers in [{lo}, {hi}] must be refused")
            refuse(w, "array index out of range", lambda: x.sym[(slice(None),) * ax + (idx,)], before)
        if src.chance(1, 3):
            t = (slice(None),) * (len(x.shape) + 1)
            refuse(w, "too many indices", lambda: x.sym[t], before if not x.dyn and not d else w.model.num_nodes())
        if not x.dyn:
            n = x.size + src.range(1, 3)
            refuse(w, "reshape to another size", lambda: x.sym.reshape(n), w.model.num_nodes())
    info.nontrivial = sum(n.kind == "op" for n in w.nodes) >= 1


def refuse(w, what, f, before):
    w.info.checks += 1
    try:
        f()
    except REFUSALS + (OverflowError, RuntimeError):
        w.info.refused += 1
        if w.model.num_nodes() != before:
            raise Violation("refusal-effect:" + what, f"{what}: refused, but {w.model.num_nodes() - before} symbols were added")
        return
    raise Violation("accepted:" + what, f"{what} was accepted")


MODES = {"C08": c08, "C09": c09, "C10": mm.c10, "C11": mm.c11, "C12": mm.c12, "C13": mm.c13, "C14": mm.c14,
         "C15": mm.c15, "C16": mm.c16, "C17": mg.c17, "C18": mb.c18, "C19": mb.c19,
         "C20": md.c20, "C18/asan": mb.c18, "C19/asan": mb.c19}

if __name__ == "__main__":
    sys.exit(pbt.main(MODES))
