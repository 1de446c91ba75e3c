"""C18 (invalid requests, damaged files) and C19 (lifetimes); run with AddressSanitizer."""
import copy
import gc
import io
import json
import operator
import pickle
import re
import struct
import weakref
import zipfile

import numpy as np

import dwave.optimization as dwo
from dwave.optimization import Model
from dwave.optimization.states import States

from gen import World, show, REFUSALS, S
from modes_model import check, fill, goals, graph_view, params, read, structure
from pbt import Violation, Discard

REFUSED = (Exception,)


def edges(m):
    return m.num_nodes(), m.num_edges(), m.num_decisions(), m.num_constraints()


class Snapshot:
    """Everything observable about a model, without changing it."""

    def __init__(self, w, info):
        self.w, self.info = w, info
        self.graph = self.unordered(graph_view(w.model, info))
        self.params = {s.id(): (type(s), params(s), s.shape() if isinstance(s, dwo.model.ArraySymbol) else None)
                       for s in w.model.iter_symbols()}
        self.light = self.read()

    @staticmethod
    def unordered(g):
        # locking sorts the symbols, which is not observable otherwise
        return set(g[0]), g[1], g[2], g[3]

    def read(self):
        m = self.w.model
        vals = []
        for i in range(m.states.size()):
            for d in self.w.decs:
                vals.append(read(d, i) if d.sym.has_state(i) and (d.kind not in ("bitsets", "lists") or m.is_locked()) else d.sym.has_state(i))
        obj = None if m.objective is None else m.objective.id()
        return (edges(m), m.is_locked(), m.states.size(), obj, [c.id() for c in m.iter_constraints()]), vals

    def same_values(self, a, b):
        def eq(x, y):
            if isinstance(x, bool) or isinstance(y, bool):
                return x is y
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                return len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
            return np.array_equal(np.asarray(x), np.asarray(y))
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))

    def verify(self, what, full=False):
        info = self.info
        now = self.read()
        check(info, now[0] == self.light[0], "effect:" + what, lambda: f"{what} was refused but changed the model from {self.light[0]} to {now[0]}")
        check(info, self.same_values(now[1], self.light[1]), "effect-states:" + what, lambda: f"{what} was refused but changed states")
        if full:
            check(info, self.unordered(graph_view(self.w.model, info)) == self.graph, "effect-graph", f"the graph changed by {what}")
            now = {s.id(): (type(s), params(s), s.shape() if isinstance(s, dwo.model.ArraySymbol) else None)
                   for s in self.w.model.iter_symbols()}
            check(info, now == self.params, "effect-params", "parameters changed")


def invalid_requests(w, src, info):
    """One surely invalid request: (description, callable), or None if it does not apply here."""
    m = w.model
    n = w.pick()
    x = n.sym
    ns = m.states.size()
    k = src.draw(14)
    if k == 0:      # symbols of another model
        o = Model()
        shape = n.shape if not n.dyn else (2,)
        y = o.binary(shape) if src.chance(1, 2) else o.constant(np.ones(shape))
        sc = o.binary(())
        idx = o.integer(2, 0, 0)
        z = src.draw(16)
        what = f"a symbol of another model, request {z} on {n!r}"
        return what, [
            lambda: x + y, lambda: y * x, lambda: x <= y, lambda: S.NaryAdd(x, y), lambda: S.NaryMultiply(y, x),
            lambda: S.Where(sc, x, x), lambda: S.Maximum(x, y), lambda: S.And(y, x),
            lambda: S.NaryMaximum(x, x, y), lambda: S.Concatenate((x, y)), lambda: x[idx] if n.shape and n.shape[0] else None + 1,
            lambda: m.minimize(sc), lambda: m.add_constraint(sc), lambda: S.Equal(y, x), lambda: S.Modulus(x, y),
            lambda: S.Subtract(x, sc)][z]
    if k == 1:      # shapes that do not fit
        if n.dyn:
            c = m_const(w, (n.smax + 2 if n.smax is not None else 7,))
            z = src.draw(5)
            return f"a dynamic array with an array of another shape, request {z} on {n!r}", [
                lambda: x + c, lambda: c - x, lambda: S.NaryAdd(x, c), lambda: S.Maximum(c, x), lambda: x.reshape(1)][z]
        if n.size == 1:
            return None
        c = m_const(w, (n.size + 2,))
        b = w.pick(lambda a: not a.dyn and a.size == 1)
        z = src.draw(9)
        return f"arrays of different shapes, request {z} on {n!r}", [
            lambda: x + c, lambda: c <= x, lambda: S.Maximum(x, c), lambda: S.NaryAdd(x, c), lambda: S.NaryMinimum(c, x, x),
            lambda: S.Where(b.sym, x, c) if b is not None else None + 1, lambda: S.Xor(c, x),
            lambda: S.Where(c, x, x), lambda: S.NaryMultiply(x, x, c)][z]
    if k == 2:      # axes
        d = len(n.shape)
        a = src.pick([d, d + 3, -d - 1, -d - 7, 2 ** 31 - 1, -2 ** 31, 2 ** 62, 2 ** 70, "x"])
        if src.chance(1, 2) or n.dyn:
            return f"{n!r}.sum(axis={a!r})", lambda: x.sum(axis=a)
        if a == "x" or (isinstance(a, int) and not 0 <= a < d):
            return f"concatenate of {n!r} on axis {a!r}", lambda: S.Concatenate((x, x), a)
        return None
    if k == 3:      # reshape
        if n.dyn:
            return f"{n!r} (dynamic).reshape(2)", lambda: x.reshape(2)
        z = src.draw(6)
        s = [(n.size + 1,), (-1, -1), (-2,), (n.size, 2) if n.size else (1,), (2 ** 62, 4) if n.size else (3, 3), (n.size + 1, -1)][z]
        if n.size and z == 5 or z != 5:
            return f"{n!r}.reshape({s})", lambda: x.reshape(s)
        return None
    if k == 4:      # domains of operations
        z = src.draw(5)
        if z == 0:
            c = w.pick(lambda a: a.kind == "decision" and a.cls in ("BinaryVariable", "ListVariable", "SetVariable"))
            if c is None or n.dyn or c.dyn or (c.shape != n.shape and c.size != 1) or c.size == 0:
                return None
            return f"division by {c!r}, which can be zero", lambda: x / c.sym
        if z == 1:
            c = w.pick(lambda a: a.cls == "IntegerVariable" and a.lo < 0)
            return None if c is None else (f"sqrt of {c!r}, which can be negative", lambda: dwo.sqrt(c.sym))
        if z == 2:
            c = w.pick(lambda a: not a.dyn and a.size == 0)
            return None if c is None else (f"maximum of the empty {c!r}", c.sym.max if src.chance(1, 2) else c.sym.min)
        if z == 3:
            e = src.pick([-1, -5, 1.5, "a", None, 2 ** 70])
            return f"{n!r} ** {e!r}", lambda: x ** e
        if n.kind == "const":
            return None         # NumPy may know what to do with it
        e = src.pick(["a", None, object(), {}, [1, 2], 1j])
        z = src.draw(5)
        return f"{n!r} and {type(e).__name__}, request {z}", [
            lambda: x + e, lambda: x * e, lambda: x <= e, lambda: S.NaryAdd(x, e), lambda: S.Where(x, x, e)][z]
    if k == 5:      # indices
        d = len(n.shape)
        z = src.draw(9)
        if z == 8 and d >= 2 and not n.dyn and n.size:
            c = w.pick(lambda a: not a.dyn and a.size and (a.lo < 0 or a.hi > 100))
            b = src.draw(d)
            i = src.range(-n.shape[b], n.shape[b] - 1) if src.chance(1, 2) else slice(0, src.range(0, n.shape[b]))
            t = tuple(i if a == b else c.sym if c is not None and a == (b + 1) % d else slice(None) for a in range(d))
            return None if c is None else (f"{n!r}, {i} on axis {b} and {c!r} in [{c.lo}, {c.hi}] on the next", lambda: x[t])
        if z == 0:
            return f"too many indices for {n!r}", lambda: x[(slice(None),) * (d + 1)]
        if z == 1:
            e = src.pick([None, "a", 1.5, {}, object(), b"x"])
            return f"{n!r}[{e!r}]", lambda: x[e]
        if z == 2 and d:
            a = src.draw(d)
            if n.shape[a] == -1:
                return None
            i = src.pick([n.shape[a], -n.shape[a] - 1, 2 ** 31, -2 ** 31, 2 ** 63 - 1, -2 ** 63, 2 ** 80])
            return f"{n!r}, index {i} on axis {a}", lambda: x[(slice(None),) * a + (i,)]
        if z == 3 and d:
            return f"{n!r}[::0]", lambda: x[::0]
        if z == 4 and d:
            return f"{n!r}[::'a']", lambda: x[src.pick([slice("a"), slice(0.5, None), slice(None, None, 1.5), slice(2 ** 70, None, 0)])]
        if z == 5 and d:
            c = w.pick(lambda a: a.kind == "const" and a.k != 0 and a.shape and a.size and not np.all(np.asarray(a.sym) == np.round(np.asarray(a.sym))))
            return None if c is None else (f"{n!r} indexed by the fractional {c!r}", lambda: x[c.sym])
        if z == 6 and d and not n.dyn and n.size:
            c = w.pick(lambda a: a.cls == "IntegerVariable" and len(a.shape) == 1 and a.size and (a.lo < 0 or a.hi >= n.shape[0]))
            return None if c is None else (f"{n!r} indexed by {c!r} in [{c.lo}, {c.hi}]", lambda: x[c.sym])
        if z == 7:
            return f"bool({n!r})", (lambda: bool(x)) if n.kind != "const" else (lambda: bool(None + 1))
        return None
    if k == 6:      # new decisions and constants
        z = src.draw(24)
        name = ["binary(-1)", "binary((2,-1))", "integer(lower>upper)", "integer(huge)", "integer(nan)", "list(-1)", "set(-1)",
                "set(3,2,1)", "set(3,-1)", "set(3,0,4)", "disjoint_bit_sets(-1,2)", "disjoint_bit_sets(3,-1)",
                "disjoint_lists(-1,2)", "disjoint_lists(3,-1)", "constant(text)", "constant(ragged)", "constant(object)",
                "constant(complex)", "integer(shape -3)", "list(2.5)", "binary('a')", "constant(None-list)",
                "integer(no integer in bounds)", "integer('1','2')"][z]
        return name, [
            lambda: m.binary(-1), lambda: m.binary((2, -1)), lambda: m.integer(2, 5, 1), lambda: m.integer(2, -2 ** 60),
            lambda: m.integer(2, float("nan")), lambda: m.list(-1), lambda: m.set(-1), lambda: m.set(3, 2, 1),
            lambda: m.set(3, -1), lambda: m.set(3, 0, 4), lambda: m.disjoint_bit_sets(-1, 2), lambda: m.disjoint_bit_sets(3, -1),
            lambda: m.disjoint_lists(-1, 2), lambda: m.disjoint_lists(3, -1), lambda: m.constant("a"),
            lambda: m.constant([[1, 2], [3]]), lambda: m.constant(object()), lambda: m.constant([1j]),
            lambda: m.integer((-3,)), lambda: m.list(2.5), lambda: m.binary("a"), lambda: m.constant([[], [1]]),
            lambda: m.integer(2, 0.25, 0.75), lambda: m.integer(2, "1", "2")][z]
    if k == 7:      # states
        z = src.draw(9)
        d = src.pick(w.decs)
        i = ns + src.draw(3) if src.chance(1, 2) else -ns - 1 - src.draw(3)
        if src.chance(1, 8):
            i = src.pick([2 ** 31, -2 ** 31, 2 ** 62, -2 ** 63, 2 ** 70])
        o = w.pick(lambda a: a.kind == "op")
        if z == 5:
            return None         # None in a model that is not sorted
        if z == 4 and (o is None or m.is_locked()):
            return None
        if z == 8 and (not m.is_locked() or not m.num_constraints()):
            return None
        legal = d.random(src)
        return f"state {i} of {ns}, request {z}", [
            lambda: d.sym.set_state(i, d.copy(legal)), lambda: d.sym.reset_state(i), lambda: d.sym.has_state(i),
            lambda: m.states.resize(src.pick([-1, -100, 2 ** 62, "a", 1.5, None])),
            lambda: o.sym.state(0), None, lambda: x.state(i) if n.kind != "const" else None + 1,
            lambda: d.sym.set_state(0, src.pick(["a", None, {}, object(), [["a"]]][:4 if d.kind == "bitsets" else 5])) if ns else None + 1,
            lambda: m.feasible(i)][z]
    if k == 8:      # objective and constraints
        z = src.draw(6)
        bad = w.pick(lambda a: a.dyn or a.size != 1)
        nb = w.pick(lambda a: not a.dyn and a.size == 1 and a.kind != "op" and (a.hi > 1 or a.lo < 0))
        return f"objective or constraint {z}", [
            lambda: m.minimize(bad.sym), lambda: m.add_constraint(bad.sym), lambda: m.add_constraint(nb.sym), lambda: m.minimize(None),
            lambda: m.add_constraint(3), lambda: m.minimize("x")][z]
    if k == 9:      # quadratic models
        if n.dyn or len(n.shape) != 1 or not n.size:
            return f"quadratic model of {n!r}", lambda: m.quadratic_model(x, {(0, 0): 1})
        q = n.size
        z = src.draw(12)
        return f"quadratic model of {n!r}, request {z}", [
            lambda: m.quadratic_model(x, {(0, q): 1}), lambda: m.quadratic_model(x, {(-1, 0): 1}),
            lambda: m.quadratic_model(x, {}), lambda: m.quadratic_model(x, ([1.0], ([0], [q]))),
            lambda: m.quadratic_model(x, ([1.0], ([-1], [0]))), lambda: m.quadratic_model(x, ([1.0, 2.0], ([0], [0]))),
            lambda: m.quadratic_model(x, ([1.0], ([0], [0], [0]))), lambda: m.quadratic_model(x, ([1.0], [0])),
            lambda: m.quadratic_model(x, {(0, 0): 1}, {q: 1.0}), lambda: m.quadratic_model(x, ([1.0], ([0], [0])), np.ones(q + 1)),
            lambda: m.quadratic_model(x, {(0, 0): "a"}), lambda: m.quadratic_model(x, 3)][z]
    if k == 10:     # parts of collections, permutations
        z = src.draw(5)
        if z < 3:
            d = next((d for d in w.decs if d.kind in ("bitsets", "lists")), None)
            if d is None:
                return None
            cls = S.DisjointBitSet if d.kind == "bitsets" else S.DisjointList
            i = [-1, len(d.nodes), len(d.nodes) + 2 ** 40][z]
            return f"{cls.__name__} {i} of {len(d.nodes)}", lambda: cls(d.sym, i)
        lst = w.pick(lambda a: a.cls == "ListVariable")
        c = w.pick(lambda a: a.kind == "const" and (lst is None or not a.shape or any(k != lst.size for k in a.shape)))
        if lst is None or c is None:
            return None
        if z == 3:
            return f"permutation of {c!r} by {lst!r}", lambda: S.Permutation(c.sym, lst.sym)
        return f"permutation of {n!r}", (lambda: S.Permutation(x, lst.sym)) if n.kind != "const" else (lambda: S.Permutation(lst.sym, lst.sym))
    if k == 11:     # files
        z = src.draw(8)
        junk = bytes(src.draw(256) for _ in range(src.draw(40)))
        return f"file request {z}", [
            lambda: m.into_file("/nonexistent-directory/x.nl"), lambda: Model.from_file("/nonexistent-directory/x.nl"),
            lambda: Model.from_file(io.BytesIO(junk)), lambda: Model.from_file(io.BytesIO(b"DWNL" + junk)),
            lambda: m.states.from_file(io.BytesIO(junk)), lambda: Model.from_file(None),
            lambda: m.into_file(io.BytesIO(), max_num_states="a"), lambda: m.states.from_file(b"DWNL")][z]
    if k == 12:     # copies of symbols are not symbols
        z = src.draw(4)
        return f"copy {z} of {n!r}", [lambda: copy.copy(x), lambda: copy.deepcopy(x), lambda: pickle.dumps(x),
                                      lambda: type(x)()][z]
    # additions to a locked model
    z = src.draw(8)
    what = f"addition {z} to the locked model"
    calls = [lambda: m.binary(1), lambda: m.constant(3), lambda: x + x, lambda: x.sum(), lambda: m.disjoint_lists(2, 2),
             lambda: S.Logical(x), lambda: m.remove_unused_symbols(), lambda: m.set(3)]

    def call():
        with m.lock():
            calls[z]()
    return what, call


CLASSES = [c for c in S.__all__ if isinstance(getattr(S, c, None), type)]
MATH = [f for f in ("add", "concatenate", "divide", "logical", "logical_and", "logical_not", "logical_or", "logical_xor",
                    "maximum", "minimum", "mod", "multiply", "sqrt", "where") if hasattr(dwo, f)]
OPERATORS = ["add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "le", "ge", "lt", "gt", "eq", "and_", "or_", "matmul",
             "neg", "abs", "pos", "invert", "getitem", "index", "length_hint", "truth"]
METHODS = ["all", "any", "max", "min", "prod", "sum", "reshape", "size", "maybe_equals", "equals", "shares_memory",
           "has_state", "set_index", "list_index", "num_disjoint_sets", "num_disjoint_lists", "axis", "axes", "get_linear",
           "get_quadratic", "num_interactions", "lower_bound", "upper_bound", "_from_symbol", "topological_index",
           "iter_predecessors", "strides", "state_size"]
MODEL = ["binary", "integer", "list", "set", "constant", "disjoint_bit_sets", "disjoint_lists", "quadratic_model", "num_edges",
         "iter_symbols", "feasible"]


def random_argument(w, src, foreign, depth=0):
    s = src
    k = s.draw(22 if depth < 2 else 14)
    if k <= 6:
        return w.pick().sym
    if k == 7:
        return s.range(-2, 6)
    if k == 8:
        return s.pick([2 ** 31, -2 ** 31 - 1, 2 ** 40, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 80, 2 ** 32])
    if k == 9:
        return s.pick([0.5, 1.0, 2.0, -3.0, float("nan"), float("inf"), 1e300, np.float64(2), np.int8(1), np.bool_(True), True])
    if k == 10:
        return s.pick([None, "a", "0", b"x", {}, object(), Ellipsis, int, 1j, w.model])
    if k == 11:
        return s.pick(foreign)
    if k == 12:
        b = lambda: s.pick([None, None, 0, 1, 2, -1, -3, 7, 2 ** 40, -2 ** 70, 0.5, "a"])
        return slice(b(), b(), b())
    if k == 13:
        return s.pick(ARRAYS)(s)
    n = s.range(0, 3)
    if k <= 17:
        return tuple(random_argument(w, s, foreign, depth + 1) for _ in range(n))
    if k <= 19:
        return [random_argument(w, s, foreign, depth + 1) for _ in range(n)]
    if k == 20:
        return {(s.range(-1, 3), s.range(-1, 3)): s.range(-2, 2) for _ in range(n)}
    return (np.arange(float(n)), (list(range(n)), [s.range(-1, 2) for _ in range(n)]))


def flat(v):
    for x in v:
        if isinstance(x, (tuple, list)):
            yield from flat(x)
        else:
            yield x


def arbitrary_requests(w, src, info, count):
    """Any call with any arguments either works, leaving what was there as it was, or is refused without effect."""
    m = w.model
    o = Model()
    foreign = [o.binary(2), o.constant(1.0), o.list(3), o.disjoint_lists(2, 2)[1][0]]
    for _ in range(count):
        kind = src.draw(6)
        name = src.pick([CLASSES, CLASSES, MATH, OPERATORS, METHODS, MODEL][kind])
        x = w.pick().sym
        # mostly as many arguments as usual
        arity = {"neg": 1, "abs": 1, "pos": 1, "invert": 1, "index": 1, "length_hint": 1, "truth": 1}.get(name, 2) if kind == 3 else None
        nargs = arity - 1 if arity else src.pick([1, 2, 0, 3, 4])
        args = [random_argument(w, src, foreign) for _ in range(nargs)]
        ints = [abs(int(a)) for a in flat([b.tolist() if isinstance(b, np.ndarray) else b for b in flat(args)]) if isinstance(a, (int, float, np.integer, np.bool_)) and np.isfinite(float(a))]
        if (name in ("pow", "disjoint_bit_sets", "disjoint_lists") or name.startswith("Disjoint")) and max(ints, default=0) > 6:
            continue  # as many symbols as that, if accepted
        if name == "mul" and isinstance(args[0], (tuple, list, str, bytes)):
            continue  # Python repeats sequences
        if kind <= 1:
            f = getattr(S, name)
        elif kind == 2:
            f = getattr(dwo, name)
        elif kind == 3:
            f, args = getattr(operator, name), [x] + args
        elif kind == 4:
            if not hasattr(x, name):
                continue
            f = getattr(x, name)
        else:
            f = getattr(m, name)
        what = f"{name}({', '.join(map(brief(w), args))})"
        info.steps += 1
        info.log(f"  request: {what}" + (f" of {brief(w)(x)}" if kind == 4 else ""))
        snap = Snapshot(w, info)
        info.checks += 1
        got = None
        try:
            got = f(*args)
        except (MemoryError, SystemError) as e:
            raise Violation(f"{type(e).__name__}:{name}", f"{what}: {e!r}")
        except RecursionError:
            raise
        except REFUSED as e:
            info.refused += 1
            info.f("arbitrary refused:" + name)
            info.log(f"    {e!r}"[:200])
            e = None
            snap.verify(name, full=src.chance(1, 3))
        else:
            info.f("arbitrary accepted:" + name)
            repr(got)
            ids, pred, succ, dec = graph_view(m, info)
            oids, opred, osucc, odec = snap.graph
            check(info, all(pred.get(q) == opred[q] and succ[q][:len(osucc[q])] == osucc[q] for q in oids) and dec[:len(odec)] == odec,
                  "changed:" + name, lambda: f"{what} changed symbols that were there")
            for q in flat([got]):
                if isinstance(q, dwo.model.ArraySymbol):
                    q.shape(), q.ndim(), q.strides()
                if isinstance(q, dwo.model.Symbol):
                    q.state_size()
        args = f = got = None
    if any(not 0 <= x.state_size() < 10 ** 6 or isinstance(x, dwo.model.ArraySymbol) and max(x.shape(), default=0) > 10 ** 6
           for x in m.iter_symbols()):
        raise Discard()
    graph_view(m, info)
    load = io.BytesIO()
    m.into_file(load)
    load.seek(0)
    m2 = Model.from_file(load)
    check(info, m2.num_nodes() == m.num_nodes() and m2.num_edges() == m.num_edges(), "saved-after", "the saved model differs")
    with m.lock():
        for i in range(m.states.size()):
            for x in m.iter_symbols():
                if isinstance(x, dwo.model.ArraySymbol):
                    v = x.state(i)
                    d = x.shape()
                    check(info, len(v.shape) == len(d) and all(p == q or q == -1 for p, q in zip(v.shape, d)), "shape-after",
                          lambda: f"{x!r} has {v.shape}, declared {d}")


def brief(w):
    ids = {n.sym.id(): repr(n) for n in w.nodes if n.sym is not None}

    def f(a):
        if isinstance(a, dwo.model.ArraySymbol):
            return ids.get(a.id(), f"<{type(a).__name__}>")
        if isinstance(a, tuple):
            return "(" + "".join(f(x) + "," for x in a) + ")"
        if isinstance(a, list):
            return "[" + ", ".join(map(f, a)) + "]"
        return repr(a)
    return f


def m_const(w, shape):
    return w.model.constant(np.ones(shape))


def all_values(w, i):
    """The value of every symbol in state i (the model must be locked)."""
    return [n.sym.state(i) for n in w.nodes if n.sym is not None]


def c18(src, info):
    if src.chance(1, 2):
        return c18_files(src, info)
    w = World(src, info)
    w.start((1, 4), (1, 3))
    w.grow(World.ALL, src.range(0, 7))
    goals(w, src)
    m = w.model
    ns = src.range(0, 2)
    table = fill(w, src, ns, (3, 4))
    full = [i for i in range(ns) if all(a is not None for a in table[i])]
    before = None
    if full:
        with m.lock():
            before = {i: all_values(w, i) for i in full}
    todo = src.range(1, 8)
    if src.chance(1, 3):
        arbitrary_requests(w, src, info, 2 * todo)
        todo = 0
    for _ in range(todo):
        locked = src.chance(1, 4)
        if locked:
            # some symbols for the requests are only made in the unlocked model
            r = None
            while r is None:
                r = invalid_requests(w, src, info)
        else:
            r = invalid_requests(w, src, info)
        if r is None:
            continue
        what, f = r
        info.steps += 1
        info.log(f"  {'locked: ' if locked else ''}{what}")
        kind = re.sub(r"v\d+|-?\d+|\[.*|\(.*", "", what).strip()
        if locked and what.startswith("state") and what.endswith("request 4"):
            continue
        if locked:
            m.lock()
        try:
            snap = Snapshot(w, info)
            info.checks += 1
            try:
                got = f()
            except MemoryError:
                raise Violation("memory:" + kind, what)
            except RecursionError:
                raise
            except SystemError as e:
                raise Violation("system-error:" + kind, f"{what}: {e!r}")
            except REFUSED as e:
                info.refused += 1
                info.f("refused:" + type(e).__name__)
                info.log(f"    {e!r}"[:200])
                f = r = None
                e = None
            else:
                raise Violation("accepted:" + kind, f"{what} was accepted (gave {got!r})")
            snap.verify(kind, full=src.chance(1, 4))
        finally:
            if locked:
                m.unlock()
    # everything still works as before
    graph_view(m, info)
    for i in full:
        with m.lock():
            now = all_values(w, i)
            w.check_state(i, table[i], where="after refused requests")
        check(info, len(now) == len(before[i]) and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(now, before[i])), "values-after", "values changed")
    w.grow(World.ALL, src.range(0, 2))
    m.states.resize(ns + 1)
    asg = w.assignment()
    w.set_all(asg, ns)
    with m.lock():
        w.check_state(ns, asg, where="after refused requests")
    info.nontrivial = todo != 1


# ------------------------------------------------------------------------------------- damaged files
NUMS = [0, 1, 2, 3, 5, -1, -2, 17, 1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 62, 2 ** 63, 2 ** 64, -2 ** 31, -2 ** 63, 10 ** 30]
ODD = ["1.5", "-0.25", "1e300", "-1e400", "NaN", "Infinity", "null", "true", "\"a\"", "[]", "{}", "[1,2]", ""]
ARRAYS = [lambda s: np.zeros(()), lambda s: np.zeros(0), lambda s: np.arange(3.), lambda s: np.full((2, 2), 0.5),
          lambda s: np.array([np.nan, 1]), lambda s: np.array(["a", "b"]), lambda s: np.array([1j]), lambda s: np.arange(6).reshape(2, 3),
          lambda s: np.zeros((1, 0, 2)), lambda s: np.array([2 ** 62, -1]), lambda s: np.array([True, False]),
          lambda s: np.array([1e300]), lambda s: np.zeros((1,) * 20), lambda s: np.array([-1., 5.])]


def npy(a):
    b = io.BytesIO()
    np.save(b, a)
    return b.getvalue()


# sizes that need no absurd amount of memory, and ones that cannot be sizes
SIZES = [0, 1, 2, 3, 4, 5, 7, -1, -2, 17, 300, 2 ** 63, 2 ** 64, -2 ** 31, -2 ** 63, 10 ** 30]


def mutate_text(src, b, sizes):
    """Replace a number (or all of it) in a small text entry."""
    found = list(re.finditer(rb"-?\d+(?:\.\d+)?", b))
    v = str(src.pick(SIZES if sizes else NUMS)) if src.chance(2, 3) else src.pick(ODD)
    if not found or src.chance(1, 10):
        return v.encode()
    g = src.pick(found)
    return b[:g.start()] + v.encode() + b[g.end():]


def damage_entry(src, name, b, entries, info):
    k = src.draw(6)
    if k == 0:
        info.log(f"    {name} truncated")
        return b[:src.draw(len(b))] if b else b"\x00"
    if k == 1 and b:
        p = src.draw(len(b))
        b = b[:p] + bytes([src.draw(256)]) + b[p + 1:]
        info.log(f"    {name}: byte {p} of {len(b)} changed")
        return b
    if name.endswith(".npy"):
        if k == 2:
            # the array of another entry
            others = [x for x in entries if x.endswith(".npy")]
            o = src.pick(others)
            info.log(f"    {name}: content of {o}")
            return entries[o]
        if k == 3:
            h = re.sub(rb"\d+", lambda g: str(src.pick(NUMS)).encode()[:len(g.group())].ljust(len(g.group()), b" "), b[10:128])
            info.log(f"    {name}: header changed")
            return b[:10] + h + b[128:]
        i = src.draw(len(ARRAYS))
        info.log(f"    {name}: array {i}")
        return npy(ARRAYS[i](src))
    if name == "nodetypes.txt":
        lines = b.split(b"\n")
        i = src.draw(max(1, len(lines) - 1))
        t = src.pick(sorted(S.__all__) + ["Symbol", "ArraySymbol", "_ArrayValidation", "Model", "np", "", "x y", "add"])
        info.log(f"    {name}: line {i} is {t!r}")
        lines[i] = t.encode()
        if src.chance(1, 8):
            lines.insert(i, lines[i])
        return b"\n".join(lines)
    r = mutate_text(src, b, name.endswith(("shape.json", "info.json")))
    info.log(f"    {name}: {b[:60]!r} -> {r[:60]!r}")
    return r


def sane(m, info, where):
    """A model that was loaded must behave like any other model."""
    graph_view(m, info)
    n = min(m.states.size(), 3)
    for i in range(n):
        for d in m.iter_decisions():
            if d.has_state(i):
                legal_state(d, i, m, info)
    decs = list(m.iter_decisions())
    for s in m.iter_symbols():
        if isinstance(s, dwo.model.ArraySymbol):
            sh = s.shape()
            check(info, all(x >= 0 for x in sh[1:]) and all(x >= -1 for x in sh[:1]), "loaded-shape", lambda: f"{s!r} of shape {sh} {where}")
            if sh[:1] != (-1,) and np.prod([float(x) for x in sh]) > 2e5:
                return False
        if isinstance(s, (S.ListVariable, S.SetVariable, S.DisjointBitSets, S.DisjointLists)) and s.state_size() > 10 ** 6:
            return False
        if isinstance(s, (S.DisjointBitSets, S.DisjointLists)) and len(list(s.iter_successors())) > 1000:
            return False
    if n == 0:
        m.states.resize(1)
        n = 1
    with m.lock():
        for i in range(n):
            for s in m.iter_symbols():
                if isinstance(s, dwo.model.ArraySymbol):
                    v = s.state(i)
                    sh = s.shape()
                    check(info, v.ndim == len(sh) and all(a == b or b == -1 for a, b in zip(v.shape, sh)), "loaded-state-shape",
                          lambda: f"{s!r}: state of shape {v.shape}, declared {sh}")
            for d in decs:
                legal_state(d, i, m, info)
            m.feasible(i)
    return True


def legal_state(d, i, m, info):
    def bad(v):
        raise Violation("illegal-state", f"a loaded {type(d).__name__} has the illegal state {v}")
    info.checks += 1
    if isinstance(d, S.BinaryVariable):
        v = d.state(i)
        if not np.isin(v, (0, 1)).all():
            bad(v)
    elif isinstance(d, S.IntegerVariable):
        v = d.state(i)
        if not ((v == np.round(v)) & (v >= d.lower_bound()) & (v <= d.upper_bound())).all():
            bad(v)
    elif isinstance(d, (S.ListVariable, S.SetVariable)):
        v = d.state(i)
        if len(set(v.tolist())) != v.size or not ((v == np.round(v)) & (v >= 0)).all():
            bad(v)
        if isinstance(d, S.ListVariable) and v.size and (v.size != d.shape()[0] or v.max() >= v.size):
            bad(v)


def c18_files(src, info):
    w = World(src, info)
    w.start((1, 4), (1, 3))
    w.grow(World.ALL, src.range(0, 7))
    goals(w, src)
    m = w.model
    ns = src.range(0, 2)
    table = fill(w, src, ns, (3, 4))
    only = src.chance(1, 6)
    kw = dict(max_num_states=ns, only_decision=only)
    f = m.to_file(**kw)
    data = f.read()
    hl = 10 + struct.unpack("<I", data[6:10])[0]
    ref = Model.from_file(io.BytesIO(data))
    ref_structure, ref_params = structure(ref), [params(s) for s in ref.iter_symbols()]
    with zipfile.ZipFile(io.BytesIO(data)) as zf:
        entries = {x: zf.read(x) for x in zf.namelist()}
        central = zf.start_dir
    snap = Snapshot(w, info)
    for _ in range(src.range(1, 4)):
        info.steps += 1
        kind = src.draw(8)
        strict = None       # "refused": must be refused; "same": must be refused or be the same model
        if kind == 0:
            bad = data[:src.draw(len(data))]
            strict = "refused"
            what = f"truncated to {len(bad)} of {len(data)} bytes"
        elif kind == 1:
            bad = bytearray(data)
            what = "bytes changed at"
            for _ in range(src.range(1, 3)):
                p = src.range(hl, central - 1)
                b = src.draw(255) + 1
                bad[p] ^= b
                what += f" {p}"
            bad = bytes(bad)
            strict = "same"
        elif kind == 2:
            bad = bytearray(data)
            p = src.draw(hl) if src.chance(1, 2) else src.range(central, len(data) - 1)
            bad[p] ^= src.draw(255) + 1
            bad = bytes(bad)
            what = f"byte changed at {p}"
        else:
            e = dict(entries)
            what = "entries changed"
            info.log("  damaged file:")
            for _ in range(src.pick([1, 1, 1, 2, 3])):
                names = sorted(e)
                if not names:
                    break
                weight = [x for x in names if x in ("adj.adjlist", "nodetypes.txt", "info.json", "objective.json", "constraints.json")]
                name = src.pick(weight) if weight and src.chance(1, 3) else src.pick(names)
                z = src.draw(8)
                if z == 0:
                    info.log(f"    {name} removed")
                    del e[name]
                elif z == 1:
                    other = src.pick(names)
                    info.log(f"    {name} and {other} swapped")
                    e[name], e[other] = e[other], e[name]
                else:
                    e[name] = damage_entry(src, name, e[name], entries, info)
            b = io.BytesIO()
            b.write(data[:hl])
            with zipfile.ZipFile(b, mode="w") as zf:
                for name, content in e.items():
                    zf.writestr(name, content)
            bad = b.getvalue()
        info.log(f"  damaged file: {what}")
        ch = src.chance(1, 3)
        states_only = src.chance(1, 4)
        info.checks += 1
        try:
            if states_only:
                sizes = m.states.size()
                m.states.from_file(io.BytesIO(bad), check_header=ch)
                got = None
            else:
                got = Model.from_file(io.BytesIO(bad), check_header=ch)
        except MemoryError:
            info.f("file:out of memory")
        except REFUSED as e:
            info.refused += 1
            info.f("file:" + type(e).__name__)
            info.log(f"    {e!r}"[:200])
            e = None
        else:
            info.f("file:loaded")
            check(info, strict != "refused", "accepted:truncated", f"a file {what} was loaded")
            if got is not None:
                info.log(f"    loaded, {got.num_nodes()} symbols, {got.states.size()} states")
                if strict == "same":
                    check(info, structure(got) == ref_structure and [params(s) for s in got.iter_symbols()] == ref_params,
                          "accepted:bit-flip", f"a file with {what} was loaded as another model")
                sane(got, info, what)
            else:
                # the states may have been replaced by others: they must be legal, nothing else may change
                check(info, edges(m) == snap.light[0][0], "states-file-effect", "a states file changed the model")
                for i in range(min(m.states.size(), 3)):
                    for d in m.iter_decisions():
                        if d.has_state(i):
                            legal_state(d, i, m, info)
                m.states.clear()
                m.states.resize(ns)
                for i, row in enumerate(table):
                    for d, a in zip(w.decs, row):
                        if a is not None:
                            d.sym.set_state(i, d.copy(a))
        got = None
        snap.verify("a damaged file")
    info.nontrivial = m.num_nodes() >= 3


# ------------------------------------------------------------------------------------------------ C19
def c19(src, info):
    """Random histories of keeping, dropping, collecting and reusing objects of several models."""
    objs = []      # (kind, object, check function)

    class Slot:
        def __init__(self):
            self.w = World(src, info)
            self.w.start((1, 3), (1, 3))
            self.w.grow(World.ALL, src.range(1, 6))
            goals(self.w, src)
            m = self.w.model
            self.ns = src.range(1, 2)
            m.states.resize(self.ns)
            self.asg = [self.w.assignment() for _ in range(self.ns)]
            for i, a in enumerate(self.asg):
                self.w.set_all(a, i)
            self.locked = src.chance(1, 2)
            if self.locked:
                m.lock()
            self.refs = [self.w.evaluate(a) for a in self.asg]

    slots = [Slot() for _ in range(src.range(1, 2))]

    def keep(kind, o, f):
        objs.append((kind, o, f))
        info.log(f"  keep {kind} as #{len(objs) - 1}")

    def expect(n, refs):
        """A check of a symbol that only needs the symbol itself."""
        want = [None if r[n.i] is None else np.array(r[n.i], dtype=float) for r in refs]
        err, cls, shape = n.err, n.cls, n.shape
        name, mag = f"{n!r} = {n.name}", n.mag

        def f(sym):
            m = sym.model
            check(info, not sym.expired(), "expired", f"{name} expired")
            check(info, sym.shape() == shape, "shape", f"{name} has shape {sym.shape()}")
            with m.lock():
                for i, r in enumerate(want):
                    got = np.asarray(sym.state(i))
                    info.checks += 1
                    ok = got.shape == r.shape and (np.array_equal(got, r) if err == 0 else np.allclose(got, r, rtol=1e-9, atol=1e-9 * (1 + mag)))
                    if not ok:
                        raise Violation("value:" + cls, f"{name} state {i}: {got}, expected {r}")
        return f

    def frozen(c):
        c = np.array(c)

        def f(a):
            check(info, np.array_equal(a, c, equal_nan=True), "array", lambda: f"a kept array is now {a}, it was {c}")
        return f

    steps = src.range(3, 14)
    for _ in range(steps):
        info.steps += 1
        s = src.pick(slots) if slots else None
        k = src.draw(17)
        if k <= 1 or s is None:        # use a kept object
            if objs:
                i = src.draw(len(objs))
                kind, o, f = objs[i]
                info.log(f"  use #{i}")
                f(o)
                del o
            continue
        w, m = s.w, s.w.model
        n = w.pick(lambda n: n.sym is not None)
        if k == 2:
            keep(f"symbol {n!r}", n.sym, expect(n, s.refs))
        elif k == 3:
            with m.lock():
                a = n.sym.state(src.draw(s.ns))
            keep(f"state array of {n!r}", a, frozen(a))
        elif k == 4:
            c = w.pick(lambda n: n.kind == "const")
            if c is not None:
                a = np.asarray(c.sym)
                v = memoryview(c.sym) if src.chance(1, 2) else a
                keep(f"buffer of {c!r}", v, lambda v, f=frozen(a): f(np.asarray(v)))
        elif k == 5:                 # iterators
            z = src.draw(5)
            make = [m.iter_symbols, m.iter_decisions, m.iter_constraints, n.sym.iter_predecessors, n.sym.iter_successors][z]
            with m.lock():      # locking sorts the symbols; from here on their order stays until the model grows
                pass
            it = make()
            make = None
            rec = dict(checked=True, z=z, got=[], want=None, done=False)
            s.iters = getattr(s, "iters", [])
            s.iters.append(rec)

            def begin(make, rec):
                rec["want"] = [x.id() for x in make()]

            owner = m if z < 3 else n.sym
            name = ["iter_symbols", "iter_decisions", "iter_constraints", "iter_predecessors", "iter_successors"][z]

            def advance(it, rec=rec, owner=weakref.ref(owner) if z < 3 else None, name=name):
                if rec["want"] is None:
                    # what it has to visit is settled by the first step
                    o = owner() if owner is not None else rec["owner"]
                    if o is None:
                        rec["checked"] = False
                        rec["want"] = []
                    else:
                        begin(getattr(o, name), rec)
                    del o
                    rec.pop("owner", None)
                got, want = rec["got"], rec["want"]
                try:
                    x = next(it)
                except StopIteration:
                    if rec["checked"]:
                        check(info, got == want, "iteration", lambda: f"{name} visited {got}, expected {want}")
                    return
                check(info, not x.expired(), "iteration-expired", "an iterator gave an expired symbol")
                repr(x)
                list(x.iter_predecessors())
                got.append(x.id())
                if rec["checked"]:
                    check(info, got == want[:len(got)], "iteration", lambda: f"{name} visited {got}, expected {want}")
            if z >= 3:
                rec["owner"] = owner
            del owner
            if src.chance(1, 2):
                advance(it)
            keep(f"iterator {z}", it, advance)
            del it
        elif k == 6:                 # advance iterators while the model grows
            if not m.is_locked():
                for rec in getattr(s, "iters", []):
                    if rec["z"] == 0:
                        rec["checked"] = False      # the symbols can be sorted again
                w.grow(World.ALL, src.range(1, 4))
                if src.chance(1, 2):
                    goals(w, src)
                for a in s.asg:
                    a += [d.random(src) for d in w.decs[len(a):]]
                for i, a in enumerate(s.asg):
                    w.set_all(a, i)
                s.refs = [w.evaluate(a) for a in s.asg]
            for i, (kind, o, f) in enumerate(objs):
                if kind.startswith("iterator"):
                    f(o)
                    del o
        elif k == 7 and objs:
            i = src.draw(len(objs))
            info.log(f"  drop #{i} ({objs[i][0]})")
            objs.pop(i)
        elif k == 8:
            info.log("  collect")
            gc.collect()
        elif k == 9 and len(slots) > 0:
            i = slots.index(s)
            info.log(f"  drop model {i} and all of its symbols that are not kept")
            slots.pop(i)
            del s, w, m, n
            if src.chance(1, 2):
                gc.collect()
            continue
        elif k == 10:                # prune, and check what is kept
            if m.is_locked():
                continue
            for q in w.nodes:
                if q.sym is not None and q.kind != "decision" and src.chance(1, 2):
                    q.sym = None
            for rec in getattr(s, "iters", []):
                rec["checked"] = False
            r = m.remove_unused_symbols()
            info.log(f"  prune: {r} symbols removed")
            graph_view(m, info)
        elif k == 11:
            st = m.states
            ref = weakref.ref(m)

            def use(st, ref=ref):
                try:
                    st.size()
                    st.to_file()
                except ReferenceError:
                    check(info, ref() is None, "states-reference", "the states do not find their model")
            keep("states", st, use)
            del st
        elif k == 12:
            f = m.to_file(max_num_states=s.ns)

            def load(f):
                f.seek(0)
                x = Model.from_file(f)
                graph_view(x, info)
            keep("file", f, load)
        elif k == 13 and m.objective is not None:
            o = m.objective
            oid = o.id()
            with m.lock():
                v = [o.state(i).copy() for i in range(s.ns)]

            def obj(o, v=v):
                with o.model.lock():
                    for i, a in enumerate(v):
                        check(info, np.array_equal(o.state(i), a, equal_nan=True), "objective-value", lambda: f"{o.state(i)} was {a}")
            keep("objective", o, obj)
            del o
        elif k == 14:                # predecessors and successors keep the model alive as well
            rel = [x for x in (n.sym.iter_successors() if src.chance(1, 2) else n.sym.iter_predecessors())]
            if rel:
                x = src.pick(rel)

                def related(x, t=type(x)):
                    check(info, not x.expired() and type(x) is t, "related-expired", "a related symbol expired")
                    list(x.iter_predecessors())
                    x.model.num_nodes()
                keep("related symbol", x, related)
                del x
            del rel
        elif k == 15:                # a second Python object of the same symbol
            ids = {q.sym.id(): q for q in w.nodes if q.sym is not None}
            for x in m.iter_symbols():
                q = ids.get(x.id())
                if q is not None and src.chance(1, 3):
                    keep(f"symbol {q!r} again", x, expect(q, s.refs))
                    break
            x = q = None
        elif k == 16:
            if m.is_locked() and s.locked:
                m.unlock()
                s.locked = False
            else:
                m.lock()
                s.locked = True
        n = w = m = None
    slots.clear()
    s = None
    gc.collect()
    for kind, o, f in objs:
        f(o)
    o = f = None
    while objs:
        objs.pop(src.draw(len(objs)))
        if src.chance(1, 4):
            gc.collect()
            if objs:
                kind, o, f = objs[src.draw(len(objs))]
                f(o)
                o = f = None
    gc.collect()
    info.nontrivial = steps >= 5


__all__ = ["c18", "c19"]
