"""C20: models that are very deep, or in which symbols are shared so often that there are exponentially many paths."""
import resource

import numpy as np

import dwave.optimization as dwo
from dwave.optimization import Model
from dwave.optimization.mathematical import (add, logical_and, logical_not, logical_or, maximum, minimum, multiply, sqrt,
                                             where)
from pbt import Violation

M = 3  # all values are integers in [-M, M]


def check(info, cond, tag, msg):
    info.checks += 1
    if not cond:
        raise Violation(tag, msg() if callable(msg) else msg)


def cut(v):
    return max(-M, min(M, v))


# name -> (number of operands, the symbol, its value); each keeps integers in [-M, M] within it
OPS = {
    "max": (2, lambda k, a, b: maximum(a, b), max),
    "min": (2, lambda k, a, b: minimum(a, b), min),
    "neg": (1, lambda k, a: -a, lambda a: -a),
    "abs": (1, lambda k, a: abs(a), abs),
    "times-1": (1, lambda k, a: a * k[-1], lambda a: -a),
    "plus0": (1, lambda k, a: a + k[0], lambda a: a),
    "add": (2, lambda k, a, b: minimum(maximum(a + b, k[-M]), k[M]), lambda a, b: cut(a + b)),
    "sub": (2, lambda k, a, b: minimum(maximum(a - b, k[-M]), k[M]), lambda a, b: cut(a - b)),
    "mul": (2, lambda k, a, b: minimum(maximum(a * b, k[-M]), k[M]), lambda a, b: cut(a * b)),
    "mod": (2, lambda k, a, b: a % b, lambda a, b: float(np.mod(a, b)) if b else 0),
    "square": (1, lambda k, a: minimum(a ** 2, k[M]), lambda a: cut(a * a)),
    "where": (3, lambda k, a, b, c: where(a <= k[0], b, c), lambda a, b, c: b if a <= 0 else c),
    "and": (2, lambda k, a, b: logical_and(a, b), lambda a, b: bool(a) and bool(b)),
    "or": (2, lambda k, a, b: logical_or(a, b), lambda a, b: bool(a) or bool(b)),
    "not": (1, lambda k, a: logical_not(a), lambda a: not a),
    "le": (2, lambda k, a, b: a <= b, lambda a, b: a <= b),
    "eq": (2, lambda k, a, b: a == b, lambda a, b: a == b),
    "nary": (3, lambda k, a, b, c: minimum(maximum(add(a, b, c), k[-M]), k[M]), lambda a, b, c: cut(a + b + c)),
    "nmul": (3, lambda k, a, b, c: minimum(maximum(multiply(a, b, c), k[-M]), k[M]), lambda a, b, c: cut(a * b * c)),
    "nmax": (3, lambda k, a, b, c: maximum(a, b, c), lambda a, b, c: max(a, b, c)),
    "sum": (1, lambda k, a: a.sum(), lambda a: a),
    "prod": (1, lambda k, a: a.prod(), lambda a: a),
    "amax": (1, lambda k, a: a.max(), lambda a: a),
}
# symbols without an own bound, to have products and sums of arbitrarily many
RAW = {
    "add": (2, lambda k, a, b: a + b, lambda a, b: a + b),
    "mul": (2, lambda k, a, b: a * b, lambda a, b: a * b),
    "square": (1, lambda k, a: a ** 2, lambda a: a * a),
    "nary": (3, lambda k, a, b, c: add(a, b, c), lambda a, b, c: a + b + c),
    "nmul": (3, lambda k, a, b, c: multiply(a, b, c), lambda a, b, c: a * b * c),
    "where": (3, lambda k, a, b, c: where(a, b, c), lambda a, b, c: b if a else c),
    "prod": (1, lambda k, a: a.prod(), lambda a: a),
    "abs": (1, lambda k, a: abs(a), abs),
}


class Deep:
    """A recipe (a list of (operation, operands)) and its evaluation, as symbols and as numbers."""

    def __init__(self, src, info):
        self.src, self.info = src, info
        shape = src.draw(6)
        # how far back operands are taken from: chains, shared operands (exponentially many paths), grids, anything
        if shape == 0:
            self.n = src.range(1, 12)
        elif src.chance(1, 60):
            self.n = src.range(10000, 40000)
        elif src.chance(1, 8):
            self.n = src.range(300, 6000)
        else:
            self.n = src.range(20, 120)
        self.raw = src.chance(1, 4)
        table = RAW if self.raw else OPS
        self.ops = [src.pick(sorted(table)) for _ in range(src.range(1, 3))]
        if self.raw:
            self.n = min(self.n, 2000)
        self.table = table
        self.ndec = src.range(1, 3)
        self.binary = self.raw and src.chance(2, 3)
        self.lo, self.hi = (0, 1) if self.raw else (-M, M)
        self.back = {0: 3, 1: 0, 2: 1, 3: 2, 4: src.range(2, 12), 5: 0}[shape]
        self.fan = shape == 5 and src.chance(1, 2)
        self.kind = ("small", "chain", "shared", "pairs", "grid", "chain")[shape] if not self.fan else "fan"
        self.recipe = []
        for i in range(self.n):
            op = self.ops[i % len(self.ops)]
            k = table[op][0]
            at = self.ndec + i  # the index of the new symbol
            if self.fan:
                args = [src.draw(self.ndec) if i < 50 else i % self.ndec for _ in range(k)]
            elif self.kind == "chain":
                args = [at - 1] + [src.draw(self.ndec) if i < 50 else (i * j) % self.ndec for j in range(1, k)]
            elif self.kind == "shared":
                args = [at - 1] * k
            elif self.kind == "pairs":
                args = [at - 1 - j % 2 if at - 1 - j % 2 >= 0 else 0 for j in range(k)]
            elif self.kind == "grid":
                args = [max(0, at - (1 if j == 0 else self.back)) for j in range(k)]
            else:
                args = [src.draw(at) for _ in range(k)]
            self.recipe.append((op, args))
        info.log(f"  {self.kind} of {self.n} operations {self.ops}{' unbounded' if self.raw else ''} on {self.ndec} "
                 f"{'binaries' if self.binary else f'integers in [{self.lo}, {self.hi}]'}")
        info.f("kind:" + self.kind)
        info.f("deep" if self.n > 5000 else "long" if self.n > 200 else "moderate")

    def decisions(self, m):
        return [m.binary() if self.binary else m.integer(lower_bound=self.lo, upper_bound=self.hi) for _ in range(self.ndec)]

    def symbols(self, m, decs, change=None):
        k = {}
        need = {"times-1": [-1], "plus0": [0], "where": [] if self.raw else [0], "square": [] if self.raw else [M],
                **({} if self.raw else {o: [-M, M] for o in ("add", "sub", "mul", "nary", "nmul")})}
        for op in self.ops:
            for c in need.get(op, ()):
                if c not in k:
                    k[c] = m.constant(c)
        out = list(decs)
        for i, (op, args) in enumerate(self.recipe):
            if i == change:
                args = [out[a] for a in args]
                args[0] = args[0] + m.constant(17)
                out.append(self.table[op][1](k, *args))
            else:
                out.append(self.table[op][1](k, *[out[a] for a in args]))
        return out

    def values(self, vals):
        out = [float(v) for v in vals]
        big = 2.0 ** 50
        for op, args in self.recipe:
            v = float(self.table[op][2](*[out[a] for a in args]))
            if abs(v) > big:
                return None
            out.append(v)
        return out

    def assignment(self):
        return [self.src.range(self.lo, self.hi) for _ in range(self.ndec)]


def c20(src, info):
    # a small stack stands in for a model that is as many times deeper
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    d = Deep(src, info)
    m = Model()
    decs = d.decisions(m)
    syms = d.symbols(m, decs)
    last = syms[-1]
    nsym = m.num_symbols()
    huge = d.n > 8000
    info.nontrivial = d.n >= 20
    m.minimize(last)

    # bounds: is the constraint accepted exactly if the symbol is logical, can it be a denominator
    if src.chance(1, 2):
        info.log("  as a constraint, square root and denominator")
        logical = d.ops[(d.n - 1) % len(d.ops)] in ("and", "or", "not", "le", "eq")
        try:
            m.add_constraint(last)
        except ValueError:
            info.refused += 1
            check(info, not logical, "constraint-refused", "a logical symbol was refused as constraint")
        for what, f in (("square root", lambda: sqrt(last)), ("denominator", lambda: decs[0] / last)):
            try:
                f()
            except ValueError:
                info.refused += 1
    constraints = m.num_constraints()

    ns = src.range(1, 2)
    m.states.resize(ns)
    cur = [None] * ns
    with m.lock():
        info.log("  locked")
        for step in range(src.range(1, 4)):
            info.steps += 1
            i = src.draw(ns)
            a = d.assignment()
            for x, v in zip(decs, a):
                x.set_state(i, v)
            cur[i] = d.values(a)
            picks = [len(syms) - 1] + [src.draw(len(syms)) for _ in range(3)]
            info.log(f"  state {i}: {a}")
            for p in picks:
                got = float(syms[p].state(i))
                if cur[i] is not None:
                    check(info, got == cur[i][p], "value", lambda: f"symbol {p} is {got} instead of {cur[i][p]} at {a}")
            if src.chance(1, 4):
                x = syms[src.draw(len(syms))]
                x.reset_state(i)
                check(info, not last.has_state(i) or x is not decs[0] or d.kind == "small" or not last_depends(d),
                      "reset", "the last symbol still has a state after its operand was reset")
                for x, v in zip(decs, a):
                    x.set_state(i, v)
                got = float(last.state(i))
                if cur[i] is not None:
                    check(info, got == cur[i][-1], "value-after-reset", lambda: f"the last symbol is {got} instead of {cur[i][-1]}")
        for i in range(ns):
            if cur[i] is not None:
                got = float(last.state(i))
                check(info, got == cur[i][-1], "value-kept", lambda: f"the last symbol is {got} instead of {cur[i][-1]} in state {i}")
    info.log("  unlocked")

    if src.chance(1, 3):
        # comparing with the same expression, and with one that differs far away
        same = d.symbols(m, decs)[-1]
        info.log("  compare with the same expression built again")
        check(info, last.equals(same) and (huge or same.equals(last)), "equals", "the same expression built again does not compare equal")
        c = src.draw(d.n)
        other = d.symbols(m, decs, change=c)[-1]
        if reaches(d, c):
            check(info, not last.equals(other) and (huge or not other.equals(last)), "unequal",
                  f"expressions that differ in operation {c} compare equal")
    if src.chance(1, 2):
        keep = src.draw(len(syms))
        kept = syms[keep]
        before = m.num_symbols()
        syms = same = other = None
        info.log(f"  prune, referring to symbol {keep}")
        removed = m.remove_unused_symbols()
        check(info, m.num_symbols() == before - removed, "prune-count", "the number of symbols removed is wrong")
        check(info, m.num_constraints() == constraints and m.objective.equals(last), "prune", "pruning changed the objective or constraints")
        again = m.remove_unused_symbols()
        check(info, again == 0, "prune-again", f"{again} more symbols were removed at once")
        with m.lock():
            for i in range(ns):
                if cur[i] is not None:
                    a, b = float(last.state(i)), float(kept.state(i))
                    check(info, a == cur[i][-1] and b == cur[i][keep], "value-after-prune", lambda: f"{a}, {b} instead of {cur[i][-1]}, {cur[i][keep]}")
    if not huge and src.chance(1, 3):
        info.log("  save and load")
        with m.to_file(max_num_states=ns) as f:
            m2 = Model.from_file(f)
        check(info, m2.num_symbols() == m.num_symbols() and m2.num_edges() == m.num_edges() and m2.num_constraints() == constraints,
              "load", "the loaded model has other symbols")
        with m2.lock():
            for i in range(ns):
                if cur[i] is not None:
                    got = float(m2.objective.state(i))
                    check(info, got == cur[i][-1], "value-loaded", lambda: f"{got} instead of {cur[i][-1]}")
        if d.n < 2000:
            info.log("  compare with the loaded copy")
            check(info, m.objective.equals(m2.objective), "equals-loaded", "the objective does not equal the loaded one")


def ancestors(d, start):
    seen, stack = set(), [start]
    while stack:
        i = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        if i >= d.ndec:
            stack.extend(d.recipe[i - d.ndec][1])
    return seen


def last_depends(d):
    return 0 in ancestors(d, d.ndec + d.n - 1)


def reaches(d, c):
    return d.ndec + c in ancestors(d, d.ndec + d.n - 1)
