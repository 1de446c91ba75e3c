"""Random models together with an independent NumPy definition of every symbol.

A World holds a model, its decisions (with generators of legal assignments) and a list of nodes; every node
knows the symbol and a function giving its value from its operands' values, written with NumPy only.
"""
import operator

import numpy as np

from dwave.optimization import Model
from dwave.optimization import mathematical as mth
from dwave.optimization import symbols as S

from pbt import Violation, Discard

EPS = 2.3e-16
BIG = 1e15
RAW = 200  # the k of values that are exact, but not multiples of a power of two: any arithmetic on them rounds
RAWS = [0.1, 1 / 3, -2.7, 0.1 + 0.2, 0.3, 1e-9, -1e-9, 1000000.0, 1000001.0, 16777217.0, 1 + 2.3e-16, 1.0, 0.5, 1e9 + 0.1,
        5e-324, 4503599627370497.5 / 8, -1 / 7, 2 ** 0.5]
REFUSALS = (ValueError, IndexError, TypeError)


def pw(k):
    return 2.0 ** min(k, 1000)


class N:
    """An array symbol and its definition."""
    __slots__ = ("i", "sym", "kids", "fn", "name", "shape", "lo", "hi", "k", "err", "key", "smin", "smax",
                 "kind", "dec", "const", "contig", "cls")

    def __init__(self, sym, kids, fn, name, shape, lo, hi, k=0, err=0.0, key=None, smin=None, smax=None, kind="op",
                 dec=None, const=None, contig=True):
        self.sym, self.kids, self.fn, self.name, self.shape = sym, kids, fn, name, tuple(shape)
        self.lo, self.hi, self.k, self.err, self.key = float(lo), float(hi), k, err, key
        self.smin, self.smax, self.kind, self.dec, self.const = smin, smax, kind, dec, const
        self.contig = contig
        self.i = -1
        self.cls = type(sym).__name__ if sym is not None else None

    @property
    def dyn(self):
        return self.key is not None

    @property
    def size(self):
        assert not self.dyn
        return int(np.prod(self.shape, dtype=int))

    @property
    def maxsize(self):
        return self.smax if self.dyn else self.size

    @property
    def mag(self):
        return max(abs(self.lo), abs(self.hi))

    @property
    def exact(self):
        return self.err == 0.0

    @property
    def integral(self):
        return self.err == 0.0 and self.k == 0

    @property
    def leaf(self):
        """Its declared bounds are exactly [lo, hi]."""
        return self.kind in ("decision", "const")

    @property
    def boolean(self):
        return self.integral and self.lo >= 0 and self.hi <= 1

    def __repr__(self):
        return f"v{self.i}"


class Decision:
    """A decision variable and its legal assignments."""

    def __init__(self, kind, sym, nodes, **par):
        self.kind, self.sym, self.nodes, self.par = kind, sym, nodes, par

    def random(self, src):
        p = self.par
        if self.kind == "binary":
            n = int(np.prod(p["shape"], dtype=int))
            return np.array([float(src.draw(2)) for _ in range(n)]).reshape(p["shape"])
        if self.kind == "integer":
            n = int(np.prod(p["shape"], dtype=int))
            lo, hi = p["lo"], p["hi"]
            out = []
            for _ in range(n):
                if hi - lo > 50:
                    c = src.draw(7)
                    v = (lo if c == 1 else hi if c == 2 else lo + src.draw(10) if c == 3
                         else min(max(src.range(-9, 9), lo), hi) if c == 0 else lo + src.draw(min(hi - lo, 10 ** 6))
                         if c == 4 else lo + src.draw(hi - lo + 1) if c == 5
                         else min(max(2 ** src.range(20, 31) + src.range(-2, 2), lo), hi))
                else:
                    v = src.range(lo, hi)
                out.append(float(v))
            return np.array(out, dtype=float).reshape(p["shape"])
        if self.kind == "list":
            return np.array(src.shuffle(range(p["n"])), dtype=float)
        if self.kind == "set":
            size = src.range(p["min"], p["max"])
            return np.array(src.shuffle(range(p["n"]))[:size], dtype=float)
        n, k = p["n"], p["k"]
        owner = [src.draw(k) for _ in range(n)]
        if self.kind == "bitsets":
            return np.array([[float(owner[j] == i) for j in range(n)] for i in range(k)]).reshape(k, n)
        order = src.shuffle(range(n))
        return [np.array([float(j) for j in order if owner[j] == i], dtype=float) for i in range(k)]

    def default(self):
        """Values of the symbol when it was never set (as documented: what the library's default state is)."""
        return None

    def values(self, a):
        """The value of each of the decision's array nodes under assignment a."""
        if self.kind in ("bitsets", "lists"):
            return [np.asarray(x, dtype=float) for x in a]
        return [np.asarray(a, dtype=float)]

    def equal(self, a, b):
        va, vb = self.values(a), self.values(b)
        return len(va) == len(vb) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(va, vb))

    def copy(self, a):
        return [np.array(x) for x in a] if self.kind == "lists" else np.array(a)


def show(a):
    if isinstance(a, list):
        return "[" + ", ".join(show(x) for x in a) + "]"
    return np.array2string(np.asarray(a), separator=",", threshold=60, max_line_width=100000).replace("\n", "")


def logicalf(x):
    return (np.asarray(x) != 0).astype(float)


def npmod(a, b):
    with np.errstate(all="ignore"):
        a, b = np.broadcast_arrays(a, b)
        r = np.zeros(a.shape)
        nz = b != 0
        r[nz] = np.mod(a[nz], b[nz])
    return r


BINFN = {
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.true_divide, "mod": npmod,
    "le": lambda a, b: np.less_equal(a, b).astype(float), "ge": lambda a, b: np.greater_equal(a, b).astype(float),
    "eq": lambda a, b: np.equal(a, b).astype(float),
    "max": np.maximum, "min": np.minimum,
    "and": lambda a, b: np.logical_and(a, b).astype(float), "or": lambda a, b: np.logical_or(a, b).astype(float),
    "xor": lambda a, b: np.logical_xor(a, b).astype(float),
}
# every documented way of writing the operation
BINFORMS = {
    "add": [("op", operator.add), ("fn", mth.add), ("cls", S.Add)],
    "sub": [("op", operator.sub), ("iop", operator.isub), ("cls", S.Subtract)],
    "mul": [("op", operator.mul), ("fn", mth.multiply), ("cls", S.Multiply)],
    "div": [("op", operator.truediv), ("fn", mth.divide), ("iop", operator.itruediv), ("cls", S.Divide)],
    "mod": [("op", operator.mod), ("fn", mth.mod), ("iop", operator.imod), ("cls", S.Modulus)],
    "le": [("op", operator.le), ("cls", S.LessEqual)],
    "ge": [("op", operator.ge)],
    "eq": [("op", operator.eq), ("cls", S.Equal)],
    "max": [("fn", mth.maximum), ("cls", S.Maximum)],
    "min": [("fn", mth.minimum), ("cls", S.Minimum)],
    "and": [("fn", mth.logical_and), ("cls", S.And)],
    "or": [("fn", mth.logical_or), ("cls", S.Or)],
    "xor": [("fn", mth.logical_xor), ("cls", S.Xor)],
}


class World:
    def __init__(self, src, info, model=None):
        self.src, self.info = src, info
        self.model = Model() if model is None else model
        self.nodes = []
        self.decs = []
        self.keys = 0
        self.objective = None
        self.constraints = []
        self.big = False  # tens of elements

    # ---------------------------------------------------------------- bookkeeping
    def add(self, n):
        n.i = len(self.nodes)
        self.nodes.append(n)
        self.info.f("node:" + (n.cls or "?"))
        if self.info.verbose:
            self.info.log(f"  {n} = {n.name}   shape {n.shape} in [{n.lo:g}, {n.hi:g}]")
        return n

    def newkey(self):
        self.keys += 1
        return ("k", self.keys)

    def names(self, *kids):
        return ", ".join(map(repr, kids))

    # ---------------------------------------------------------------- decisions and constants
    def small_shape(self, empty=True):
        s = self.src
        if self.big and s.chance(1, 2):
            return (s.range(10, 40),) if s.chance(1, 2) else (s.range(2, 8), s.range(2, 8))
        c = s.draw(12)
        if c <= 2:
            return ()
        if c <= 6:
            return (s.range(1, 5),)
        if c <= 9:
            return (s.range(1, 4), s.range(1, 4))
        if c == 10:
            return (s.range(1, 3), s.range(1, 3), s.range(1, 3))
        if empty and s.chance(1, 3):
            return s.pick([(0,), (0, 2), (2, 0)])
        return (s.range(3, 8),)

    def decision(self, kind=None, shape=None):
        s, m = self.src, self.model
        kind = kind or s.pick(["binary", "integer", "integer", "list", "set", "set", "bitsets", "lists"])
        if kind == "binary":
            sh = self.small_shape() if shape is None else shape
            arg = None if sh == () and s.chance(1, 2) else sh[0] if len(sh) == 1 and s.chance(1, 2) else sh
            sym = m.binary(arg) if arg is not None else m.binary()
            d = Decision(kind, sym, [], shape=sh)
            d.nodes.append(self.leaf(sym, f"binary({arg})", sh, 0, 1, d))
        elif kind == "integer":
            sh = self.small_shape() if shape is None else shape
            c = s.draw(8)
            if c == 7:
                lo, hi = None, None
            elif c == 6:
                lo, hi = None, s.range(0, 9)
            elif c == 5:
                lo, hi = s.range(1, 5), s.range(5, 40)
            else:
                lo = s.range(-6, 4)
                hi = lo + s.range(0, 9)
            arg = None if sh == () and s.chance(1, 2) else sh[0] if len(sh) == 1 and s.chance(1, 2) else sh
            sym = m.integer(arg, lower_bound=lo, upper_bound=hi)
            rlo, rhi = (0 if lo is None else lo), (2000000000 if hi is None else hi)
            d = Decision(kind, sym, [], shape=sh, lo=rlo, hi=rhi)
            d.nodes.append(self.leaf(sym, f"integer({arg}, {lo}, {hi})", sh, rlo, rhi, d))
        elif kind == "list":
            n = s.range(1, 30 if self.big else 6) if not s.chance(1, 25) else 0
            sym = m.list(n)
            d = Decision(kind, sym, [], n=n)
            d.nodes.append(self.leaf(sym, f"list({n})", (n,), 0, max(n - 1, 0), d))
        elif kind == "set":
            n = s.range(1, 30 if self.big else 7) if not s.chance(1, 25) else 0
            form = s.draw(4)
            lo = 0 if form <= 1 else s.range(0, n)
            hi = n if form in (0, 2) else s.range(lo, n)
            sym = m.set(n) if form == 0 else m.set(n, min_size=lo) if form == 2 else m.set(n, lo, hi)
            d = Decision(kind, sym, [], n=n, min=lo, max=hi)
            key = self.newkey() if lo != hi else None
            d.nodes.append(self.leaf(sym, f"set({n}, {lo}, {hi})", (-1,) if key else (lo,), 0, max(n - 1, 0), d, key,
                                     lo, hi))
        elif kind == "bitsets":
            n, k = s.range(1, 25 if self.big else 5) if not s.chance(1, 25) else 0, s.range(1, 12 if self.big else 3)
            sym, sets = m.disjoint_bit_sets(n, k)
            d = Decision(kind, sym, [], n=n, k=k)
            for i, x in enumerate(sets):
                d.nodes.append(self.leaf(x, f"disjoint_bit_sets({n}, {k})[{i}]", (n,), 0, 1, d))
        else:
            n, k = s.range(1, 25 if self.big else 5) if not s.chance(1, 25) else 0, s.range(1, 12 if self.big else 3)
            sym, lists = m.disjoint_lists(n, k)
            d = Decision(kind, sym, [], n=n, k=k)
            for i, x in enumerate(lists):
                d.nodes.append(self.leaf(x, f"disjoint_lists({n}, {k})[{i}]", (-1,), 0, max(n - 1, 0), d,
                                         self.newkey(), 0, n))
        d.i = len(self.decs)
        self.decs.append(d)
        self.info.f("decision:" + kind)
        return d

    def leaf(self, sym, name, shape, lo, hi, d, key=None, smin=None, smax=None):
        return self.add(N(sym, [], None, name, shape, lo, hi, key=key, smin=smin, smax=smax, kind="decision", dec=d))

    def constant(self, shape=None, lo=None, hi=None, quarters=None):
        s = self.src
        sh = self.small_shape() if shape is None else tuple(shape)
        n = int(np.prod(sh, dtype=int))
        free = lo is None
        if lo is None:
            lo, hi = s.pick([(-5, 5), (0, 4), (1, 6), (-7, -1), (0, 1)])
        q = s.chance(1, 4) if quarters is None else quarters
        raw = quarters is None and free and s.chance(1, 8)
        if raw:
            q = True
            vals = [s.pick(RAWS) for _ in range(n)]
        else:
            vals = [float(s.range(lo, hi)) + (s.draw(4) / 4 if q else 0) for _ in range(n)]
        a = np.array(vals, dtype=float).reshape(sh)
        form = s.draw(4)
        if form == 1 and not q:
            arg = a.astype(s.pick([np.int64, np.int32, np.int8]))
        elif form == 2 and n:
            arg = a.tolist()
        elif form == 3 and len(sh) == 2:
            arg = np.asfortranarray(a)
        else:
            arg = a.copy()
        sym = self.model.constant(arg)
        al, ah = (a.min(), a.max()) if n else (0, 0)
        ref = a.copy()
        return self.add(N(sym, [], lambda: ref, f"constant({show(a)})", sh, al, ah, k=RAW if raw else 2 if q else 0, kind="const",
                          const=ref))

    # ---------------------------------------------------------------- picking operands
    def pick(self, pred=None):
        c = [n for n in self.nodes if n.sym is not None and (pred is None or pred(n))]
        if not c:
            return None
        # favour recent nodes a little, so that expressions nest
        if len(c) > 6 and self.src.chance(1, 2):
            c = c[-6:]
        return self.src.pick(c[::-1])

    def partner(self, x):
        """Something that can be combined element-wise with x."""
        def ok(y):
            if x.dyn or y.dyn:
                return (x.key == y.key and x.shape == y.shape) or (not y.dyn and y.size == 1 and len(y.shape) <= 1) or (
                    not x.dyn and x.size == 1 and len(x.shape) <= 1)
            return x.shape == y.shape or y.size == 1 or x.size == 1
        if self.src.chance(1, 4) and not x.dyn:
            return self.constant(x.shape if self.src.chance(2, 3) else ())
        return self.pick(ok) or self.constant(())

    def combine(self, x, y):
        """Shape, key and sizes of an element-wise combination, or None."""
        if x.shape == y.shape and x.key == y.key:
            return x.shape, x.key, x.smin, x.smax
        for a, b in ((x, y), (y, x)):
            if not b.dyn and b.size == 1:
                if a.dyn:
                    return (a.shape, a.key, a.smin, a.smax) if len(b.shape) <= len(a.shape) else None
                return np.broadcast_shapes(a.shape, b.shape), None, None, None
        return None

    # ---------------------------------------------------------------- bounds and exactness
    @staticmethod
    def interval(op, x, y):
        a, b, c, d = x.lo, x.hi, y.lo, y.hi
        if op == "add":
            return a + c, b + d
        if op == "sub":
            return a - d, b - c
        if op == "mul":
            p = (a * c, a * d, b * c, b * d)
            return min(p), max(p)
        if op == "div":
            p = (a / c, a / d, b / c, b / d)
            return min(p), max(p)
        if op == "mod":
            return min(c, 0), max(d, 0)
        if op == "max":
            return max(a, c), max(b, d)
        if op == "min":
            return min(a, c), min(b, d)
        return 0, 1

    @staticmethod
    def exactness(op, x, y, lo, hi):
        """(k, err) of op(x, y): values are multiples of 2^-k when err is 0."""
        m = max(abs(lo), abs(hi))
        if op in ("max", "min") and x.exact and y.exact:
            return max(x.k, y.k), 0.0
        if op in ("le", "ge", "eq", "and", "or", "xor"):
            return 0, 0.0
        if op in ("add", "sub", "max", "min", "mod"):
            k, err = max(x.k, y.k), x.err + y.err
        elif op == "mul":
            k, err = x.k + y.k, x.err * y.mag + y.err * x.mag + x.err * y.err
        else:
            m2 = min(abs(y.lo), abs(y.hi))
            return 0, (x.err + y.err * x.mag / m2) / m2 + EPS * m + 1e-300
        if err == 0.0 and m * pw(k) < 2.0 ** 50:
            return k, 0.0
        return 0, err + EPS * m + 1e-300

    # ---------------------------------------------------------------- the operations
    def attempt(self, build, must=None):
        """Builds the symbol; a documented refusal is counted, unless the request must be accepted."""
        try:
            return build()
        except REFUSALS as e:
            if must:
                raise Violation("refused:" + must.split(" of ")[0], f"{must} was refused: {e!r}")
            self.info.refused += 1
            return None

    def binary_op(self, op=None, x=None, y=None, form=None):
        s = self.src
        op = op or s.pick(["add", "sub", "mul", "le", "eq", "max", "min", "and", "or", "xor", "div", "mod", "ge"])
        if op == "div" and y is None:
            y = self.pick(lambda n: n.lo > 1e-3 or n.hi < -1e-3)
            if y is None:
                y = self.constant((), 1, 5)
            x = self.pick(lambda n: self.combine(n, y) is not None)
        if x is None:
            x = self.pick()
        if y is None:
            y = self.partner(x)
        if op != "div" and s.chance(1, 3):
            x, y = y, x
        if op in ("le", "ge", "eq", "mod", "and", "or", "xor") and not (x.exact and y.exact):
            return None
        comb = self.combine(x, y)
        if comb is None or (op == "div" and not (y.lo > 1e-6 or y.hi < -1e-6)):
            return None
        lo, hi = self.interval(op, x, y)
        if max(abs(lo), abs(hi)) > BIG:
            return None
        k, err = self.exactness(op, x, y, lo, hi)
        if err > 1e-4:
            return None
        fname, f = form or s.pick(BINFORMS[op])
        must = None
        # C08: same fixed shape is always accepted, and so are scalars
        if (op != "div" or (y.leaf and y.maxsize)) and (
                (not x.dyn and not y.dyn and x.shape == y.shape) or x.shape == () or y.shape == ()):
            must = f"{op} of {x.shape} and {y.shape}"
        sym = self.attempt(lambda: f(x.sym, y.sym), must)
        if sym is None:
            return None
        fn = BINFN[op]
        return self.add(N(sym, [x, y], self.elementwise(fn), f"{op}/{fname}({x!r}, {y!r})", comb[0], lo, hi, k, err,
                          comb[1], comb[2], comb[3]))

    @staticmethod
    def elementwise(fn):
        return lambda a, b: np.asarray(fn(a, b), dtype=float)

    def nary_op(self):
        s = self.src
        op = s.pick(["add", "mul", "max", "min"])
        x = self.pick(lambda n: not n.dyn)
        if x is None:
            return None
        kids = [x]
        for _ in range(s.range(1, 3) if not s.chance(1, 10) else 0):
            y = self.pick(lambda n: n.shape == x.shape and n.key == x.key)
            kids.append(y if y is not None and s.chance(2, 3) else self.constant(x.shape))
        lo, hi, k, err = x.lo, x.hi, x.k, x.err
        acc = x
        for y in kids[1:]:
            lo, hi = self.interval(op, acc, y)
            k, err = self.exactness(op, acc, y, lo, hi)
            acc = N(None, [], None, "", x.shape, lo, hi, k, err)
            if max(abs(lo), abs(hi)) > BIG or err > 1e-4:
                return None
        if not acc.exact:  # the order of evaluation is not prescribed
            acc.err += EPS * len(kids) * np.prod([max(1.0, y.mag) for y in kids]) if op == "mul" else EPS * sum(
                y.mag for y in kids) * len(kids)
        fnc, cls = {"add": (mth.add, S.NaryAdd), "mul": (mth.multiply, S.NaryMultiply),
                    "max": (mth.maximum, S.NaryMaximum), "min": (mth.minimum, S.NaryMinimum)}[op]
        use = cls if s.chance(1, 3) else fnc
        if len(kids) == 1 or (use is fnc and len(kids) == 2 and s.chance(1, 2)):
            use = cls
        sym = self.attempt(lambda: use(*[y.sym for y in kids]), f"n-ary {op} of {x.shape}")
        if sym is None:
            return None
        fn = BINFN[op]

        def ref(*a):
            r = a[0]
            for b in a[1:]:
                r = fn(r, b)
            return np.asarray(r, dtype=float)
        return self.add(N(sym, kids, ref, f"nary {op}({self.names(*kids)})", x.shape, acc.lo, acc.hi, acc.k, acc.err))

    def inplace_op(self):
        """x = a; x += b; x += c ... and the same for *=: a is not changed, nor anything built from x before."""
        s = self.src
        op = s.pick(["add", "mul"])
        x = self.pick(lambda n: not n.dyn)
        if x is None:
            return None
        sym = x.sym
        kids = [x]
        lo, hi, k, err = x.lo, x.hi, x.k, x.err
        acc = x
        last = None
        for _ in range(s.range(1, 4)):
            # a partner of the same shape, or the accumulated value itself
            y = self.pick(lambda n: n.shape == x.shape and n.key == x.key)
            if y is None or s.chance(1, 3):
                y = self.constant(x.shape)
            if last is not None and s.chance(1, 5):
                y = last
            lo, hi = self.interval(op, acc, y)
            k, err = self.exactness(op, acc, y, lo, hi)
            if max(abs(lo), abs(hi)) > BIG or err > 1e-4:
                break
            if err:
                err += 4 * EPS * max(abs(lo), abs(hi), acc.mag, y.mag)
            before = acc
            new = operator.iadd(sym, y.sym) if op == "add" else operator.imul(sym, y.sym)
            if new.shares_memory(sym):
                # extended in place: the symbol now denotes the extended expression
                before.sym = None
            fn = self.elementwise(BINFN[op])
            sym = new
            acc = N(sym, [before, y], fn, f"{before!r} {'+' if op == 'add' else '*'}= {y!r}", x.shape, lo, hi, k, err)
            last = self.add(acc)
            if s.chance(1, 4):  # use the intermediate value, which fixes it
                z = self.binary_op("add", last, self.constant(()))
                if z is None:
                    break
        return last

    def unary_op(self, op=None):
        s = self.src
        op = op or s.pick(["neg", "abs", "square", "pow", "sqrt", "logical", "not"])
        x = self.pick(lambda n: n.lo >= 0) if op == "sqrt" else self.pick()
        if x is None or (op in ("logical", "not") and not x.exact):
            return None
        lo, hi, k, err = x.lo, x.hi, x.k, x.err
        if op == "neg":
            lo, hi = -hi, -lo
            sym = -x.sym if s.chance(1, 2) else S.Negative(x.sym)
            fn = np.negative
        elif op == "abs":
            lo, hi = (lo, hi) if lo >= 0 else (-hi, -lo) if hi <= 0 else (0, max(-lo, hi))
            sym = abs(x.sym) if s.chance(1, 2) else S.Absolute(x.sym)
            fn = np.abs
        elif op == "square" or op == "pow":
            p = 2 if op == "square" else s.pick([1, 3, 4])
            if p > 2 and x.dyn:
                return None
            m = x.mag ** p
            if m > BIG:
                return None
            if p == 1:
                if not (x.sym ** 1).shares_memory(x.sym):
                    raise Violation("pow1", "x ** 1 is not x")
                return None
            lo, hi = (-m if p % 2 and x.lo < 0 else 0), m
            k, err = x.k * p, 0.0
            if not x.exact or m * pw(k) >= 2.0 ** 50:
                k, err = 0, p * max(x.mag, 1.0) ** (p - 1) * x.err + 2 * p * EPS * m + 1e-300
            sym = S.Square(x.sym) if p == 2 and s.chance(1, 3) else x.sym ** p
            fn = (lambda a, p=p: a ** p)
        elif op == "sqrt":
            lo, hi = lo ** 0.5, hi ** 0.5
            sym = self.attempt(lambda: mth.sqrt(x.sym) if s.chance(1, 2) else S.SquareRoot(x.sym),
                               "square root of a non-negative array" if x.leaf else None)
            if sym is None:
                return None
            if not x.exact and x.lo < 1e-6:
                return None
            k, err = 0, (x.err / (2 * max(lo, 1e-3)) if x.err else 0.0) + EPS * hi + 1e-300
            fn = np.sqrt
        elif op == "logical":
            lo, hi, k, err = 0, 1, 0, 0.0
            sym = mth.logical(x.sym) if s.chance(1, 2) else S.Logical(x.sym)
            fn = logicalf
        else:
            lo, hi, k, err = 0, 1, 0, 0.0
            sym = mth.logical_not(x.sym) if s.chance(1, 2) else S.Not(x.sym)
            fn = (lambda a: 1.0 - logicalf(a))
        if err > 1e-4:
            return None
        return self.add(N(sym, [x], lambda a, f=fn: np.asarray(f(a), dtype=float), f"{op}({x!r})", x.shape, lo, hi, k,
                          err, x.key, x.smin, x.smax))

    def reduce_op(self, op=None, x=None):
        s = self.src
        op = op or s.pick(["sum", "sum", "psum", "psum", "prod", "max", "min", "all", "any"])
        fixed = op in ("max", "min", "psum")
        x = x or self.pick((lambda n: not n.dyn and n.size) if fixed else None)
        if x is None:
            return None
        n = x.maxsize
        nmin = x.smin if x.dyn else x.size
        k, err = x.k, x.err
        if op == "psum":
            if not x.shape:
                return None
            axis = s.draw(len(x.shape))
            d = x.shape[axis]
            lo, hi = d * x.lo, d * x.hi
            m = d * x.mag
            if m > BIG:
                return None
            if not x.exact or m * pw(k) >= 2.0 ** 50:
                k, err = 0, d * x.err + 2 * d * EPS * m + 1e-300
            if err > 1e-4:
                return None
            form = s.draw(3)
            sym = self.attempt(lambda: x.sym.sum(axis=axis) if form == 0 else x.sym.sum(axis) if form == 1
                               else S.PartialSum(x.sym, axis), "sum over an axis")
            if sym is None:
                return None
            return self.add(N(sym, [x], lambda a: np.asarray(a.sum(axis=axis), dtype=float), f"{x!r}.sum({axis})",
                              x.shape[:axis] + x.shape[axis + 1:], lo, hi, k, err))
        if op == "sum":
            lo = min(n * x.lo, nmin * x.lo)
            hi = max(n * x.hi, nmin * x.hi)
            m = n * x.mag
            if m > BIG:
                return None
            if not x.exact or m * pw(k) >= 2.0 ** 50:
                k, err = 0, n * x.err + 2 * n * EPS * m + 1e-300
            sym = x.sym.sum() if s.chance(2, 3) else S.Sum(x.sym)
            fn = (lambda a: a.sum())
        elif op == "prod":
            m = max(1.0, x.mag) ** n if n * np.log2(max(1.0, x.mag)) < 100 else np.inf
            if m > 1e12:
                return None
            lo, hi = (-m if x.lo < 0 else 0), m
            if not x.exact or m * pw(k * n) >= 2.0 ** 50:
                k, err = 0, n * max(1.0, x.mag) ** max(0, n - 1) * x.err + 2 * n * EPS * m + 1e-300
            else:
                k = k * n
            sym = x.sym.prod() if s.chance(2, 3) else S.Prod(x.sym)
            fn = (lambda a: a.prod())
        elif op in ("max", "min"):
            lo, hi = x.lo, x.hi
            name = op
            sym = self.attempt(lambda: getattr(x.sym, name)() if s.chance(2, 3) else
                               (S.Max if name == "max" else S.Min)(x.sym), op + " reduction")
            if sym is None:
                return None
            fn = (lambda a: a.max()) if op == "max" else (lambda a: a.min())
        else:
            if not x.exact:
                return None
            lo, hi, k, err = 0, 1, 0, 0.0
            name = op
            sym = getattr(x.sym, name)() if s.chance(2, 3) else (S.All if op == "all" else S.Any)(x.sym)
            fn = (lambda a: float((a != 0).all())) if op == "all" else (lambda a: float((a != 0).any()))
        if err > 1e-4:
            return None
        return self.add(N(sym, [x], lambda a: np.asarray(fn(a), dtype=float), f"{x!r}.{op}()", (), lo, hi, k, err))

    def where_op(self):
        s = self.src
        x = self.pick()
        y = self.pick(lambda n: n.shape == x.shape) or self.constant(x.shape if not x.dyn else ())
        if y.shape != x.shape:
            return None
        scalar = s.chance(1, 2) or x.dyn
        c = self.pick(lambda n: n.exact and not n.dyn and (n.size == 1 if scalar else n.shape == x.shape))
        if c is None:
            return None
        err = max(x.err, y.err)
        sym = self.attempt(lambda: mth.where(c.sym, x.sym, y.sym) if s.chance(1, 2) else S.Where(c.sym, x.sym, y.sym),
                           None if x.dyn else "where")
        if sym is None:
            return None

        def ref(c, x, y):
            if c.size == 1:
                return x if c.ravel()[0] != 0 else y
            return np.where(c != 0, x, y)
        key, smin, smax = x.key, x.smin, x.smax
        if x.dyn and x.key != y.key:
            key, smin, smax = self.newkey(), min(x.smin, y.smin), max(x.smax, y.smax)
        return self.add(N(sym, [c, x, y], ref, f"where({self.names(c, x, y)})", x.shape, min(x.lo, y.lo),
                          max(x.hi, y.hi), max(x.k, y.k) if err == 0 else 0, err, key, smin, smax))

    def size_op(self):
        s = self.src
        x = self.pick((lambda n: n.dyn) if s.chance(3, 4) else None)
        if x is None:
            return None
        if x.dyn:
            sym = x.sym.size() if s.chance(1, 2) else S.Size(x.sym)
            lo, hi = x.smin, x.smax
        else:
            got = x.sym.size()
            if got != x.size:
                raise Violation("size", f"{x!r}.size() is {got}, expected {x.size}")
            sym = S.Size(x.sym)
            lo = hi = x.size
        return self.add(N(sym, [x], lambda a: np.asarray(float(a.size)), f"size({x!r})", (), lo, hi))

    # ---------------------------------------------------------------- indexing and restructuring
    def random_slice(self, n, step=True):
        s = self.src
        c = s.draw(6)
        if c == 0:
            return slice(None)

        def bound():
            k = s.draw(5)
            return None if k == 0 else s.range(0, n) if k <= 2 else -s.range(1, n + 1) if k == 3 else s.range(-n - 3, n + 3)
        st = s.range(1, 3) if step and s.chance(1, 2) else None
        if st and s.chance(1, 15):
            st = 10 ** 9 if s.chance(1, 2) else n + 2
        return slice(bound(), bound(), st)

    def basic_index(self, x=None):
        s = self.src
        x = x or self.pick(lambda n: n.shape)
        if x is None:
            return None
        idx = []
        for ax, d in enumerate(x.shape):
            if d == -1:
                idx.append(self.random_slice(x.smax))
            elif s.chance(1, 3) and d:
                idx.append(s.range(-d, d - 1))
            else:
                idx.append(self.random_slice(d))
        if len(idx) > 1 and s.chance(1, 3):
            while len(idx) > 1 and s.chance(1, 2):
                idx.pop()
        conv = [np.int64(i) if not isinstance(i, slice) and s.chance(1, 5) else i for i in idx]
        arg = conv[0] if len(conv) == 1 and s.chance(1, 2) else tuple(conv)
        must = f"basic indexing of {x.shape} with {idx}" if x.contig and (
            not x.dyn or (idx[0].step in (None, 1) and all(i == slice(None) for i in idx[1:]))) else None
        sym = self.attempt(lambda: x.sym[arg], must)
        if sym is None:
            return None
        t = tuple(idx)
        shape, key, smin, smax = None, None, None, None
        if not x.dyn:
            shape = np.empty(x.shape)[t].shape
        else:
            rest = np.empty((0,) + x.shape[1:])[(slice(None),) + t[1:]].shape[1:]
            sl = t[0] if t else slice(None)
            row = int(np.prod(x.shape[1:], dtype=int))
            shape = (-1,) + rest
            key = x.key if sl == slice(None) and rest == x.shape[1:] else ("s", x.key, str(sl), str(t[1:]))
            m = x.smax // max(1, row)
            sizes = [len(range(*sl.indices(j))) for j in range(m + 1)]
            r2 = int(np.prod(rest, dtype=int))
            smin, smax = min(sizes) * r2, max(sizes) * r2
        return self.add(N(sym, [x], lambda a: a[t], f"{x!r}[{', '.join(map(str, idx))}]", shape, x.lo, x.hi, x.k, x.err,
                          key, smin, smax, contig=False))

    def index_node(self, d, shapes=None, dyn=True):
        """A node that is a legal index array for an axis of size d."""
        s = self.src

        def ok(n):
            return (n.integral and n.lo >= 0 and n.hi < d and (shapes is None or (n.shape, n.key) in shapes)
                    and (dyn or not n.dyn))
        n = self.pick(ok)
        if n is not None and not s.chance(1, 5):
            return n
        if d <= 0:
            return n
        if shapes is None:
            k = s.draw(4)
            if k == 0:
                return self.constant(None, 0, d - 1, quarters=False)
            if k == 1 and d <= 8:
                m = self.model
                if s.chance(1, 2) and dyn:
                    sym = m.set(d)
                    dd = Decision("set", sym, [], n=d, min=0, max=d)
                    dd.nodes.append(self.leaf(sym, f"set({d})", (-1,), 0, d - 1, dd, self.newkey(), 0, d))
                else:
                    sym = m.list(d)
                    dd = Decision("list", sym, [], n=d)
                    dd.nodes.append(self.leaf(sym, f"list({d})", (d,), 0, d - 1, dd))
                dd.i = len(self.decs)
                self.decs.append(dd)
                return dd.nodes[0]
            sh = self.small_shape()
            sym = self.model.integer(sh, 0, d - 1)
            dd = Decision("integer", sym, [], shape=sh, lo=0, hi=d - 1)
            dd.nodes.append(self.leaf(sym, f"integer({sh}, 0, {d - 1})", sh, 0, d - 1, dd))
            dd.i = len(self.decs)
            self.decs.append(dd)
            return dd.nodes[0]
        (sh, key) = shapes[0]
        if key is None:
            return self.constant(sh, 0, d - 1, quarters=False)
        return n

    def advanced_index(self, x=None):
        s = self.src
        x = x or self.pick(lambda n: n.shape and not n.dyn and n.size)
        if x is None:
            return None
        nd = len(x.shape)
        kinds = [s.draw(3) for _ in range(nd)]      # 0 array, 1 full slice, 2 int or slice
        if all(kinds):
            kinds[s.draw(nd)] = 0
        if s.chance(1, 2):
            kinds = [0 if k == 0 else 1 for k in kinds]
        first = None
        idx, kids = [], [x]
        slices = any(kinds)
        # arrays mixed with slices come first in what NumPy calls separated by a slice: same rule here
        shape_now = []
        for ax, k in enumerate(kinds):
            d = x.shape[ax]
            if k == 0:
                n = self.index_node(d, None if first is None else [(first.shape, first.key)])
                if n is None or n is x:
                    return None
                if first is None:
                    first = n
                elif (n.shape, n.key) != (first.shape, first.key):
                    return None
                idx.append(n)
                kids.append(n)
            elif k == 1:
                idx.append(slice(None))
            elif s.chance(1, 2):
                idx.append(s.range(-d, d - 1))
            else:
                idx.append(self.random_slice(d))
        while len(idx) > 1 and isinstance(idx[-1], slice) and idx[-1] == slice(None) and s.chance(1, 3):
            idx.pop()
        arg = tuple(n.sym if isinstance(n, N) else n for n in idx)
        if len(arg) == 1 and s.chance(1, 2):
            arg = arg[0]
        must = None
        if x.contig and not any(k == 2 for k in kinds) and all(n.leaf for n in kids[1:]) and (
                len(first.shape) <= 1) and (not first.dyn or kinds[0] == 0):
            must = f"indexing of {x.shape} with arrays {idx}"
        sym = self.attempt(lambda: x.sym[arg], must)
        if sym is None:
            return None
        spec = list(idx)

        def ref(a, *arrays):
            it = iter(arrays)
            t = tuple(next(it).astype(np.intp) if isinstance(i, N) else i for i in spec)
            # integers and arrays are combined in two steps: the integers and slices first, then the arrays
            basic, adv = [], []
            for i in t:
                if isinstance(i, np.ndarray):
                    basic.append(slice(None))
                    adv.append(i)
                elif isinstance(i, slice):
                    basic.append(i)
                    adv.append(slice(None))
                else:
                    basic.append(i)
            return a[tuple(basic)][tuple(adv)]
        sample = ref(np.empty(x.shape), *[np.zeros(tuple(max(q, 0) if q != -1 else 0 for q in n.shape)) for n in kids[1:]])
        shape, key, smin, smax = sample.shape, None, None, None
        if first.dyn:
            # where the state-dependent axis ends up is decided by NumPy
            probe = ref(np.empty(x.shape), *[np.zeros((97,) + n.shape[1:]) for n in kids[1:]])
            shape = tuple(-1 if a != b else a for a, b in zip(sample.shape, probe.shape))
            rest = int(np.prod([q for q in shape if q != -1], dtype=int))
            key = first.key if shape == first.shape else ("a", first.key, shape)
            smin, smax = first.smin * rest // max(1, int(np.prod(first.shape[1:], dtype=int))), \
                first.smax * rest // max(1, int(np.prod(first.shape[1:], dtype=int)))
        return self.add(N(sym, kids, ref, f"{x!r}[{', '.join(map(str, idx))}]", shape, x.lo, x.hi, x.k, x.err, key, smin,
                          smax))

    def permutation_op(self):
        s = self.src
        lists = [n for n in self.nodes if n.cls == "ListVariable" and n.shape[0] > 0 and n.sym is not None]
        if not lists:
            d = self.decision("list")
            if not d.nodes[0].shape[0]:
                return None
            lists = [d.nodes[0]]
        x = s.pick(lists)
        n = x.shape[0]
        cs = [c for c in self.nodes if c.kind == "const" and c.shape == (n, n) and c.sym is not None]
        c = s.pick(cs) if cs and s.chance(1, 2) else self.constant((n, n))
        form = s.draw(4)
        if form == 0:
            sym = c.sym[x.sym, :][:, x.sym]
        elif form == 1:
            sym = c.sym[:, x.sym][x.sym, :]
        elif form == 2:
            sym = S.Permutation(c.sym, x.sym)
        else:
            y = s.pick(lists)
            if y.shape[0] != n:
                y = x
            sym = self.attempt(lambda: c.sym[x.sym, :][:, y.sym], "permutation by two lists")
            if sym is None:
                return None
            return self.add(N(sym, [c, x, y], lambda a, p, q: a[p.astype(int), :][:, q.astype(int)],
                              f"{c!r}[{x!r}, :][:, {y!r}]", (n, n), c.lo, c.hi, c.k, c.err))
        return self.add(N(sym, [c, x], lambda a, p: a[p.astype(int), :][:, p.astype(int)],
                          f"permutation{form}({c!r}, {x!r})", (n, n), c.lo, c.hi, c.k, c.err))

    def reshape_op(self):
        s = self.src
        x = self.pick(lambda n: not n.dyn and n.contig)
        if x is None:
            return None
        n = x.size
        f = []
        rest = n
        while rest > 1 and len(f) < 3 and s.chance(2, 3):
            divs = [d for d in range(1, rest + 1) if rest % d == 0]
            d = s.pick(divs)
            f.append(d)
            rest //= d
        f.append(rest)
        if n == 1 and s.chance(1, 3):
            f = []
        if s.chance(1, 4):
            f.insert(s.draw(len(f) + 1), 1)
        f = tuple(f) if n else ((0,) if s.chance(1, 2) else (0, s.range(0, 3)))
        if len(f) == 1 and s.chance(1, 2):
            build, how = (lambda: x.sym.reshape(f[0])), "int"
        elif f and s.chance(1, 2):
            build, how = (lambda: x.sym.reshape(*f)), "args"
        else:
            build, how = (lambda: x.sym.reshape(f) if s.chance(1, 2) else S.Reshape(x.sym, f)), "tuple"
        sym = self.attempt(build, f"reshape of {x.shape} to {f}")
        if sym is None:
            return None
        return self.add(N(sym, [x], lambda a: a.reshape(f), f"{x!r}.reshape({f})/{how}", f, x.lo, x.hi, x.k, x.err))

    def concatenate_op(self):
        s = self.src
        x = self.pick(lambda n: not n.dyn and n.shape)
        if x is None:
            return None
        axis = s.draw(len(x.shape))
        kids = [x]
        for _ in range(s.range(0, 3)):
            y = self.pick(lambda n: not n.dyn and len(n.shape) == len(x.shape) and all(
                a == b for i, (a, b) in enumerate(zip(n.shape, x.shape)) if i != axis))
            kids.append(y)
        err = max(y.err for y in kids)
        syms = tuple(y.sym for y in kids)
        form = s.draw(3)
        sym = self.attempt(lambda: S.Concatenate(syms, axis) if form == 0 else mth.concatenate(list(syms), axis=axis)
                           if form == 1 else mth.concatenate(syms, axis), "concatenate")
        if sym is None:
            return None
        if len(kids) == 1 and sym.shares_memory(x.sym):
            return None
        shape = list(x.shape)
        shape[axis] = sum(y.shape[axis] for y in kids)
        full = [y for y in kids if y.size] or kids
        return self.add(N(sym, kids, lambda *a: np.concatenate(a, axis=axis), f"concatenate([{self.names(*kids)}], {axis})",
                          shape, min(y.lo for y in full), max(y.hi for y in full),
                          max(y.k for y in kids) if not err else 0, err))

    # ---------------------------------------------------------------- quadratic models
    def quadratic_op(self):
        s = self.src
        x = self.pick(lambda n: not n.dyn and len(n.shape) == 1 and n.exact and n.mag <= 1000 and n.shape[0] >= 1)
        if x is None:
            return None
        n = x.shape[0]
        lin = [0.0] * n
        quad = {}
        terms = []
        for _ in range(s.range(1, 7)):
            u, v = s.draw(n), s.draw(n)
            b = float(s.range(-4, 4)) / s.pick([1, 1, 2])
            terms.append((u, v, b))
        form = s.draw(3)
        if form == 0:      # dictionaries
            q = {}
            for u, v, b in terms:
                q[(u, v)] = b
            terms = [(u, v, b) for (u, v), b in q.items()]
            ld = None
            if s.chance(1, 2):
                ld = {v: float(s.range(-4, 4)) for v in range(n) if s.chance(1, 2)}
                for v, b in ld.items():
                    lin[v] += b
            build = (lambda: self.model.quadratic_model(x.sym, q, ld)) if ld is not None else (
                lambda: self.model.quadratic_model(x.sym, q))
            text = f"quadratic_model({x!r}, {q}, {ld})"
        else:
            vals = np.array([b for _, _, b in terms], dtype=float)
            coords = (np.array([u for u, _, _ in terms], dtype=int), np.array([v for _, v, _ in terms], dtype=int))
            larr = None
            if s.chance(1, 2):
                larr = np.array([float(s.range(-4, 4)) for _ in range(n)])
                lin = list(larr)
            if form == 2:
                coords = tuple(c.tolist() for c in coords)
            build = lambda: self.model.quadratic_model(x.sym, (vals, coords), larr)
            text = f"quadratic_model({x!r}, ({vals.tolist()}, {terms}), {None if larr is None else larr.tolist()})"
        for u, v, b in terms:
            quad[(min(u, v), max(u, v))] = quad.get((min(u, v), max(u, v)), 0.0) + b
        sym = self.attempt(build, "quadratic model " + text)
        if sym is None:
            return None
        L = np.array(lin)
        Q = np.zeros((n, n))
        for (u, v), b in quad.items():
            Q[u, v] = b
        m = float(np.abs(L).sum() * x.mag + np.abs(Q).sum() * x.mag ** 2)
        k = 2 * x.k + 1
        if m * pw(k) >= 2 ** 50:
            return None
        node = self.add(N(sym, [x], lambda a: np.asarray(float(a @ L + a @ Q @ a)), text, (), -m, m, k))
        node.const = (L, Q)
        return node

    # ---------------------------------------------------------------- evaluation and comparison
    def assignment(self, src=None):
        return [d.random(src or self.src) for d in self.decs]

    def evaluate(self, asg, upto=None):
        """The value of every node under the assignment (a list with one entry per decision, None if unknown)."""
        out = []
        dv = {}
        for d, a in zip(self.decs, asg):
            if a is not None:
                for n, v in zip(d.nodes, d.values(a)):
                    dv[n.i] = v
        for n in self.nodes[:upto]:
            if n.kind == "decision":
                out.append(dv.get(n.i))
            elif any(out[x.i] is None for x in n.kids):
                out.append(None)
            else:
                out.append(np.asarray(n.fn(*[out[x.i] for x in n.kids]), dtype=float))
        return out

    def set_all(self, asg, i=0):
        for d, a in zip(self.decs, asg):
            if a is not None:
                d.sym.set_state(i, d.copy(a))

    def compare(self, n, got, ref, where=""):
        self.info.checks += 1
        got = np.asarray(got)
        if got.shape != ref.shape:
            raise Violation("shape:" + n.cls, f"{n!r} = {n.name}: shape {got.shape}, NumPy says {ref.shape} {where}")
        if n.dyn and n.sym.state_size() < 8 * got.size:
            raise Violation("state_size:" + n.cls, f"{n!r} = {n.name} has {got.size} elements, but a state_size of "
                                                   f"{n.sym.state_size()} bytes")
        if got.size == 0:
            return
        if n.exact:
            if not np.array_equal(got, ref):
                raise Violation("value:" + n.cls, f"{n!r} = {n.name} is {show(got)}, NumPy says {show(ref)} {where}")
        else:
            tol = 16 * n.err + 1e-14 * np.abs(ref)
            if not (np.abs(got - ref) <= tol).all():
                raise Violation("value:" + n.cls, f"{n!r} = {n.name} is {show(got)}, NumPy says {show(ref)} {where}")

    def check_state(self, i, asg, nodes=None, where=""):
        ref = self.evaluate(asg)
        for n in nodes or self.nodes:
            if n.sym is not None and ref[n.i] is not None:
                self.compare(n, n.sym.state(i), ref[n.i], f"(state {i}) {where}")
        return ref

    def check_meta(self):
        """Declared shapes agree with NumPy's."""
        for n in self.nodes:
            if n.sym is not None:
                self.info.checks += 1
                if n.sym.shape() != n.shape:
                    raise Violation("declared-shape:" + n.cls, f"{n!r} = {n.name} declares shape {n.sym.shape()}, "
                                                               f"expected {n.shape}")
                if n.sym.ndim() != len(n.shape):
                    raise Violation("declared-ndim:" + n.cls, f"{n!r} = {n.name}: ndim {n.sym.ndim()}")
                if n.contig:
                    st = tuple(8 * int(np.prod(n.shape[a + 1:], dtype=int)) for a in range(len(n.shape)))
                    if n.sym.strides() != st:
                        raise Violation("strides:" + n.cls, f"{n!r} = {n.name}: strides {n.sym.strides()}, expected {st}")
                if not n.dyn and n.sym.size() != n.size:
                    raise Violation("size:" + n.cls, f"{n!r} = {n.name}: size {n.sym.size()}, expected {n.size}")
                b = n.sym.state_size()
                if (b < 0 or b % 8) if n.dyn and not n.leaf else b != 8 * n.maxsize:
                    raise Violation("state_size:" + n.cls, f"{n!r} = {n.name}: state_size {b}")
        m = self.model
        syms = list(m.iter_symbols())
        edges = sum(len(list(x.iter_predecessors())) for x in syms)
        for what, got, want in (
                ("num_nodes", m.num_nodes(), len(syms)), ("num_symbols", m.num_symbols(), len(syms)),
                ("num_edges", m.num_edges(), edges),
                ("num_decisions", m.num_decisions(), len(self.decs)),
                ("iter_decisions", [x.id() for x in m.iter_decisions()], [d.sym.id() for d in self.decs]),
                ("state_size", m.state_size(), sum(x.state_size() for x in syms)),
                ("decision_state_size", m.decision_state_size(), sum(d.sym.state_size() for d in self.decs))):
            self.info.checks += 1
            if got != want:
                raise Violation("count:" + what, f"{what} of the model is {got}, expected {want}")

    ARITH = ["binary_op"] * 8 + ["unary_op"] * 3 + ["reduce_op"] * 4 + ["nary_op"] * 2 + ["inplace_op", "where_op"]
    INDEX = ["basic_index"] * 4 + ["advanced_index"] * 4 + ["reshape_op", "concatenate_op", "permutation_op", "size_op"]
    ALL = ARITH + INDEX + ["quadratic_op"]

    def grow(self, ops, count):
        for _ in range(count):
            name = self.src.pick(ops)
            r = getattr(self, name)()
            if r is not None:
                self.info.f("op:" + name)
            elif not self.info.verbose:
                self.info.f("skip:" + name)

    def start(self, ndec=(1, 3), nconst=(0, 2), kinds=None):
        s = self.src
        self.big = s.chance(1, 20)
        for _ in range(s.range(*ndec)):
            self.decision(s.pick(kinds) if kinds else None)
        for _ in range(s.range(*nconst)):
            self.constant()
