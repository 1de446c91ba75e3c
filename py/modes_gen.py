"""C17: the models of dwave.optimization.generators against the problems they stand for."""
import itertools

import numpy as np

from dwave.optimization import generators as G

from gen import show
from pbt import Violation, Discard


def check(info, cond, tag, msg):
    info.checks += 1
    if not cond:
        raise Violation(tag, msg() if callable(msg) else msg)


class Inputs:
    """Presents arrays in many forms and knows afterwards whether they were changed."""

    def __init__(self, src, info):
        self.src, self.info, self.given = src, info, []

    def arr(self, name, a, ndim, plain=False):
        s = self.src
        a = np.asarray(a, dtype=float)
        integral = bool((a == np.round(a)).all())
        forms = ["float64", "list", "int64", "tuple", "fortran", "strided", "float32", "small", "rows", "readonly",
                 "int32", "reversed"]
        form = s.pick(forms)
        if form in ("int64", "int32") and not integral:
            form = "float64"
        if form == "float32" and not (a.astype(np.float32) == a).all():
            form = "float64"
        if form == "small":
            t = s.pick([np.uint8, np.uint16, np.int8, np.int16, np.uint64])
            if integral and a.size and a.min() >= np.iinfo(t).min and a.max() <= np.iinfo(t).max and (a.astype(t) == a).all():
                a = a.astype(t)
            form = "float64"
        if form == "float64":
            v = a.copy()
        elif form == "list":
            v = (a.astype(int) if integral and s.chance(1, 2) else a).tolist()
        elif form == "tuple":
            v = a.tolist()
            v = tuple(tuple(r) if isinstance(r, list) else r for r in v) if isinstance(v, list) else v
        elif form == "rows" and a.ndim == 2:
            v = [r.copy() for r in a]
        elif form in ("int64", "int32", "float32"):
            v = a.astype(form)
        elif form == "fortran":
            v = np.array(a, order="F")
        elif form == "strided" and a.ndim:
            v = np.repeat(a, 2, axis=-1)[..., ::2]
        elif form == "reversed" and a.ndim:
            v = a[::-1].copy()[::-1]
        else:
            v = a.copy()
            if form == "readonly":
                v.flags.writeable = False
        # documented NumPy-like convenience: missing leading dimensions of size one
        if isinstance(v, np.ndarray) and v.ndim == ndim and v.shape[:1] == (1,) and not plain and s.chance(1, 4):
            v = v[0]
        if self.info.verbose:
            self.info.log(f"  {name} = {type(v).__name__ if not isinstance(v, np.ndarray) else v.dtype}({show(a)}) [{form}]")
        self.given.append((name, v, self.copy(v)))
        return v

    @staticmethod
    def copy(v):
        if isinstance(v, np.ndarray):
            return v.copy()
        if isinstance(v, (list, tuple)):
            return type(v)(Inputs.copy(x) for x in v)
        return v

    @staticmethod
    def same(a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, np.ndarray):
            return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(map(Inputs.same, a, b))
        return a == b

    def unchanged(self):
        for name, v, c in self.given:
            check(self.info, self.same(v, c), "input-modified", lambda: f"the caller's {name} was modified: {v} was {c}")


def numbers(src, shape, lo, hi, frac):
    """lo..hi in steps of one (or a quarter)."""
    n = int(np.prod(shape, dtype=int))
    d = 4 if frac else 1
    style = src.draw(4)
    if style == 0:
        v = [src.range(lo, hi)] * n
    elif style == 1:
        v = [src.pick([lo, hi]) for _ in range(n)]
    else:
        v = [src.range(lo * d, hi * d) / d for _ in range(n)]
    return np.array(v, dtype=float).reshape(shape)


def scale(src):
    return src.pick([1.0, 1.0, 1.0, 1000.0, 2.0 ** 20])


def routes(src, n, v):
    """A random partition of range(n) in v ordered lists, often with empty ones."""
    p = src.shuffle(range(n))
    if src.chance(1, 4):
        cuts = [0] + [0] * (v - 1) + [n]
    else:
        cuts = [0] + sorted(src.draw(n + 1) for _ in range(v - 1)) + [n]
    r = [p[a:b] for a, b in zip(cuts, cuts[1:])]
    return src.shuffle(r)


class Case:
    """One problem: build() gives the model, judge(assignment) its true cost and feasibility."""

    tol = 0.0

    def __init__(self, src, info):
        self.src, self.info, self.inp = src, info, Inputs(src, info)

    def evaluate(self, m, rounds):
        info, src = self.info, self.src
        m.states.resize(src.range(1, 3))
        dec = list(m.iter_decisions())
        d = self.decision(dec)
        for _ in range(rounds):
            i = src.draw(m.states.size())
            a = self.assignment()
            info.steps += 1
            if info.verbose:
                info.log(f"  state {i}: {a!r}")
            d.set_state(i, a)
            cost, ok = self.judge(a)
            got = float(m.objective.state(i))
            check(info, abs(got - cost) <= self.tol * max(1.0, abs(cost)), "objective:" + self.name,
                  lambda: f"{self.name}: the objective is {got}, the cost of {a!r} is {cost}")
            f = bool(m.feasible(i))
            check(info, f == ok, "feasible:" + self.name,
                  lambda: f"{self.name}: feasible is {f}, {a!r} {'satisfies' if ok else 'violates'} the constraints")
            info.f(self.name + (":feasible" if ok else ":infeasible"))

    def decision(self, dec):
        check(self.info, len(dec) == 1, "decisions:" + self.name, lambda: f"{len(dec)} decision variables")
        return dec[0]

    def locked(self):
        return True


class BinPacking(Case):
    name = "bin_packing"

    def make(self):
        s = self.src
        n = s.range(1, 6)
        frac = s.chance(1, 2)
        self.w = numbers(s, (n,), 0, s.pick([3, 9]), frac) * scale(s)
        top = max(self.w.max(), 0.25)
        self.cap = float(s.pick([top, top * 2, top + 1, max(self.w.sum(), 0.25), self.w.sum() + 5]))
        if self.cap == int(self.cap) and s.chance(1, 2):
            self.cap = int(self.cap)
        self.info.log(f"  capacity = {self.cap!r}")
        args = [self.inp.arr("weights", self.w, 1), self.cap]
        return lambda: G.bin_packing(*args)

    def assignment(self):
        s, n = self.src, len(self.w)
        k = s.range(1, n)
        where = [s.draw(k) for _ in range(n)]
        perm = s.shuffle(range(n))
        return [[int(perm[where[i]] == b) for i in range(n)] for b in range(n)]

    def judge(self, a):
        a = np.asarray(a)
        return float((a.sum(axis=1) > 0).sum()), bool((a @ self.w <= self.cap).all())

    def invalid(self):
        s = self.src
        w, cap = list(self.w), self.cap
        k = s.draw(8)
        if k == 0:
            cap = s.pick([0, -1, -0.5])
        elif k == 1:
            w[s.draw(len(w))] = -1
        elif k == 2:
            w[s.draw(len(w))] = s.pick([np.nan, np.inf, -np.inf])
        elif k == 3:
            w[s.draw(len(w))] = cap * 2
        elif k == 4:
            w = []
        elif k == 5:
            w = [w, w]
        elif k == 6:
            w = s.pick([["a"] * len(w), [1j] * len(w), [None] * len(w), "weights"])
        else:
            cap = np.nan
        return f"weights {w}, capacity {cap}", lambda: G.bin_packing(w, cap)


class Knapsack(Case):
    name = "knapsack"

    def make(self):
        s = self.src
        n = s.range(1, 7)
        self.v = numbers(s, (n,), 0, 9, s.chance(1, 2)) * scale(s)
        self.w = numbers(s, (n,), 0, 9, s.chance(1, 2)) * scale(s)
        self.cap = float(s.pick([max(0.25, s.range(1, 20)), max(0.25, self.w.sum()), max(0.25, self.w.max()), 0.5]))
        self.info.log(f"  capacity = {self.cap!r}")
        args = [self.inp.arr("values", self.v, 1), self.inp.arr("weights", self.w, 1), self.cap]
        return lambda: G.knapsack(*args)

    def assignment(self):
        n = len(self.w)
        return self.src.shuffle(range(n))[:self.src.range(0, n)]

    def judge(self, a):
        return -sum(self.v[i] for i in a), bool(sum(self.w[i] for i in a) <= self.cap)

    def invalid(self):
        s = self.src
        v, w, cap = list(self.v), list(self.w), self.cap
        k = s.draw(7)
        if k == 0:
            cap = s.pick([0, -1, -0.5])
        elif k == 1:
            s.pick([v, w])[s.draw(len(w))] = -1
        elif k == 2:
            s.pick([v, w])[s.draw(len(w))] = s.pick([np.nan, np.inf, -np.inf])
        elif k == 3:
            v = v + [1]
        elif k == 4:
            w = w + [0]
        elif k == 5:
            v = [v]
        else:
            w = ["1x"] * len(w)
        return f"values {v}, weights {w}, capacity {cap}", lambda: G.knapsack(v, w, cap)


class QAP(Case):
    name = "quadratic_assignment"

    def make(self):
        s = self.src
        n = s.range(1, 5)
        self.d = numbers(s, (n, n), 0, 9, s.chance(1, 2))
        self.f = numbers(s, (n, n), 0, 9, s.chance(1, 2)) * scale(s)
        args = [self.inp.arr("distance_matrix", self.d, 2), self.inp.arr("flow_matrix", self.f, 2)]
        return lambda: G.quadratic_assignment(*args)

    def assignment(self):
        return self.src.shuffle(range(len(self.d)))

    def judge(self, p):
        n = len(p)
        return float(sum(self.f[i, j] * self.d[p[i], p[j]] for i in range(n) for j in range(n))), True

    def invalid(self):
        s, n = self.src, len(self.d)
        d, f = self.d.copy(), self.f.copy()
        k = s.draw(5)
        x = s.pick([d, f])
        if k == 0:
            x[s.draw(n), s.draw(n)] = s.pick([-1, np.nan, np.inf])
        elif k == 1:
            d = np.zeros((n, n + 1))
        elif k == 2:
            f = np.zeros((n + 1, n + 1))
        elif k == 3:
            f = f[np.newaxis]
        else:
            d = [["q"] * n] * n
        return f"distance_matrix {d}, flow_matrix {f}", lambda: G.quadratic_assignment(d, f)


class TSP(Case):
    name = "traveling_salesperson"

    def make(self):
        s = self.src
        n = s.range(1, 7)
        self.d = numbers(s, (n, n), 0, s.pick([1, 9, 100]), s.chance(1, 2)) * scale(s)
        args = [self.inp.arr("distance_matrix", self.d, 2)]
        return lambda: G.traveling_salesperson(*args)

    def assignment(self):
        return self.src.shuffle(range(len(self.d)))

    def judge(self, p):
        return float(sum(self.d[p[i - 1], p[i]] for i in range(len(p)))), True

    def invalid(self):
        s, n = self.src, len(self.d)
        d = self.d.copy()
        k = s.draw(5)
        if k == 0:
            d[s.draw(n), s.draw(n)] = s.pick([-1, np.nan, np.inf, -np.inf])
        elif k == 1:
            d = np.zeros((n, n + 1))
        elif k == 2:
            d = np.zeros((n + 1, n))
        elif k == 3:
            d = d[np.newaxis]
        else:
            d = s.pick([[["q"] * n] * n, None, [[1j]], [[1, 2], [3]], "d"])
        return f"distance_matrix {d}", lambda: G.traveling_salesperson(d)


class FlowShop(Case):
    name = "flow_shop_scheduling"

    def make(self):
        s = self.src
        self.p = numbers(s, (s.range(1, 4), s.range(1, 5)), 0, 9, s.chance(1, 3)) * scale(s)
        args = [self.inp.arr("processing_times", self.p, 2)]
        return lambda: G.flow_shop_scheduling(*args)

    def assignment(self):
        return self.src.shuffle(range(self.p.shape[1]))

    def judge(self, o):
        M, n = self.p.shape
        free = [0.0] * M       # when each machine is free again
        for job in o:
            t = 0.0
            for k in range(M):
                t = max(t, free[k]) + self.p[k, job]
                free[k] = t
        return free[-1], True

    def invalid(self):
        s = self.src
        p = self.p.copy()
        k = s.draw(4)
        if k == 0:
            p[s.draw(p.shape[0]), s.draw(p.shape[1])] = s.pick([-1, np.nan, np.inf])
        elif k == 1:
            p = p[np.newaxis]
        elif k == 2:
            p = np.zeros(s.pick([(0, 3), (3, 0), (0, 0), (0,)]))
        else:
            p = s.pick([[["x"]], [[1, 2], [3]], [[1j, 2]]])
        return f"processing_times {p}", lambda: G.flow_shop_scheduling(p)


class JobShop(Case):
    name = "job_shop_scheduling"

    def make(self):
        s = self.src
        n, m = s.range(1, 4), s.range(1, 4)
        self.t = numbers(s, (n, m), 0, s.pick([1, 9, 1000]), False)
        self.m = np.array([s.shuffle(range(m)) for _ in range(n)]).reshape(n, m)
        self.ub = None
        if s.chance(1, 3):
            self.ub = s.range(1, int(self.t.sum()) + 5)
        self.info.log(f"  upper_bound = {self.ub}")
        args = [self.inp.arr("times", self.t, 2, plain=True),
                self.inp.arr("machines", self.m + s.draw(2), 2, plain=True)]
        kw = {} if self.ub is None else dict(upper_bound=self.ub)
        return lambda: G.job_shop_scheduling(*args, **kw)

    def assignment(self):
        s = self.src
        n, m = self.t.shape
        ub = int(self.t.sum()) if self.ub is None else self.ub
        a = np.zeros((n, m), dtype=int)
        k = s.draw(4)
        if k == 0:
            return [[s.range(0, ub) for _ in range(m)] for _ in range(n)]
        # a schedule in some order, then perhaps disturbed
        free, ready, nxt = [0] * m, [0] * n, [0] * n
        for j in s.shuffle([j for j in range(n) for _ in range(m)]):
            x = self.m[j, nxt[j]]
            st = max(free[x], ready[j])
            a[j, x] = st
            free[x] = ready[j] = st + int(self.t[j, x])
            nxt[j] += 1
        if k == 1:
            j, x = s.draw(n), s.draw(m)
            a[j, x] += s.range(-2, 2)
        a = np.clip(a, 0, ub)
        return a.tolist()

    def judge(self, a):
        a = np.asarray(a)
        n, m = a.shape
        t = self.t
        # times and starts are given per machine
        ok = all(a[j, self.m[j, k]] + t[j, self.m[j, k]] <= a[j, self.m[j, k + 1]] for j in range(n) for k in range(m - 1))
        for x in range(m):
            for i, j in itertools.combinations(range(n), 2):
                ok = ok and (a[i, x] + t[i, x] <= a[j, x] or a[j, x] + t[j, x] <= a[i, x])
        return float((a + t).max()), bool(ok)

    def decision(self, dec):
        d = super().decision(dec)
        check(self.info, d.shape() == self.t.shape, "decision-shape", lambda: f"{d.shape()} for {self.t.shape}")
        ub = int(self.t.sum()) if self.ub is None else self.ub
        check(self.info, (d.lower_bound(), d.upper_bound()) == (0, ub), "decision-bounds",
              lambda: f"start times in [{d.lower_bound()}, {d.upper_bound()}], upper bound {ub}")
        return d

    def invalid(self):
        s = self.src
        n, m = self.t.shape
        t, mm, ub = self.t.astype(int), self.m.copy(), None
        k = s.draw(7)
        if k == 0:
            t[s.draw(n), s.draw(m)] = -1
        elif k == 1:
            mm[s.draw(n), s.draw(m)] = s.pick([m, m + 3]) if mm.min() == 0 else 0
            if sorted(mm.ravel()) == sorted(list(range(1, m + 1)) * n):
                mm[0, 0] = -1
        elif k == 2:
            mm = np.vstack([mm, mm[:1]])
        elif k == 3:
            ub = s.pick([0, -1, -5])
        elif k == 4:
            t, mm = np.zeros((0, m), dtype=int), np.zeros((0, m), dtype=int)
        elif k == 5:
            t = [[s.pick(["x", np.nan, np.inf]) for _ in range(m)] for _ in range(n)]
        elif m > 1:
            mm[s.draw(n), 0] = mm[0, 1] if n == 1 else mm[s.draw(n), 1]
            if all(sorted(r) == list(range(m)) for r in mm):
                mm[0, 0] = mm[0, 1]
        else:
            mm = mm + 2
        kw = {} if ub is None else dict(upper_bound=ub)
        return f"times {t}, machines {mm}, {kw}", lambda: G.job_shop_scheduling(t, mm, **kw)


class CVRP(Case):
    name = "capacitated_vehicle_routing"

    def make(self):
        s = self.src
        n, v = s.range(1, 6), s.range(1, 4)
        self.n, self.v = n, v
        dem = numbers(s, (n,), 1, 9, s.chance(1, 3)) * s.pick([1.0, 1.0, 1000.0])
        self.dem = dem
        need = dem.sum() / v
        self.cap = float(np.ceil(need * 4) / 4) + s.pick([0, 0, 1, 5, 1000])
        if self.cap == int(self.cap) and s.chance(1, 2):
            self.cap = int(self.cap)
        inp = self.inp
        self.how = s.draw(3)
        args = {}
        if self.how == 0:
            self.D = numbers(s, (n + 1, n + 1), 0, s.pick([9, 100]), s.chance(1, 3)) * scale(s)
            args["distances"] = inp.arr("distances", self.D, 2)
            demand = np.append(0, dem)
        else:
            x = numbers(s, (n + 1,), s.pick([0, -20]), 20, s.chance(1, 3))
            y = numbers(s, (n + 1,), s.pick([0, -20]), 20, s.chance(1, 3))
            self.D = np.sqrt((x[:, None] - x) ** 2 + (y[:, None] - y) ** 2)
            self.tol = 1e-9
            if self.how == 1:
                args["locations_x"], args["locations_y"] = inp.arr("locations_x", x, 1), inp.arr("locations_y", y, 1)
                demand = np.append(0, dem)
            else:
                args["locations_x"] = inp.arr("locations_x", x[1:], 1)
                args["locations_y"] = inp.arr("locations_y", y[1:], 1)
                args["depot_x_y"] = inp.arr("depot_x_y", [x[0], y[0]], 1)
                demand = dem
        d = inp.arr("demand", demand, 1)
        self.info.log(f"  vehicles = {v}, capacity = {self.cap!r}")
        return lambda: G.capacitated_vehicle_routing(d, v, self.cap, **args)

    def assignment(self):
        return routes(self.src, self.n, self.v)

    def judge(self, R):
        cost, ok = 0.0, True
        for r in R:
            p = [0] + [i + 1 for i in r] + [0]
            if r:
                cost += sum(self.D[a, b] for a, b in zip(p, p[1:]))
            ok = ok and sum(self.dem[i] for i in r) <= self.cap
        return cost, bool(ok)

    def decision(self, dec):
        return super().decision(dec)

    def invalid(self):
        s, n = self.src, self.n
        dem, v, cap = np.append(0, self.dem), self.v, self.cap
        D, x, y, depot = self.D.copy(), None, None, None
        k = s.draw(14)
        if k == 0:
            v = s.pick([0, -1, 1.5, "2", None])
        elif k == 1:
            cap = s.pick([0, -1])
        elif k == 2:
            dem = dem.copy()
            dem[s.draw(n + 1)] = s.pick([-1, np.nan, np.inf, -np.inf])
        elif k == 3:
            dem[0] = 1
            cap = cap + 1
        elif k == 4:
            dem[1 + s.draw(n)] = 0
        elif k == 5:
            D[s.draw(n + 1), s.draw(n + 1)] = s.pick([-1, np.nan, np.inf])
        elif k == 6:
            D = D[:, :-1]
        elif k == 7:
            D = np.zeros((n + 2, n + 2))
        elif k == 8:
            x = y = np.zeros(n + 1)
        elif k == 9:
            depot = [0, 0]
        elif k == 10:
            D = None
            x, y = np.arange(n + 1.), np.arange(n + 2.)
            if s.chance(1, 2):
                x, y = y, x
        elif k == 11:
            D = None
            x = y = np.arange(n + 1.)
            depot = [0, 0]
        elif k == 12:
            D = None
            x = y = np.arange(float(n))
            dem = self.dem
            depot = s.pick([None, [0], [0, 0, 0], [np.nan, 0], [[0, 0], [1, 1]], "xy"])
        else:
            cap = self.dem.sum() / (v * 2)
        return (f"demand {dem}, vehicles {v}, capacity {cap}, distances {D}, x {x}, y {y}, depot {depot}",
                lambda: G.capacitated_vehicle_routing(dem, v, cap, D, x, y, depot))


class CVRPTW(Case):
    name = "capacitated_vehicle_routing_with_time_windows"

    def make(self):
        s = self.src
        n, v = s.range(1, 5), s.range(1, 3)
        self.n, self.v = n, v
        frac = s.chance(1, 3)
        k = s.pick([1.0, 1.0, 1000.0, 2.0 ** 20])
        self.dem = numbers(s, (n,), 1, 5, s.chance(1, 3))
        self.cap = float(np.ceil(self.dem.sum() / v * 4) / 4) + s.pick([0, 0, 1, 5, 1000])
        self.D = numbers(s, (n + 1, n + 1), 0, 9, frac) * k
        if s.chance(1, 2):
            self.D = (self.D + self.D.T)
        self.open = np.append(0, numbers(s, (n,), 0, s.pick([0, 9, 30]), frac)) * k
        self.close = np.append(s.range(5, 60), numbers(s, (n,), 1, s.pick([15, 60]), frac)) * k
        self.serv = np.append(0, numbers(s, (n,), 0, s.pick([0, 3]), frac)) * k
        inp = self.inp
        args = [inp.arr("time_distances", self.D, 2), inp.arr("time_window_open", self.open, 1),
                inp.arr("time_window_close", self.close, 1), inp.arr("service_time", self.serv, 1)]
        d = inp.arr("demand", np.append(0, self.dem), 1)
        self.info.log(f"  vehicles = {v}, capacity = {self.cap!r}")
        return lambda: G.capacitated_vehicle_routing_with_time_windows(d, v, self.cap, *args)

    def assignment(self):
        return routes(self.src, self.n, self.v)

    def judge(self, R):
        cost, ok = 0.0, True
        longest = 3 * max(1, self.n // self.v)
        for r in R:
            ok = ok and sum(self.dem[i] for i in r) <= self.cap and len(r) <= longest
            t, at = 0.0, 0
            for i in r:
                i += 1
                t = max(t + self.D[at, i], self.open[i]) + self.serv[i]
                ok = ok and t <= self.close[i]
                cost += self.D[at, i]
                at = i
            if r:
                cost += self.D[at, 0]
                ok = ok and t + self.D[at, 0] <= self.close[0]
        return cost, bool(ok)

    def invalid(self):
        s, n = self.src, self.n
        dem, v, cap = np.append(0, self.dem), self.v, self.cap
        a = [self.D.copy(), self.open.copy(), self.close.copy(), self.serv.copy()]
        k = s.draw(11)
        if k == 0:
            v = s.pick([0, -1, 1.5, None])
        elif k == 1:
            cap = s.pick([0, -1])
        elif k == 2:
            dem[1 + s.draw(n)] = s.pick([-1, np.nan, np.inf, 0])
        elif k == 3:
            dem[0] = 1
            cap += 1
        elif k == 4:
            s.pick(a).flat[s.draw(n + 1)] = s.pick([-1, np.nan, np.inf])
        elif k == 5:
            a[0] = a[0][:, :-1]
        elif k == 6:
            j = s.range(1, 3)
            a[j] = a[j][:-1] if s.chance(1, 2) else np.append(a[j], 1)
        elif k == 7:
            a[0] = np.zeros((n + 2, n + 2))
        elif k == 8:
            j = s.range(1, 3)
            a[j] = np.vstack([a[j], a[j]])
        elif k == 9:
            a[3][0] = 1
        else:
            cap = self.dem.sum() / (v * 2)
        return (f"demand {dem}, vehicles {v}, capacity {cap}, times {a[0]}, open {a[1]}, close {a[2]}, service {a[3]}",
                lambda: G.capacitated_vehicle_routing_with_time_windows(dem, v, cap, *a))


class CQM(Case):
    name = "constrained_quadratic_model"

    def polynomial(self, least):
        import dimod
        s = self.src
        q = dimod.QuadraticModel()
        kind = s.draw(5)
        names = [x for x in self.vars if s.chance(2, 3)] if kind else []
        if len(names) < least:
            names = self.vars[:least]
        for x in s.shuffle(names):
            q.add_variable("BINARY", x)
            q.set_linear(x, s.range(-12, 12) / 4)
        if kind >= 2 and len(names) >= 2:
            for _ in range(s.range(1, 5)):
                i, j = s.draw(len(names)), s.draw(len(names))
                if i != j:
                    q.add_quadratic(names[i], names[j], s.range(-12, 12) / 4)
        if s.chance(1, 3):
            q.offset = s.range(-8, 8) / 4
        return q

    def make(self):
        import dimod
        s = self.src
        n = s.range(1, 6)
        self.vars = [s.pick([f"x{i}", i, ("t", i)]) for i in range(n)]
        cqm = dimod.ConstrainedQuadraticModel()
        for x in s.shuffle(self.vars):
            cqm.add_variable("BINARY", x)
        if s.chance(4, 5):
            cqm.set_objective(self.polynomial(0))
        for _ in range(s.range(0, 3)):
            cqm.add_constraint_from_model(self.polynomial(0 if s.chance(1, 6) else 1), s.pick(["<=", ">=", "=="]), s.range(-8, 8) / 4)
        self.cqm = cqm
        self.info.log(f"  {cqm.objective} " + " ".join(str(c) for c in cqm.constraints.values()))
        return lambda: G._from_constrained_quadratic_model(cqm)

    def locked(self):
        return False

    def assignment(self):
        return [self.src.draw(2) for _ in self.vars]

    def judge(self, a):
        sample = dict(zip(self.cqm.variables, a))

        def value(q):
            e = q.offset + sum(q.get_linear(v) * sample[v] for v in q.variables)
            return e + sum(b * sample[u] * sample[v] for u, v, b in q.iter_quadratic())
        ok = True
        for c in self.cqm.constraints.values():
            e = value(c.lhs)
            ok = ok and {"<=": e <= c.rhs, ">=": e >= c.rhs, "==": e == c.rhs}[c.sense.value]
        return float(value(self.cqm.objective)), bool(ok)

    def invalid(self):
        import dimod
        s = self.src
        cqm = dimod.ConstrainedQuadraticModel()
        for i, x in enumerate(self.vars):
            cqm.add_variable("BINARY", x)
        cqm.add_variable(s.pick(["INTEGER", "SPIN", "REAL"]), "other")
        return "a variable that is not binary", lambda: G._from_constrained_quadratic_model(cqm)


CASES = [BinPacking, Knapsack, QAP, TSP, FlowShop, JobShop, CVRP, CVRPTW, CQM]


def c17(src, info):
    c = src.pick(CASES)(src, info)
    info.log(f"  {c.name}")
    build = c.make()
    info.f(c.name)
    m = build()
    c.inp.unchanged()
    if c.locked():
        check(info, m.is_locked(), "locked:" + c.name, "the generated model is not locked")
    else:
        m.lock()
    info.nontrivial = sum(np.size(v) for _, v, _ in c.inp.given) >= 4 or c.name == CQM.name
    c.evaluate(m, src.range(1, 4))
    c.inp.unchanged()
    if src.chance(1, 3):
        what, f = c.invalid()
        info.log(f"  {c.name} must refuse {what}")
        info.checks += 1
        try:
            f()
        except ValueError:
            info.refused += 1
        else:
            raise Violation("accepted:" + c.name, f"{c.name} accepted the invalid {what}")
