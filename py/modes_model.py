"""C10 (Python side) to C16: properties of models, their states and their files."""
import gc
import io
import os
import tempfile

import numpy as np

from dwave.optimization import Model

from gen import World, N, Decision, show, REFUSALS, RAW, S
from pbt import Violation, Discard

REF = REFUSALS + (OverflowError, RuntimeError)


def check(info, cond, tag, msg):
    info.checks += 1
    if not cond:
        raise Violation(tag, msg() if callable(msg) else msg)


def must_refuse(info, tag, f, what):
    info.checks += 1
    try:
        r = f()
    except REF:
        info.refused += 1
        return
    raise Violation(tag, f"accepted: {what} (gave {r!r})")


# ------------------------------------------------------------------------------------------------ decisions
def to_number(x):
    return float(x)


def legal(d, a):
    """Is a (an array, or a list of arrays) a legal assignment of d?"""
    p = d.par
    if d.kind in ("binary", "integer"):
        x = np.asarray(a, dtype=float)
        lo, hi = (0, 1) if d.kind == "binary" else (p["lo"], p["hi"])
        return x.size == int(np.prod(p["shape"], dtype=int)) and bool(
            np.all((x >= lo) & (x <= hi) & (x == np.floor(x))))
    if d.kind in ("list", "set"):
        x = np.asarray(a, dtype=float)
        if x.ndim != 1:
            return False
        v = x.tolist()
        lo, hi = (p["n"], p["n"]) if d.kind == "list" else (p["min"], p["max"])
        return lo <= len(v) <= hi and len(set(v)) == len(v) and all(e == int(e) and 0 <= e < p["n"] for e in v)
    if d.kind == "bitsets":
        if len(a) != p["k"]:
            return False
        x = np.asarray([np.asarray(y, dtype=float) for y in a])
        return x.shape == (p["k"], p["n"]) and bool(np.all((x == 0) | (x == 1))) and bool(np.all(x.sum(axis=0) == 1))
    v = [e for y in a for e in np.asarray(y, dtype=float).ravel().tolist()]
    return len(a) == p["k"] and sorted(v) == list(range(p["n"]))


def read(d, i):
    """The decision's state in the form of an assignment."""
    if d.kind == "bitsets":
        return np.array([n.sym.state(i) for n in d.nodes]).reshape(d.par["k"], d.par["n"])
    if d.kind == "lists":
        return [n.sym.state(i) for n in d.nodes]
    return d.sym.state(i)


def read_checked(w, d, i):
    a = read(d, i)
    w.info.checks += 1
    if not legal(d, a):
        raise Violation("illegal-state:" + d.kind, f"state {i} of {d.nodes[0].name if d.nodes else d.kind} reads {show(a)}")
    want = d.par.get("shape")
    if want is not None and a.shape != tuple(want):
        raise Violation("state-shape:" + d.kind, f"state {i} reads {a.shape}, declared {want}")
    return a


def present(src, d, a):
    """The assignment in one of the forms a user may pass."""
    form = src.draw(6)
    if d.kind == "lists":
        if form == 0:
            return [x.copy() for x in a]
        if form == 1:
            return [x.astype(int).tolist() for x in a]
        if form == 2:
            return tuple(tuple(int(e) for e in x) for x in a)
        return [x.astype(src.pick([np.int64, np.float64, np.int32, np.int8])) for x in a]
    a = np.asarray(a)
    if form == 0:
        return a.copy()
    if form == 1:
        return a.tolist() if a.shape else a.item()
    if form == 2:
        return a.astype(int).tolist() if a.shape else int(a)
    if form == 3:
        if np.all((a == 0) | (a == 1)) and d.kind in ("binary", "bitsets"):
            return a.astype(bool)
        return a.astype(np.int64)
    if form == 4:
        return np.asfortranarray(a.astype(np.int64))
    b = np.repeat(a[..., None], 2, axis=-1)[..., 0]  # strided view
    return b


def spoil(src, d, a):
    """A variation of a legal assignment that is probably not legal, and its meaning as numbers (or None)."""
    p = d.par
    k = src.draw(8)
    if d.kind in ("bitsets", "lists"):
        b = [np.array(x, dtype=float) for x in a]
        if k == 0:
            b = b[:-1]
        elif k == 1:
            b = b + [np.zeros(p["n"]) if d.kind == "bitsets" else np.zeros(0)]
        elif d.kind == "bitsets":
            if not p["n"]:
                return None
            i, j = src.draw(p["k"]), src.draw(p["n"])
            if k in (2, 3, 4):
                b[i][j] = 1 - b[i][j]
            elif k == 5:
                b = [x[:-1] for x in b]
            elif k == 6:
                b = [np.concatenate([x, [0.0]]) for x in b]
            else:
                b[i] = 1 - b[i]
        else:
            i = src.draw(p["k"])
            if k in (2, 3):
                b[i] = np.concatenate([b[i], [float(src.range(-1, p["n"]))]])
            elif k == 4:
                b[i] = b[i][:-1]
            elif b[i].size:
                b[i][src.draw(b[i].size)] = float(src.range(-1, p["n"]))
            if k == 7 and b[i].size:
                b[i][0] = src.pick([2.0 ** 40, -(2.0 ** 40), 1e15])
        return b
    x = np.array(a, dtype=float)
    if k == 0:
        return np.concatenate([x.ravel(), [float(src.range(-1, 3))]])
    if k == 1 and x.size:
        return x.ravel()[:-1]
    if x.size:
        f = x.reshape(-1)
        j = src.draw(x.size)
        if k in (2, 3):
            f[j] = src.range(-1, p.get("n", 3))
        elif k == 4:
            f[j] = src.pick([2, -1, p.get("hi", 1) + 1, p.get("lo", 0) - 1])
        elif k == 5:
            f[j] = src.pick([0.5, 1.5, -0.5, float("nan"), float("inf"), -float("inf")])
        elif k == 6:
            f[j] = src.pick([2.0 ** 31, 2.0 ** 32, 2.0 ** 53, -(2.0 ** 32), 1e15, 2.0 ** 32 + 1])
        else:
            f[j] = f[src.draw(x.size)]
        return x
    return x


# ------------------------------------------------------------------------------------------------ C10
def c10(src, info):
    w = World(src, info)
    for _ in range(src.range(1, 2)):
        w.decision(src.pick(["binary", "integer", "list", "bitsets"]), (src.range(1, 5),))
    w.grow(["binary_op", "unary_op", "advanced_index", "basic_index"], src.range(0, 3))
    made = [n for n in (w.quadratic_op() for _ in range(src.range(1, 3))) if n is not None]
    if not made:
        raise Discard()
    w.grow(["binary_op", "nary_op"], src.range(0, 2))

    def queries(nodes):
        for n in nodes:
            L, Q = n.const
            k = len(L)
            logical = n.kids[0].lo >= 0 and n.kids[0].hi <= 1
            check(info, n.sym.num_variables() == k, "num_variables", lambda: f"{n.name}: {n.sym.num_variables()}")
            for u in range(k):
                # for binary variables x*x == x, so that the diagonal may be kept in the linear terms
                gl, gq = n.sym.get_linear(u), n.sym.get_quadratic(u, u)
                ok = (gl, gq) == (L[u], Q[u, u]) or (logical and (gl, gq) == (L[u] + Q[u, u], 0))
                check(info, ok, "linear-query", lambda: f"{n.name}: linear {gl}, diagonal {gq} of {u}, "
                                                        f"expected {L[u]}, {Q[u, u]}")
                for v in range(k):
                    if u != v:
                        g = n.sym.get_quadratic(u, v)
                        check(info, g == Q[min(u, v), max(u, v)], "quadratic-query",
                              lambda: f"{n.name}: quadratic bias of {u}, {v} is {g}")
            nz = int((np.triu(Q, 1) != 0).sum())
            g = n.sym.num_interactions()
            check(info, nz <= g <= k * (k + 1) // 2, "num_interactions", lambda: f"{n.name}: {g} interactions")

    queries(made)
    states(w, info, src, 2)
    if src.chance(1, 2):
        inter = [n.sym.num_interactions() for n in made]
        w2 = reload(w, src, info)
        made2 = [w2.nodes[n.i] for n in made]
        queries(made2)
        check(info, inter == [n.sym.num_interactions() for n in made2], "num_interactions:loaded", "changed by saving")
        states(w2, info, src, 1)
    info.nontrivial = True


def states(w, info, src, count, where=""):
    m = w.model
    m.states.resize(max(1, count))
    with m.lock():
        for r in range(count):
            asg = w.assignment()
            i = src.draw(m.states.size())
            info.steps += 1
            info.log(f"  state {i} {where}: " + "; ".join(f"{d.kind}={show(a)}" for d, a in zip(w.decs, asg)))
            w.set_all(asg, i)
            w.check_state(i, asg, where=where)


# ------------------------------------------------------------------------------------------------ C11
def c11(src, info):
    w = World(src, info)
    w.start((1, 4), (0, 1))
    w.grow(World.ALL, src.range(0, 5))
    m = w.model
    ns = src.range(1, 3)
    m.states.resize(ns)
    table = [[None] * len(w.decs) for _ in range(ns)]
    steps = src.range(2, 12)

    def verify(i, where):
        with m.lock():
            for d in w.decs:
                if table[i][d.i] is None:
                    if not src.chance(1, 3):
                        continue
                    table[i][d.i] = read_checked(w, d, i)
                    info.f("default state read")
                got = read_checked(w, d, i)
                check(info, d.equal(got, table[i][d.i]), "stored:" + d.kind,
                      lambda: f"state {i} of {d.nodes[0].name} reads {show(got)}, expected {show(table[i][d.i])} {where}")
            w.check_state(i, table[i], where=where)

    for _ in range(steps):
        i = src.draw(ns)
        d = src.pick(w.decs)
        a = d.random(src)
        info.steps += 1
        held = src.chance(1, 2)
        if held:
            m.lock()
        if src.chance(1, 2):
            v = present(src, d, a)
            if d.kind == "binary" and src.chance(1, 4):
                v = np.asarray(v).astype(bool)
            info.log(f"  set {d.nodes[0].name} state {i} := {v!r}")
            try:
                d.sym.set_state(i, v)
            except Exception as e:
                raise Violation("refused-legal:" + d.kind, f"{v!r} for {d.nodes[0].name}: {e!r}")
            table[i][d.i] = a
            if isinstance(v, np.ndarray) and v.flags.writeable and v.size:
                v.flat[0] = 1 - v.flat[0] if v.dtype != bool else not v.flat[0]  # the state is a copy
            info.f("legal set:" + d.kind)
        else:
            v = spoil(src, d, a)
            if v is None:
                if held:
                    m.unlock()
                continue
            info.log(f"  set {d.nodes[0].name} state {i} := {v!r}")
            flat = np.concatenate([np.ravel(x) for x in v]) if isinstance(v, list) and v else np.ravel(v)
            whole = bool(np.all(np.isfinite(flat))) and bool(np.all(flat == np.floor(flat)))
            lg = whole and legal(d, v)
            try:
                d.sym.set_state(i, v)
                ok = True
            except Exception as e:
                if not isinstance(e, REF):
                    raise
                ok = False
                info.refused += 1
            if whole:
                check(info, ok == lg, ("accepted-illegal:" if ok else "refused-legal:") + d.kind,
                      lambda: f"{v!r} for {d.nodes[0].name} was {'accepted' if ok else 'refused'}")
            if ok and whole:
                if d.kind in ("binary", "integer"):
                    v = v.reshape(d.par["shape"])
                table[i][d.i] = v
            elif ok:
                # converted by NumPy's rules: what is stored is legal all the same
                with m.lock():
                    table[i][d.i] = read_checked(w, d, i)
            info.f(("illegal set:" if not ok else "spoilt but legal:") + d.kind)
        if held:
            m.unlock()
        if src.chance(1, 3):
            j = src.pick([ns, ns + 1, -1 - ns, 2 ** 40])
            must_refuse(info, "accepted-index", lambda: d.sym.set_state(j, d.copy(a)), f"state index {j} of {ns}")
        verify(i, "right after")
        if src.chance(1, 4):
            for j in range(ns):
                verify(j, "all states")
    for j in range(ns):
        verify(j, "at the end")
    info.nontrivial = steps >= 3


# ------------------------------------------------------------------------------------------------ files
def goals(w, src):
    """An objective and constraints."""
    if src.chance(3, 4):
        n = w.pick(lambda n: not n.dyn and n.size == 1)
        if n is not None:
            w.model.minimize(n.sym)
            w.objective = n
            w.info.log(f"  minimize({n!r})")
    for _ in range(src.range(0, 3)):
        n = w.pick(lambda n: not n.dyn and n.size == 1 and n.boolean)
        if n is not None:
            try:
                w.model.add_constraint(n.sym)
            except REF:
                continue  # not known to be logical by its bounds
            w.constraints.append(n)
            w.info.log(f"  add_constraint({n!r})")


def rebind(w, m2, index):
    """The same world with the symbols of another model; index maps node/decision -> position."""
    syms = list(m2.iter_symbols())
    w2 = World(w.src, w.info, m2)
    for n in w.nodes:
        c = N.__new__(N)
        for f in N.__slots__:
            setattr(c, f, getattr(n, f))
        c.kids = [w2.nodes[x.i] for x in n.kids]
        c.sym = syms[index[("n", n.i)]] if n.sym is not None else None
        c.cls = n.cls
        if c.sym is not None and type(c.sym).__name__ != n.cls:
            raise Violation("loaded-type", f"{n!r} = {n.name} became a {type(c.sym).__name__}")
        w2.nodes.append(c)
    for d in w.decs:
        s = syms[index[("d", d.i)]]
        if type(s) is not type(d.sym):
            raise Violation("loaded-type", f"decision {d.kind} became a {type(s).__name__}")
        c = Decision(d.kind, s, [w2.nodes[n.i] for n in d.nodes], **d.par)
        c.i = d.i
        for n in c.nodes:
            n.dec = c
        w2.decs.append(c)
    w2.keys = w.keys
    w2.objective = None if w.objective is None else w2.nodes[w.objective.i]
    w2.constraints = [w2.nodes[n.i] for n in w.constraints]
    return w2


def positions(w):
    """Position of every node and decision in the order of the file."""
    with w.model.lock():
        ix = {("n", n.i): n.sym.topological_index() for n in w.nodes if n.sym is not None}
        ix.update({("d", d.i): d.sym.topological_index() for d in w.decs})
    return ix


def structure(m):
    with m.lock():
        syms = list(m.iter_symbols())
        r = [(type(x).__name__, x.shape() if hasattr(x, "shape") else None,
              tuple(p.topological_index() for p in x.iter_predecessors()), params(x)) for x in syms]
        obj = None if m.objective is None else m.objective.topological_index()
        con = [c.topological_index() for c in m.iter_constraints()]
        return r, obj, con, m.num_decisions()


def params(x):
    t = type(x).__name__
    if t == "Constant":
        a = np.asarray(x)
        return a.shape, a.tobytes()
    if t == "IntegerVariable":
        return x.lower_bound(), x.upper_bound()
    if t == "DisjointBitSet":
        return x.set_index()
    if t == "DisjointList":
        return x.list_index()
    if t == "DisjointBitSets":
        return x.num_disjoint_sets()
    if t == "DisjointLists":
        return x.num_disjoint_lists()
    if t == "Concatenate":
        return x.axis()
    if t == "PartialSum":
        return tuple(x.axes())
    if t == "QuadraticModel":
        k = x.num_variables()
        return (k, tuple(x.get_linear(u) for u in range(k)),
                tuple(x.get_quadratic(u, v) for u in range(k) for v in range(u + 1)))
    return None


def save(m, src, **kw):
    """A file with the model, written in one of the supported ways; returns a callable that loads it."""
    form = src.draw(3)
    check_header = not src.chance(1, 4)
    if form == 0:
        f = m.to_file(**kw)
        return lambda: Model.from_file(f, check_header=check_header)
    if form == 1:
        b = io.BytesIO()
        m.into_file(b, **kw)
        b.seek(0)
        return lambda: Model.from_file(b, check_header=check_header)
    fd, path = tempfile.mkstemp(prefix="dwo", suffix=".nl")
    os.close(fd)
    m.into_file(path, **kw)

    def load():
        try:
            return Model.from_file(path, check_header=check_header)
        finally:
            os.unlink(path)
    return load


def reload(w, src, info, **kw):
    ix = positions(w)
    m2 = save(w.model, src, **kw)()
    check(info, m2.num_nodes() == w.model.num_nodes(), "loaded-size",
          lambda: f"{m2.num_nodes()} symbols, {w.model.num_nodes()} were saved")
    return rebind(w, m2, ix)


def known_states(w, table):
    """What the model must contain, from the table of assignments (None = never set)."""
    for i, row in enumerate(table):
        for d in w.decs:
            h = d.sym.has_state(i)
            check(w.info, h == (row[d.i] is not None), "has_state:" + d.kind,
                  lambda: f"state {i} of {d.nodes[0].name}: has_state is {h}")
            g = d.sym.has_state(i - len(table))
            check(w.info, g == h, "has_state:negative", lambda: f"has_state({i - len(table)}) of {len(table)} is {g}, "
                                                                f"has_state({i}) is {h}")
            if h:
                with w.model.lock():
                    got = read(d, i)
                check(w.info, d.equal(got, row[d.i]), "saved-state:" + d.kind,
                      lambda: f"state {i} of {d.nodes[0].name} reads {show(got)}, expected {show(row[d.i])}")


def fill(w, src, ns, p=(2, 3)):
    m = w.model
    m.states.resize(ns)
    table = []
    for i in range(ns):
        row = []
        for d in w.decs:
            if src.chance(*p):
                a = d.random(src)
                d.sym.set_state(i, d.copy(a))
                row.append(a)
            else:
                row.append(None)
        table.append(row)
        w.info.log(f"  state {i}: " + "; ".join(f"{d.kind}={'-' if a is None else show(a)}" for d, a in zip(w.decs, row)))
    return table


def c12(src, info):
    w = World(src, info)
    w.start((1, 4), (0, 3))
    w.grow(World.ALL, src.range(1, 10) if not src.chance(1, 40) else src.range(20, 120))
    goals(w, src)
    m = w.model
    ns = src.range(0, 3) if not src.chance(1, 20) else src.range(4, 14)
    table = fill(w, src, ns)
    lock = src.chance(1, 3)
    if lock:
        m.lock()
    if ns and src.chance(1, 3):
        with m.lock():  # reading initialises what was not set
            n = w.pick()
            j = src.draw(ns)
            n.sym.state(j)
            for d in w.decs:
                if table[j][d.i] is None and d.sym.has_state(j):
                    table[j][d.i] = read_checked(w, d, j)
    before = structure(m)
    maxs = src.pick([0, ns, 1, 10])
    keep = min(maxs, ns)
    info.log(f"  save with max_num_states={maxs}")
    ix = positions(w)
    load = save(m, src, max_num_states=maxs)
    m2 = load()
    check(info, structure(m) == before, "saving-changes", "saving changed the model")
    check(info, m.is_locked() == lock, "saving-lock", "saving changed the lock")
    known_states(w, table)
    check(info, m2.num_nodes() == m.num_nodes(), "loaded-size", lambda: f"{m2.num_nodes()} symbols, {m.num_nodes()} saved")
    check(info, not m2.is_locked(), "loaded-lock", "the loaded model is locked")
    check(info, m2.states.size() == keep, "loaded-states", lambda: f"{m2.states.size()} states, expected {keep}")
    w2 = rebind(w, m2, ix)
    # symbols, parameters, operand order, objective, constraints
    order = {s.id(): i for i, s in enumerate(m2.iter_symbols())}
    after = [(type(x).__name__, x.shape() if hasattr(x, "shape") else None,
              tuple(order[p.id()] for p in x.iter_predecessors()), params(x)) for x in m2.iter_symbols()]
    for i, (a, b) in enumerate(zip(before[0], after)):
        check(info, a == b, "loaded-symbol:" + a[0], lambda: f"symbol {i}: saved {a}, loaded {b}")
    obj = None if m2.objective is None else order[m2.objective.id()]
    check(info, obj == before[1], "loaded-objective", lambda: f"objective {obj}, saved {before[1]}")
    con = [order[c.id()] for c in m2.iter_constraints()]
    check(info, con == before[2], "loaded-constraints", lambda: f"constraints {con}, saved {before[2]}")
    check(info, m2.num_decisions() == before[3], "loaded-decisions", "number of decisions")
    known_states(w2, table[:keep])
    w2.check_meta()
    with m2.lock():
        for i in range(keep):
            if all(a is not None for a in table[i]):
                w2.check_state(i, table[i], where="loaded state")
    states(w2, info, src, src.range(1, 2), "of the loaded model")
    for d in w2.decs:  # the parameters that cannot be queried
        if d.kind == "set":
            p = d.par
            for size in (p["min"] - 1, p["max"] + 1):
                if 0 <= size <= p["n"]:
                    must_refuse(info, "loaded-set-size", lambda: d.sym.set_state(0, list(range(size))),
                                f"{size} elements for {d.nodes[0].name} of the loaded model")
    if src.chance(1, 2):
        info.log("  save the loaded model and load it")
        w3 = reload(w2, src, info)
        s2, s3 = structure(m2), structure(w3.model)
        check(info, sorted(map(repr, s2[0])) == sorted(map(repr, s3[0])) or sorted(x[0] for x in s2[0]) == sorted(
            x[0] for x in s3[0]), "second-save", "the symbols differ")
        states(w3, info, src, 1, "of the model loaded again")
    # states alone
    if src.chance(1, 2):
        target = w2 if src.chance(1, 2) else w
        tm = target.model
        info.log("  save the states alone and load them into " + ("the loaded model" if target is w2 else "the model"))
        if src.chance(1, 2):
            f = m.states.to_file()
        else:
            f = io.BytesIO()
            m.states.into_file(f)
            f.seek(0)
        if target is w:
            known_states(w, table)
            if src.chance(1, 2):
                m.states.resize(src.range(0, 4))
                if m.states.size() and w.decs:
                    d = src.pick(w.decs)
                    d.sym.set_state(0, d.random(src))
        else:
            tm.states.resize(src.range(0, 4))
        tm.states.from_file(f, check_header=not src.chance(1, 4))
        check(info, tm.states.size() == ns, "states-file-size", lambda: f"{tm.states.size()} states, {ns} saved")
        known_states(target, table)
        with tm.lock():
            for i in range(ns):
                if all(a is not None for a in table[i]):
                    target.check_state(i, table[i], where="states file")
    if lock:
        m.unlock()
    info.nontrivial = sum(n.kind == "op" for n in w.nodes) >= 2


# ------------------------------------------------------------------------------------------------ C13
def c13(src, info):
    w = World(src, info)
    w.start((1, 3), (0, 1))
    w.grow(World.ALL, src.range(1, 4))
    goals(w, src)
    m = w.model
    table = []
    locks = 0
    steps = src.range(3, 16)
    pending = None

    def learn(i):
        """Decisions that were initialised by reading."""
        for d in w.decs:
            if table[i][d.i] is None and d.sym.has_state(i):
                with m.lock():
                    table[i][d.i] = read_checked(w, d, i)

    def ancestors(n):
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x.i not in seen:
                seen.add(x.i)
                todo += x.kids
        return {w.nodes[j].dec.i for j in seen if w.nodes[j].dec is not None}

    def consistent(where):
        if pending is not None:
            return
        check(info, m.states.size() == len(table) == len(m.states), "states-size",
              lambda: f"{m.states.size()} states, expected {len(table)} {where}")
        known_states(w, table)
        check(info, m.is_locked() == (locks > 0), "lock-count", lambda: f"is_locked is {m.is_locked()} after {where}")

    for _ in range(steps):
        op = src.pick(["set", "set", "set", "read", "read", "read", "resize", "lock", "unlock", "grow", "prune", "clear",
                       "init", "file", "future", "bad", "decision", "feasible"])
        info.steps += 1
        info.f("step:" + op)
        ns = len(table)
        info.log(f"  step {op}")
        if op == "resize":
            n = src.range(0, 4)
            if pending is not None:
                table, pending = pending, None
                ns = len(table)
            m.states.resize(n)
            table = table[:n] + [[None] * len(w.decs) for _ in range(n - ns)]
        elif op == "clear":
            m.states.clear()
            table, pending = [], None
        elif op == "lock":
            m.lock()
            locks += 1
        elif op == "unlock":
            m.unlock()
            locks = max(0, locks - 1)
        elif op == "grow" and not locks:
            w.grow(World.ALL, src.range(1, 3))
            for row in table + (pending or []):
                row += [None] * (len(w.decs) - len(row))
        elif op == "decision" and not locks and pending is None:
            w.decision()
            for row in table:
                row += [None] * (len(w.decs) - len(row))
        elif op == "prune" and not locks:
            for n in w.nodes:
                if n.kind != "decision" and src.chance(1, 3):
                    n.sym = None
            m.remove_unused_symbols()
        elif op == "set":
            if pending is not None:
                table, pending = pending, None
            if table:
                i, d = src.draw(len(table)), src.pick(w.decs)
                a = d.random(src)
                info.log(f"    state {i} of {d.nodes[0].name} := {show(a)}")
                d.sym.set_state(i, present(src, d, a))
                table[i][d.i] = a
        elif op == "read":
            n = w.pick()
            with m.lock():
                if pending is not None and src.chance(1, 2) and pending:
                    table, pending = pending, None  # the first access is this very read
                elif pending is not None:
                    check(info, len(m.states) == len(pending), "future-size", "size after a future")
                    table, pending = pending, None
                if not table:
                    continue
                i = src.draw(len(table))
                j = i - len(table) if src.chance(1, 4) else i
                info.log(f"    state {j} of {n!r}")
                unset = {d.i for d in w.decs if table[i][d.i] is None}
                if src.chance(1, 3) and all(x is None for x in table[i]) is False:
                    pass
                got = n.sym.state(j)
                deps = ancestors(n)
                for d in w.decs:
                    if d.i in unset and d.i not in deps:
                        check(info, not d.sym.has_state(i), "initialised-others",
                              lambda: f"reading {n!r} initialised {d.nodes[0].name}")
                learn(i)
                ref = w.evaluate(table[i])[n.i]
                if ref is not None:
                    w.compare(n, got, ref, f"(state {j})")
                got = n.sym.state(i)
                if ref is not None:
                    w.compare(n, got, ref, f"(state {i}, read again)")
                    if got.size and got.shape:  # a state that was read is a copy
                        got[...] = 77
                        w.compare(n, n.sym.state(i), ref, f"(state {i}, after the returned array was changed)")
        elif op == "feasible":
            with m.lock():
                if pending is not None:
                    table, pending = pending, None
                if table and w.constraints:
                    i = src.draw(len(table))
                    got = m.feasible(i)
                    learn(i)
                    ref = w.evaluate(table[i])
                    if all(ref[c.i] is not None for c in w.constraints):
                        check(info, bool(got) == all(ref[c.i].ravel()[0] != 0 for c in w.constraints), "feasible",
                              f"state {i}: feasible is {got}")
        elif op == "init":
            if locks:
                if pending is not None:
                    table, pending = pending, None
                m.states.initialize()
                for i in range(len(table)):
                    for d in w.decs:
                        check(info, d.sym.has_state(i), "initialize", f"state {i} of {d.nodes[0].name}")
                    learn(i)
            else:
                must_refuse(info, "initialize-unlocked", m.states.initialize, "initialize() of an unlocked model")
                if pending is not None:
                    table, pending = pending, None
        elif op == "file":
            if pending is not None:
                table, pending = pending, None
            f = m.states.to_file()
            if src.chance(1, 2):
                m.states.resize(src.range(0, 4))
            m.states.from_file(f)
        elif op == "future":
            if pending is not None:
                consistent("before")
            new = []
            for _ in range(src.range(0, 3)):
                new.append([d.random(src) if src.chance(3, 4) else None for d in w.decs])
            calls = []

            def hook(model, future, new=new, calls=calls):
                calls.append(future)
                model.states.resize(len(new))
                for i, row in enumerate(new):
                    for d, a in zip(w.decs, row):
                        if a is not None:
                            d.sym.set_state(i, d.copy(a))
            m.states.from_future("answer", hook)
            check(info, not calls, "future-early", "the hook was called before the states were needed")
            pending = new
            table = []
            continue
        elif op == "bad":
            if pending is not None:
                table, pending = pending, None
            ns = len(table)
            d = src.pick(w.decs)
            n = w.pick()
            j = src.pick([ns, ns + 3, -ns - 1, 2 ** 50])
            kind = src.draw(4)
            if kind == 0:
                must_refuse(info, "bad-index:set", lambda: d.sym.set_state(j, d.random(src)), f"set_state({j}) of {ns}")
            elif kind == 1 and n.kind != "const":
                with m.lock():
                    must_refuse(info, "bad-index:state", lambda: n.sym.state(j), f"state({j}) of {ns}")
            elif kind == 2:
                must_refuse(info, "bad-index:has_state", lambda: d.sym.has_state(j), f"has_state({j}) of {ns}")
            else:
                must_refuse(info, "bad-resize", lambda: m.states.resize(-1 - src.draw(3)), "resize to a negative size")
        consistent(op)
    if pending is not None:
        table, pending = pending, None
    consistent("the end")
    # every dependent symbol in every state
    with m.lock():
        for i in range(len(table)):
            if all(a is not None for a in table[i]):
                w.check_state(i, table[i], where="at the end")
    info.nontrivial = steps >= 4


# ------------------------------------------------------------------------------------------------ C14
SIMPLE = {"Add", "Subtract", "Multiply", "Divide", "Modulus", "Equal", "And", "Or", "Xor", "Maximum", "Minimum", "Where",
          "Concatenate", "NaryMaximum", "NaryMinimum", "Permutation", "Sum", "Prod", "Negative", "Absolute", "Size",
          "Reshape", "QuadraticModel", "PartialSum", "Max", "Min", "All", "Any", "Logical", "Not", "Square"}


def graph_view(m, info):
    """ids in order, predecessor lists; checks that the views agree with each other."""
    syms = list(m.iter_symbols())
    ids = [s.id() for s in syms]
    check(info, len(set(ids)) == len(ids) == m.num_symbols() == m.num_nodes(), "symbols-once",
          lambda: f"{len(ids)} symbols, {len(set(ids))} distinct, num_symbols {m.num_symbols()}")
    pred = {s.id(): [p.id() for p in s.iter_predecessors()] for s in syms}
    succ = {s.id(): [p.id() for p in s.iter_successors()] for s in syms}
    known = set(ids)
    edges = 0
    for i in ids:
        for p in pred[i]:
            check(info, p in known, "dangling-predecessor", "a predecessor is not a symbol of the model")
        for q in succ[i]:
            check(info, q in known, "dangling-successor", "a successor is not a symbol of the model")
            check(info, succ[i].count(q) == pred[q].count(i), "mirror", "predecessors and successors do not mirror")
        for p in pred[i]:
            check(info, succ[p].count(i) == pred[i].count(p), "mirror", "predecessors and successors do not mirror")
        edges += len(pred[i])
    check(info, edges == m.num_edges(), "num_edges", lambda: f"{m.num_edges()}, counted {edges}")
    dec = [d.id() for d in m.iter_decisions()]
    check(info, len(set(dec)) == len(dec) == m.num_decisions(), "decisions-once", "iter_decisions")
    return ids, pred, succ, dec


def c14(src, info):
    w = World(src, info)
    w.start((1, 4), (0, 3))
    w.grow(World.ALL, src.range(1, 8))
    goals(w, src)
    m = w.model
    dec_kinds = (S.BinaryVariable, S.IntegerVariable, S.ListVariable, S.SetVariable, S.DisjointBitSets, S.DisjointLists)

    def operands():
        for n in w.nodes:
            if n.sym is not None and n.cls in SIMPLE and all(k.sym is not None for k in n.kids):
                got = [p.id() for p in n.sym.iter_predecessors()]
                want = [k.sym.id() for k in n.kids]
                if n.cls == "Permutation" or len(got) != len(want):
                    continue
                check(info, got == want, "operand-order:" + n.cls, lambda: f"{n!r} = {n.name}: operands are in another order")

    def locked_view(held):
        ids, pred, succ, dec = graph_view(m, info)
        syms = list(m.iter_symbols())
        idx = {s.id(): s.topological_index() for s in syms}
        check(info, [idx[i] for i in ids] == list(range(len(ids))), "topological-index", lambda: f"{[idx[i] for i in ids]}")
        check(info, ids[:len(dec)] == dec, "decisions-first", "the decisions do not come first")
        check(info, sum(isinstance(s, dec_kinds) for s in syms) == len(dec), "decisions", "number of decisions")
        for i in ids:
            for p in pred[i]:
                check(info, idx[p] < idx[i], "topological-order", "an operand comes after its user")
        return ids, pred, succ, dec

    values = {}
    refs = None
    for rnd in range(src.range(1, 4)):
        info.steps += 1
        graph_view(m, info)
        operands()
        depth = src.range(1, 2)
        for _ in range(depth):
            m.lock()
        view = locked_view(True)
        # additions are refused without effect
        for _ in range(src.range(1, 3)):
            before = w.keys, len(w.nodes), len(w.decs)
            n = w.pick()
            k = src.draw(12)
            info.log(f"  addition {k} to the locked model")
            x = n.sym
            call = [lambda: m.binary(2), lambda: m.integer(), lambda: m.list(3), lambda: m.set(4),
                    lambda: m.constant([1, 2]), lambda: m.disjoint_bit_sets(3, 2), lambda: m.disjoint_lists(3, 2),
                    lambda: x + x, lambda: x.sum(), lambda: -x, lambda: S.NaryAdd(x, x, x),
                    lambda: S.Logical(x)][k]
            if k == 11 and n.cls in ("NaryAdd", "NaryMultiply"):
                def call():
                    y = x
                    if n.cls == "NaryAdd":
                        y += x
                    else:
                        y *= x
            must_refuse(info, "locked-addition", call, f"addition {k} to a locked model")
            check(info, locked_view(True) == view, "locked-addition-effect", f"addition {k} had an effect")
        must_refuse(info, "locked-pruning", m.remove_unused_symbols, "pruning of a locked model")
        ns = 1
        m.states.resize(ns)
        asg = [w.decs[i].random(src) for i in range(len(w.decs))]
        w.set_all(asg, 0)
        w.check_state(0, asg)
        for _ in range(depth):
            check(info, m.is_locked(), "locked", "the model is not locked")
            m.unlock()
        check(info, not m.is_locked(), "unlocked", "the model is still locked")
        if src.chance(2, 3):
            # pruning: exactly what nothing needs
            for n in w.nodes:
                if n.sym is not None and src.chance(1, 2) and n.kind != "decision":
                    n.sym = None
            x = call = None
            gc.collect()
            keepers = [n for n in w.nodes if n.sym is not None]
            held = {n.sym.id() for n in keepers} | {d.sym.id() for d in w.decs}
            ids, pred, succ, dec = graph_view(m, info)
            if m.objective is not None:
                held.add(m.objective.id())
            held |= {c.id() for c in m.iter_constraints()}
            need = set(dec)
            todo = list(held)
            for s in m.iter_symbols():
                if type(s).__name__ in ("DisjointBitSet", "DisjointList"):
                    todo.append(s.id())
            del s
            while todo:
                i = todo.pop()
                if i not in need:
                    need.add(i)
                    todo += pred[i]
            cons = [c.id() for c in m.iter_constraints()]
            obj = None if m.objective is None else m.objective.id()
            removed = m.remove_unused_symbols()
            ids2, pred2, succ2, dec2 = graph_view(m, info)
            info.f("pruned" if removed else "nothing to prune")
            check(info, set(ids2) == need, "pruned-set",
                  lambda: f"{len(set(ids2) - need)} unneeded symbols were kept, {len(need - set(ids2))} needed ones removed")
            check(info, removed == len(ids) - len(ids2), "pruned-count", lambda: f"reported {removed}")
            check(info, dec2 == dec, "pruned-decisions", "decisions changed")
            for i in ids2:
                check(info, pred2[i] == pred[i], "pruned-operands", "operands changed")
                check(info, sorted(succ2[i]) == sorted(j for j in succ[i] if j in need), "pruned-successors",
                      "successors changed")
            check(info, [c.id() for c in m.iter_constraints()] == cons and
                  (None if m.objective is None else m.objective.id()) == obj, "pruned-goals", "objective/constraints changed")
            for n in keepers:
                check(info, not n.sym.expired(), "expired", f"{n!r} is referred to and yet expired")
            with m.lock():
                w.check_state(0, asg, where="after pruning")
            check(info, m.remove_unused_symbols() == 0, "pruned-twice", "pruning again removed more")
        if src.chance(1, 2):
            w.grow(World.ALL, src.range(1, 3))
            if src.chance(1, 3):
                goals(w, src)
    info.nontrivial = sum(n.kind == "op" for n in w.nodes) >= 2


# ------------------------------------------------------------------------------------------------ C15
def c15(src, info):
    w = World(src, info)
    w.start((1, 3), (0, 2))
    w.grow(World.ALL, src.range(1, 6))
    m = w.model
    obj, cons = None, []

    def goals_agree(w2, where):
        m2 = w2.model
        check(info, (m2.objective is None) == (obj is None), "objective-set", where)
        if obj is not None:
            check(info, m2.objective.shares_memory(w2.nodes[obj.i].sym), "objective-identity", where)
        got = [c.id() for c in m2.iter_constraints()]
        check(info, got == [w2.nodes[c.i].sym.id() for c in cons] and m2.num_constraints() == len(cons),
              "constraints", lambda: f"{len(got)} constraints, expected {len(cons)} {where}")

    def evaluate(w2, where):
        m2 = w2.model
        m2.states.resize(2)
        with m2.lock():
            for _ in range(2):
                asg = w2.assignment()
                i = src.draw(2)
                w2.set_all(asg, i)
                ref = w2.evaluate(asg)
                info.steps += 1
                if obj is not None:
                    w2.compare(w2.nodes[obj.i], m2.objective.state(i), ref[obj.i], "objective " + where)
                if src.chance(1, 4) and i == 1:
                    f = m2.feasible(-1) if src.chance(1, 2) else m2.feasible(index=1)
                else:
                    f = m2.feasible(i) if i or src.chance(1, 2) else m2.feasible()
                want = all(ref[c.i].ravel()[0] != 0 for c in cons)
                info.f("feasible" if want else "infeasible")
                check(info, bool(f) == want, "feasible", lambda: f"feasible is {f}, the constraints are "
                      f"{[ref[c.i].ravel()[0] for c in cons]} {where}")

    for _ in range(src.range(2, 7)):
        k = src.draw(8)
        if k <= 1:
            n = w.pick()
            single = not n.dyn and n.size == 1
            info.log(f"  minimize({n!r})")
            try:
                m.minimize(n.sym)
                ok = True
            except REF:
                ok = False
            check(info, ok == single, "objective-accepted", lambda: f"minimize of shape {n.shape}: accepted is {ok}")
            if ok:
                obj = n
        elif k <= 4:
            c = w.pick(lambda n: not n.dyn and n.size == 1 and n.boolean and n.cls not in (
                "Multiply", "NaryMultiply", "Prod", "Sum", "PartialSum", "Modulus", "Subtract", "QuadraticModel"))
            if c is None:
                x = w.pick(lambda n: n.exact)
                c = w.reduce_op("any", x) if x is not None and src.chance(1, 2) else w.binary_op("le")
            if c is None or c.dyn or c.size != 1:
                continue
            info.log(f"  add_constraint({c!r})")
            sure = c.cls in ("LessEqual", "Equal", "And", "Or", "Xor", "Any", "All", "Logical", "Not", "BinaryVariable")
            try:
                r = m.add_constraint(c.sym)
                check(info, r.shares_memory(c.sym), "constraint-returned", "add_constraint returned another symbol")
                cons.append(c)
                if src.chance(1, 4):
                    m.add_constraint(c.sym)
                    cons.append(c)
            except REF:
                if sure:
                    raise Violation("constraint-refused", f"{c!r} = {c.name} was refused as a constraint")
        elif k == 5:
            # several elements, or not logical by the declared bounds of a decision
            bad = w.pick(lambda n: n.dyn or n.size != 1)
            if bad is not None:
                must_refuse(info, "constraint-accepted", lambda: m.add_constraint(bad.sym), f"constraint of shape {bad.shape}")
            bad = w.pick(lambda n: not n.dyn and n.size == 1 and (n.cls == "IntegerVariable" or n.kind == "const")
                         and not n.boolean and (n.lo < 0 or n.hi > 1))
            if bad is not None:
                must_refuse(info, "constraint-accepted", lambda: m.add_constraint(bad.sym), f"constraint {bad.name}")
        elif k == 6:
            other = Model()
            x = other.binary()
            must_refuse(info, "foreign-objective", lambda: m.minimize(x), "objective of another model")
            must_refuse(info, "foreign-constraint", lambda: m.add_constraint(x), "constraint of another model")
            must_refuse(info, "none-objective", lambda: m.minimize(None), "None as objective")
        else:
            for n in w.nodes:
                if n.kind != "decision" and n is not obj and n not in cons and src.chance(1, 2):
                    n.sym = None
            m.remove_unused_symbols()
            info.log("  pruned")
        goals_agree(w, "")
    w.objective, w.constraints = obj, cons
    evaluate(w, "")
    if src.chance(1, 2):
        # the symbols are dropped, the model keeps the objective and the constraints
        for n in w.nodes:
            if n.kind != "decision" and n is not obj and n not in cons:
                n.sym = None
        m.remove_unused_symbols()
        goals_agree(w, "after pruning")
        evaluate(w, "after pruning")
    if src.chance(1, 2):
        w2 = reload(w, src, info)
        goals_agree(w2, "of the loaded model")
        evaluate(w2, "of the loaded model")
    info.nontrivial = obj is not None or bool(cons)


# ------------------------------------------------------------------------------------------------ C16
def near_misses(w, src, info):
    """Adds symbols that differ from existing ones in a parameter, an operand or one value only."""
    pairs = []
    for n in [n for n in w.nodes if n.sym is not None]:
        if not src.chance(1, 2):
            continue
        y = None
        if n.kind == "const" and n.size:
            a = np.array(n.const)
            j = src.draw(a.size)
            v = a.flat[j]
            a.flat[j] = src.pick([np.nextafter(v, np.inf), v + 1e-9 * max(1.0, abs(v)), v * (1 + 1e-6) + 1e-7, v + 1, -v,
                                  v + 0.25, v])
            if len(a.shape) == 2 and src.chance(1, 6):
                a = a.reshape(a.shape[::-1])
            y = w.add(N(w.model.constant(a.copy()), [], lambda a=a: a, f"constant({show(a)})", a.shape, a.min(), a.max(),
                        k=RAW, kind="const", const=a))
        elif n.cls == "BasicIndexing":
            y = w.basic_index(n.kids[0])
        elif n.cls == "AdvancedIndexing":
            y = w.advanced_index(n.kids[0])
        elif n.cls == "PartialSum":
            y = w.reduce_op("psum", n.kids[0])
        elif n.cls == "QuadraticModel":
            L, Q = np.array(n.const[0]), np.array(n.const[1])
            x = n.kids[0]
            u, v = sorted((src.draw(len(L)), src.draw(len(L))))
            d = src.pick([1.0, 1e-9, 1e-6, -1.0, 0.0])
            if src.chance(1, 2):
                L[u] += d
            else:
                Q[u, v] += d
            q = {(int(i), int(j)): Q[i, j] for i, j in zip(*np.nonzero(Q))}
            if not q:
                continue
            sym = w.model.quadratic_model(x.sym, q, {i: L[i] for i in range(len(L))})
            m = float(np.abs(L).sum() * x.mag + np.abs(Q).sum() * x.mag ** 2)
            y = w.add(N(sym, [x], lambda a, L=L, Q=Q: np.asarray(float(a @ L + a @ Q @ a)),
                        f"quadratic_model({x!r}, {q}, {L.tolist()})", (), -m, m, 0, 1e-9 + 1e-12 * m))
        elif n.cls == "Concatenate" and len(n.kids) == 2 and n.kids[0].shape == n.kids[1].shape:
            axis = src.draw(len(n.shape))
            ks = n.kids if src.chance(1, 2) else n.kids[::-1]
            sym = S.Concatenate(tuple(k.sym for k in ks), axis)
            y = w.add(N(sym, list(ks), lambda *a, axis=axis: np.concatenate(a, axis), f"concatenate({ks}, {axis})",
                        sym.shape(), n.lo, n.hi, n.k, n.err))
        elif n.cls == "Subtract":
            y = w.binary_op("sub", n.kids[1], n.kids[0])
        elif n.cls in ("Sum", "Prod", "Max", "Min", "All", "Any"):
            fixed = not n.kids[0].dyn and n.kids[0].size
            y = w.reduce_op(src.pick(["sum", "prod", "any", "all"] + (["max", "min"] if fixed else [])), n.kids[0])
        if y is not None and y is not n:
            pairs.append((n, y))
    return pairs


def c16(src, info):
    """Equality: every symbol is built twice (the second time from either copy of its operands)."""
    w = World(src, info)
    w.start((1, 3), (0, 2))
    w.grow(World.ALL, src.range(1, 8))
    m = w.model
    near = near_misses(w, src, info)
    nodes = [n for n in w.nodes if n.sym is not None]
    asgs = [w.assignment() for _ in range(4)]
    vals = [w.evaluate(a) for a in asgs]

    def group(n, memo={}):
        return {w.nodes[i].dec.i for i in anc(n) if w.nodes[i].dec is not None}

    def anc(n):
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x.i not in seen:
                seen.add(x.i)
                todo += x.kids
        return seen

    twins = {}
    for a in w.decs:
        for b in w.decs:
            if a.i < b.i and a.sym.equals(b.sym):
                twins.setdefault(a.i, set()).add(b.i)
                twins.setdefault(b.i, set()).add(a.i)

    def apart(n, k):
        """No two different decisions that look alike are involved."""
        ds = group(n) | group(k)
        return not any(twins.get(i, set()) & ds for i in ds)

    def compare(x, y, sx, sy):
        q, r = sx.maybe_equals(sy), sy.maybe_equals(sx)
        e, f = bool(sx.equals(sy)), bool(sy.equals(sx))
        info.checks += 3
        names = f"{x!r} = {x.name} and {y!r} = {y.name}"
        if e != f:
            raise Violation("symmetric", f"{names}: equals is {e} and {f}")
        if q == 0 and e or q == 2 and not e or r == 0 and e or r == 2 and not e:
            raise Violation("maybe-equals", f"{names}: maybe_equals {q}, {r}, equals {e}")
        if q not in (0, 1, 2) or r not in (0, 1, 2):
            raise Violation("maybe-equals", f"{names}: maybe_equals {q}, {r}")
        return e

    for n in nodes:
        check(info, n.sym.equals(n.sym) and n.sym.maybe_equals(n.sym) == 2, "reflexive", lambda: f"{n!r} = {n.name}")
    pairs = [(x, y) for x, y in near if x.sym is not None and y.sym is not None]
    info.f("near miss", len(pairs))
    for j in range(len(pairs) + min(60, len(nodes) ** 2)):
        x, y = pairs[j] if j < len(pairs) else (src.pick(nodes), src.pick(nodes))
        e = compare(x, y, x.sym, y.sym)
        info.steps += 1
        if e and x is not y:
            info.f("equal pair")
            if apart(x, y):
                for v in vals:
                    check(info, v[x.i].shape == v[y.i].shape and np.allclose(v[x.i], v[y.i], rtol=1e-13, atol=1e-13)
                          if x.cls == "QuadraticModel" else np.array_equal(v[x.i], v[y.i]), "equal-values",
                          lambda: f"{x!r} = {x.name} and {y!r} = {y.name} are equal, but have values {show(v[x.i])} and "
                                  f"{show(v[y.i])}")
    # the loaded copy is equal, symbol by symbol
    w2 = reload(w, src, info)
    for n in nodes:
        check(info, compare(n, w2.nodes[n.i], n.sym, w2.nodes[n.i].sym), "loaded-equal:" + n.cls,
              lambda: f"{n!r} = {n.name} does not equal its loaded copy")
    # rebuilding: same draws in a second world give the same symbols
    info.nontrivial = len(nodes) >= 3
