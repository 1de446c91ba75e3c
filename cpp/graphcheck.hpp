// The history driver and the oracles of C01..C06 and C10 over random graphs.
#pragma once
#include "graphgen.hpp"

enum Mode { M01, M02, M03, M04, M05, M06, M07, M10, M14, M15, MALL };

struct Checker {
    Gen& G;
    int mode;
    bool on(int m) const { return mode == MALL || mode == m; }

    void fail(const string& what, const ND* nd, const string& msg) const {
        throw Violation{nd ? what + ":" + kname(nd->k) : what, msg};
    }
    string label(size_t i) const { return "n" + std::to_string(i) + " (" + kname(G.pool[i].k) + ")"; }

    // All array values of a state
    vector<Val> snapshot(const State& st) const {
        vector<Val> r(G.pool.size());
        for (size_t i = 0; i < G.pool.size(); ++i)
            if (G.pool[i].a) {
                try {
                    r[i] = read_array(G.pool[i].a, st);
                } catch (Violation& v) {
                    fail("shape", &G.pool[i], label(i) + ": " + v.msg);
                }
            }
        return r;
    }

    static double tol(const ND& nd, double expected) {
        return 1e-9 * (1 + std::fabs(expected)) + 1e-12 * nd.mag;
    }
    static bool accumulates(int k) {
        return k == kNAdd || k == kNMul || k == kPSum || k == kProd || k == kSum || k == kQM;
    }
    static bool close(const Val& a, const Val& b, const ND& nd, bool loose) {
        if (a.shape != b.shape || a.v.size() != b.v.size()) return false;
        for (size_t i = 0; i < a.v.size(); ++i) {
            if (a.v[i] == b.v[i]) continue;
            if (!loose || !(std::fabs(a.v[i] - b.v[i]) <= tol(nd, b.v[i]))) return false;
        }
        return true;
    }

    // C01: every node equals its definition applied to the current values of its operands
    void local(const vector<Val>& now, const char* when) {
        for (size_t i = 0; i < G.pool.size(); ++i) {
            const ND& nd = G.pool[i];
            if (!nd.a || nd.k < kConst) continue;
            vector<Val> p;
            for (int j : nd.preds) p.push_back(now[j]);
            Val ref;
            try {
                ref = reference(nd, p);
            } catch (std::out_of_range&) {
                fail("value", &nd, label(i) + ": operands do not have the declared shapes, " + when);
            }
            ++G.info.checks;
            if (!close(now[i], ref, nd, nd.inexact() && accumulates(nd.k)))
                fail("value", &nd, label(i) + " is " + str(now[i]) + " but its definition gives " + str(ref) + " (" + when + ")");
        }
    }

    // C01: and equals what a freshly initialised state with the same decisions contains
    void fresh(const State& st, const vector<Val>& now) {
        State f = G.g.empty_state();
        for (int d : G.decisions) G.explicit_init(G.pool[d], f, G.contents(G.pool[d], st));
        G.g.initialize_state(f);
        vector<Val> v = snapshot(f);
        for (size_t i = 0; i < G.pool.size(); ++i) {
            const ND& nd = G.pool[i];
            if (!nd.a || nd.fuzzy) continue;
            ++G.info.checks;
            if (!close(now[i], v[i], nd, nd.inexact()))
                fail("fresh", &nd, label(i) + " is " + str(now[i]) + " but a fresh state gives " + str(v[i]));
        }
    }

    // C03
    void diffs(const State& st, const vector<Val>& before, const vector<Val>& now) {
        for (size_t i = 0; i < G.pool.size(); ++i) {
            const ND& nd = G.pool[i];
            if (!nd.a) continue;
            ++G.info.checks;
            vector<double> cur = before[i].v;
            auto diff = nd.a->diff(st);
            auto show = [&]() {
                std::ostringstream os;
                os << label(i) << " before " << str(before[i]) << " now " << str(now[i]) << " diff:";
                for (const Update& u : diff) os << " " << u;
                return os.str();
            };
            for (const Update& u : diff) {
                ssize_t n = cur.size();
                if (u.placed() && u.removed()) fail("diff-null", &nd, show());
                if (u.placed()) {
                    if (u.index != n) fail("diff-place", &nd, show());
                    cur.push_back(u.value);
                } else if (u.removed()) {
                    if (u.index != n - 1 || n == 0) fail("diff-remove", &nd, show());
                    if (u.old != cur.back()) fail("diff-old", &nd, show());
                    cur.pop_back();
                } else {
                    if (u.index < 0 || u.index >= n) fail("diff-index", &nd, show());
                    if (u.old != cur[u.index]) fail("diff-old", &nd, show());
                    cur[u.index] = u.value;
                }
            }
            if (cur != now[i].v) fail("diff-result", &nd, show());
            ssize_t sd = static_cast<ssize_t>(now[i].v.size()) - static_cast<ssize_t>(before[i].v.size());
            if (nd.a->size_diff(st) != sd)
                fail("size_diff", &nd, label(i) + " size_diff " + std::to_string(nd.a->size_diff(st)) + " but size changed by " + std::to_string(sd));
        }
    }

    void no_pending(const State& st, const char* when) {
        for (size_t i = 0; i < G.pool.size(); ++i) {
            const ND& nd = G.pool[i];
            if (!nd.a) continue;
            ++G.info.checks;
            if (nd.a->diff(st).size()) fail("pending", &nd, label(i) + " still reports updates after " + when);
            if (nd.a->size_diff(st)) fail("pending", &nd, label(i) + " still reports a size change after " + when);
        }
    }

    void same(const vector<Val>& want, const vector<Val>& got, const char* what) {
        for (size_t i = 0; i < G.pool.size(); ++i) {
            const ND& nd = G.pool[i];
            if (!nd.a) continue;
            ++G.info.checks;
            if (!(want[i] == got[i])) fail(what, &nd, label(i) + " is " + str(got[i]) + " instead of " + str(want[i]));
        }
    }

    // C04
    void bounds(const vector<Val>& now) {
        for (size_t i = 0; i < G.pool.size(); ++i) {
            const ND& nd = G.pool[i];
            if (!nd.a) continue;
            const double mn = nd.a->min(), mx = nd.a->max();
            const bool in = nd.a->integral(), lg = nd.a->logical();
            ++G.info.checks;
            if (mn > mx) fail("minmax-order", &nd, label(i) + " declares min " + str(mn) + " > max " + str(mx));
            for (double v : now[i].v) {
                double t = nd.inexact() ? tol(nd, v) : 0;
                if (v < mn - t) fail("below-min", &nd, label(i) + " holds " + str(v) + " below its declared minimum " + str(mn));
                if (v > mx + t) fail("above-max", &nd, label(i) + " holds " + str(v) + " above its declared maximum " + str(mx));
                if (in && v != std::floor(v)) {
                    // products/sums beyond 2^53 cannot be exact, but doubles that large are integers anyway
                    fail("not-integral", &nd, label(i) + " is declared integral but holds " + str(v));
                }
                if (lg && v != 0 && v != 1) fail("not-logical", &nd, label(i) + " is declared logical but holds " + str(v));
            }
        }
    }

    // C05
    void sizes(const State& st, const vector<Val>& now) {
        for (size_t i = 0; i < G.pool.size(); ++i) {
            const ND& nd = G.pool[i];
            if (!nd.a) continue;
            const ArrayNode* a = nd.a;
            ++G.info.checks;
            auto s0 = a->shape();
            Shape decl(s0.begin(), s0.end());
            if (decl != nd.shape) fail("shape-changed", &nd, label(i) + " declared shape changed");
            if (static_cast<ssize_t>(decl.size()) != a->ndim()) fail("ndim", &nd, label(i) + " ndim != len(shape)");
            if (a->strides().size() != decl.size()) fail("ndim", &nd, label(i) + " len(strides) != len(shape)");
            const Shape& cur = now[i].shape;
            const ssize_t n = a->size(st);
            if (n != static_cast<ssize_t>(now[i].v.size()))
                fail("size", &nd, label(i) + " size(state)=" + std::to_string(n) + " but shape(state)=" + str(cur));
            if (a->len(st) != n * static_cast<ssize_t>(sizeof(double))) fail("len", &nd, label(i) + " len(state) wrong");
            if (cur.size() != decl.size()) fail("shape", &nd, label(i) + " shape(state)=" + str(cur) + " but declared " + str(decl));
            for (size_t d = 0; d < decl.size(); ++d) {
                if (decl[d] < 0 && d) fail("shape", &nd, label(i) + " declares a dynamic axis other than 0: " + str(decl));
                if (decl[d] >= 0 && cur[d] != decl[d])
                    fail("shape", &nd, label(i) + " shape(state)=" + str(cur) + " but declared " + str(decl));
            }
            if (!a->dynamic() && (a->size() != prod(decl) || a->size() != n))
                fail("size", &nd, label(i) + " size() " + std::to_string(a->size()) + " vs " + str(decl));
            if (a->dynamic() && !(decl.size() && decl[0] == -1)) fail("shape", &nd, label(i) + " dynamic but shape " + str(decl));
            // contiguous() must be true for row-major strides to be assumed
            if (a->contiguous()) {
                ssize_t sd = sizeof(double);
                bool ok = true;
                for (ssize_t d = static_cast<ssize_t>(cur.size()) - 1; d >= 0; --d) {
                    if (cur[d] > 1 && a->strides()[d] != sd) ok = false;
                    sd *= cur[d];
                }
                if (!ok && n > 0) fail("contiguous", &nd, label(i) + " claims to be contiguous");
            }
            sizeinfo(i, a->sizeinfo(), n, st, false, "sizeinfo()");
            if (a->dynamic()) {
                for (int depth : {1, 100}) {
                    SizeInfo si = a->sizeinfo();
                    if (!si.array_ptr) break;
                    sizeinfo(i, si.substitute(depth), n, st, true, "sizeinfo().substitute()");
                }
            }
        }
        // arrays that are promised to have the same shape have it
        size_t lim = G.pool.size();
        for (size_t i = 0; i < lim; ++i)
            for (size_t j = i + 1; j < lim; ++j) {
                const ND &a = G.pool[i], &b = G.pool[j];
                if (!a.a || !b.a) continue;
                // the same size info means the same size
                const SizeInfo sa = a.a->sizeinfo(), sb = b.a->sizeinfo();
                const bool eq = sa == sb;
                const size_t na = now[i].v.size(), nb = now[j].v.size();
                ++G.info.checks;
                if (eq && na != nb)
                    fail("sizeinfo-equal", &a, label(i) + " and " + label(j) + " have equal size infos but " + std::to_string(na) +
                                                       " and " + std::to_string(nb) + " elements");
                if (!(sa == SizeInfo(sa)) || eq != (sb == sa) || (!a.dyn && !b.dyn && eq != (na == nb)))
                    fail("sizeinfo-equal", &a, label(i) + " and " + label(j) + " with " + std::to_string(na) + " and " + std::to_string(nb) +
                                                       " elements: comparison of size infos");
                if (!array_shape_equal(a.a, b.a)) {
                    if (!a.dyn && !b.dyn && a.shape == b.shape)
                        fail("shape-equal", &a, label(i) + " and " + label(j) + " have the same fixed shape but are not recognised as equal");
                    continue;
                }
                ++G.info.checks;
                if (now[i].shape != now[j].shape)
                    fail("shape-equal", &a, label(i) + " and " + label(j) + " are promised to have equal shapes but have " +
                                                    str(now[i].shape) + " and " + str(now[j].shape));
            }
    }
    void sizeinfo(size_t i, const SizeInfo& si, ssize_t n, const State& st, bool substituted, const char* what) {
        const ND& nd = G.pool[i];
        std::ostringstream os;
        os << label(i) << " has size " << n << " but " << what << " = " << si << " min "
           << (si.min ? std::to_string(*si.min) : "-") << " max " << (si.max ? std::to_string(*si.max) : "-");
        if (substituted || si.array_ptr == nd.a) {
            // bounds on the size of the array itself
            if (si.min && n < *si.min) fail("sizeinfo-min", &nd, os.str());
            if (si.max && n > *si.max) fail("sizeinfo-max", &nd, os.str());
        }
        if (si.multiplier == 0) {
            if (si.offset != n) fail("sizeinfo-fixed", &nd, os.str());
        } else if (!si.array_ptr) {
            fail("sizeinfo-ptr", &nd, os.str());
        } else if (!substituted && si.array_ptr != nd.a) {
            // how the size follows from the size of another array, which min/max are bounds on
            ssize_t base = si.array_ptr->size(st);
            ssize_t b = base;
            if (si.max) b = std::min(b, *si.max);
            if (si.min) b = std::max(b, *si.min);
            ssize_t num = si.multiplier.numerator() * b, den = si.multiplier.denominator();
            ssize_t e = std::max<ssize_t>(0, (num >= 0 ? (num + den - 1) / den : num / den) + si.offset);
            if (e != n) fail("sizeinfo-mult", &nd, os.str() + " source size " + std::to_string(base));
        }
    }

    // C15: the objective and the constraints as given to the graph
    int objective = -1;
    vector<int> constraints;
    void add_goals() {
        Src& s = G.s;
        G.g.reset_topological_sort();
        static const int kinds[] = {kAll, kAny, kSum, kSize, kMax, kLe, kEq, kAnd, kOr, kXor, kLogical, kNot, kAdd, kBasic};
        for (int t = 0, n = s.draw(8); t < n; ++t) G.op(kinds[s.draw(sizeof kinds / sizeof *kinds)]);
        auto single = [](const ND& d) { return !d.dyn && prod(d.shape) == 1; };
        for (int t = 0, n = s.draw(7); t < n; ++t) {
            const bool obj = s.chance(1, 3);
            int i = s.chance(1, 5) ? G.pick([](const ND&) { return true; })
                    : obj          ? G.pick(single)
                                   : G.pick([&](const ND& d) { return single(d) && d.a->logical(); });
            if (i < 0) continue;
            const ND& d = G.pool[i];
            const bool legal = single(d) && (obj || d.a->logical());
            bool threw = false;
            try {
                if (obj) G.g.set_objective(d.a);
                else G.g.add_constraint(d.a);
            } catch (std::invalid_argument&) {
                threw = true;
                ++G.info.refused;
            }
            G.say("%s n%d%s", obj ? "objective" : "constraint", i, threw ? ": refused" : "");
            ++G.info.checks;
            if (threw == legal)
                fail(legal ? "goal-refused" : "goal-accepted", &d, label(i) + (obj ? " as objective" : " as constraint"));
            if (!threw && obj) objective = i;
            if (!threw && !obj) constraints.push_back(i);
        }
        if (s.chance(1, 8)) {
            G.say("no objective");
            G.g.set_objective(nullptr);
            objective = -1;
        }
        goal_lists();
        G.g.topological_sort();
    }
    void goal_lists() {
        const Graph& g = G.g;
        ++G.info.checks;
        if (g.objective() != (objective < 0 ? nullptr : G.pool[objective].a)) fail("objective", nullptr, "objective() is another node");
        bool same = g.num_constraints() == static_cast<ssize_t>(constraints.size()) && g.constraints().size() == constraints.size();
        for (size_t i = 0; same && i < constraints.size(); ++i) same = g.constraints()[i] == G.pool[constraints[i]].a;
        if (!same) fail("constraints", nullptr, "constraints() are not those that were added, in their order");
    }
    void goals(const State& st, const vector<Val>& now, const char* when) {
        goal_lists();
        const double e = objective < 0 ? 0 : now[objective].v[0];
        bool f = true;
        for (int i : constraints) f = f && now[i].v[0] != 0;
        G.info.checks += 2;
        if (G.g.energy(st) != e)
            fail("energy", nullptr, "energy() is " + str(G.g.energy(st)) + " but the objective holds " + str(e) + " (" + when + ")");
        if (G.g.feasible(st) != f) fail("feasible", nullptr, string("feasible() is ") + (f ? "false" : "true") + " (" + when + ")");
        ++G.info.feat[f ? "feasible" : "infeasible"];
    }

    // C06: domain of every decision
    void domains(const State& st, const char* when) {
        for (int di : G.decisions) {
            const ND& d = G.pool[di];
            ++G.info.checks;
            auto c = G.contents(d, st);
            auto bad = [&](const string& why) {
                string t;
                for (auto& l : c) t += " " + str(Val{{static_cast<ssize_t>(l.size())}, l});
                fail("domain", &d, label(di) + " holds" + t + ": " + why + " (" + when + ")");
            };
            if (d.k == kBinary || d.k == kInteger) {
                if (static_cast<ssize_t>(c[0].size()) != prod(d.shape)) bad("wrong number of elements");
                for (double v : c[0])
                    if (v != std::floor(v) || v < d.lo || v > d.hi) bad("outside its bounds");
            } else if (d.k == kList || d.k == kSet) {
                ssize_t n = c[0].size();
                if (n < d.lo || n > d.hi) bad("size outside its bounds");
                std::set<double> u(c[0].begin(), c[0].end());
                if (u.size() != c[0].size()) bad("repeated element");
                for (double v : c[0])
                    if (v != std::floor(v) || v < 0 || v >= d.n) bad("element out of range");
            } else if (d.k == kDBS) {
                for (auto& l : c)
                    if (static_cast<ssize_t>(l.size()) != d.n) bad("wrong length");
                for (int i = 0; i < d.n; ++i) {
                    double t = 0;
                    for (auto& l : c) {
                        if (l[i] != 0 && l[i] != 1) bad("not binary");
                        t += l[i];
                    }
                    if (t != 1) bad("element not in exactly one set");
                }
                for (int i = 0; i < d.n; ++i) {
                    ssize_t w = dynamic_cast<const DisjointBitSetsNode*>(d.node)->get_containing_set_index(const_cast<State&>(st), i);
                    if (w < 0 || w >= d.parts || !c[w][i]) bad("get_containing_set_index is wrong");
                }
            } else if (d.k == kDLS) {
                vector<int> seen(d.n, 0);
                for (auto& l : c)
                    for (double v : l) {
                        if (v != std::floor(v) || v < 0 || v >= d.n) bad("element out of range");
                        seen[static_cast<int>(v)]++;
                    }
                for (int x : seen)
                    if (x != 1) bad("not a partition");
                for (int i = 0; i < d.parts; ++i)
                    if (dynamic_cast<const DisjointListsNode*>(d.node)->get_disjoint_list_size(const_cast<State&>(st), i) !=
                        static_cast<ssize_t>(c[i].size()))
                        bad("get_disjoint_list_size is wrong");
            }
        }
    }

    // C06: what a single move does to the visible contents
    void move_model(const Move& m, const Gen::Contents& b, const State& st) {
        if (!G.modelled(m)) return;
        const ND& d = G.pool[m.d];
        Gen::Contents w = b;
        auto got = G.contents(d, st);
        ++G.info.checks;
        bool free_last = false;
        switch (d.k) {
            case kBinary:
                if (m.op == 0) w[0][m.a] = !w[0][m.a];
                if (m.op == 1) w[0][m.a] = 1;
                if (m.op == 2) w[0][m.a] = 0;
                if (m.op == 3) std::swap(w[0][m.a], w[0][m.b]);
                break;
            case kInteger:
                if (m.op == 0) w[0][m.a] = m.x;
                if (m.op == 1) std::swap(w[0][m.a], w[0][m.b]);
                break;
            case kList: case kSet:
                if (m.op == 0) {
                    ssize_t n = w[0].size();
                    if (m.a < n && m.b < n) std::swap(w[0][m.a], w[0][m.b]);
                    else if (m.a < n || m.b < n) {
                        // exchanged with a non-member: that position now holds something else
                        ssize_t p = std::min(m.a, m.b);
                        if (got[0].size() != w[0].size()) fail("move", &d, "exchange changed the size");
                        w[0][p] = got[0][p];
                    }
                }
                if (m.op == 1) {
                    double x = w[0][m.b];
                    w[0].erase(w[0].begin() + m.b);
                    w[0].insert(w[0].begin() + m.a, x);
                }
                if (m.op == 2) {
                    w[0].push_back(0);
                    free_last = true;
                }
                if (m.op == 3) w[0].pop_back();
                break;
            case kDBS:
                std::swap(w[m.a][m.c], w[m.b][m.c]);
                break;
            case kDLS:
                if (m.op == 0) {
                    double x = w[m.a][m.c];
                    w[m.a].erase(w[m.a].begin() + m.c);
                    w[m.b].insert(w[m.b].begin() + m.e, x);
                }
                if (m.op == 3) std::swap(w[m.a][m.c], w[m.a][m.e]);
                if (m.op == 6) w = m.parts;
                if (m.op == 4) {
                    double x = w[m.a][m.e];
                    w[m.a].erase(w[m.a].begin() + m.e);
                    w[m.a].insert(w[m.a].begin() + m.c, x);
                }
                break;
            case kDyn:
                if (m.op == 0) w[0].insert(w[0].end(), m.vals.begin(), m.vals.end());
                if (m.op == 1) w[0].resize(w[0].size() - d.parts);
                if (m.op == 2) w[0][m.a] = m.x;
                break;
        }
        if (free_last && got[0].size() == w[0].size()) w[0].back() = got[0].back();
        if (w != got) {
            string t, u;
            for (auto& l : got) t += " " + str(Val{{static_cast<ssize_t>(l.size())}, l});
            for (auto& l : w) u += " " + str(Val{{static_cast<ssize_t>(l.size())}, l});
            fail("move", &d, G.describe(m) + " left" + t + " instead of" + u);
        }
    }

    // C06: requests outside the domain are refused and change nothing
    void refused_requests(State& st) {
        for (int di : G.decisions) {
            const ND& d = G.pool[di];
            auto before = G.contents(d, st);
            if ((d.k == kInteger || d.k == kBinary) && before[0].size()) {
                auto* p = static_cast<const IntegerNode*>(d.a);
                ssize_t i = G.s.draw(before[0].size());
                int v = G.s.chance(1, 2) ? static_cast<int>(d.hi) + 1 + static_cast<int>(G.s.draw(3)) : static_cast<int>(d.lo) - 1 - static_cast<int>(G.s.draw(3));
                bool threw = false;
                try {
                    p->set_value(st, i, v);
                } catch (std::exception&) {
                    threw = true;
                }
                ++G.info.checks;
                if (!threw && G.contents(d, st) != before) fail("domain-request", &d, label(di) + " accepted the value " + std::to_string(v));
                if (threw && G.contents(d, st) != before) fail("domain-request", &d, label(di) + " changed although it refused " + std::to_string(v));
            }
            // explicit initialisation with contents outside the domain
            auto c = G.random_contents(d);
            bool isbad = spoil(d, c);
            if (!isbad) continue;
            State f = G.g.empty_state();
            bool threw = false;
            try {
                G.explicit_init(d, f, c);
            } catch (std::exception&) {
                threw = true;
            }
            ++G.info.checks;
            if (!threw) {
                string t;
                for (auto& l : c) t += " " + str(Val{{static_cast<ssize_t>(l.size())}, l});
                fail("domain-init", &d, label(di) + " accepted the initial contents" + t);
            }
        }
    }
    // Turn valid contents into invalid ones. Returns false when there was no way.
    bool spoil(const ND& d, Gen::Contents& c) {
        Src& s = G.s;
        switch (d.k) {
            case kBinary: case kInteger: {
                // vector<double>&& overload has no promise of validation for values; the range overload has
                return false;
            }
            case kList: case kSet: {
                ssize_t n = c[0].size();
                switch (s.draw(4)) {
                    case 0:
                        if (n < 2) return false;
                        c[0][0] = c[0][1];
                        return true;
                    case 1:
                        if (n < 1) return false;
                        c[0][s.draw(n)] = s.chance(1, 2) ? d.n + s.draw(3) : -1 - static_cast<double>(s.draw(3));
                        return true;
                    case 2:
                        if (n < 1) return false;
                        c[0][s.draw(n)] += 0.5;
                        return true;
                    default:
                        if (n == 0 || d.lo == 0) {
                            // too long
                            if (d.hi >= d.n) return false;
                            c[0] = G.permutation(d.n);
                            c[0].resize(d.hi + 1);
                            return true;
                        }
                        c[0].resize(d.lo - 1);
                        return true;
                }
            }
            case kDBS: {
                switch (s.draw(5)) {
                    case 0:
                        if (d.n < 1) return false;
                        c[s.draw(d.parts)][s.draw(d.n)] = 2;
                        return true;
                    case 1: {  // an element in no set
                        if (d.n < 1) return false;
                        int e = s.draw(d.n);
                        for (auto& l : c) l[e] = 0;
                        return true;
                    }
                    case 2: {  // an element in two sets
                        if (d.n < 1 || d.parts < 2) return false;
                        int e = s.draw(d.n);
                        int p = s.draw(d.parts - 1);
                        c[p][e] = c[p + 1][e] = 1;
                        return true;
                    }
                    case 3: {  // one element twice and another never: the total count is right
                        if (d.n < 2 || d.parts < 2) return false;
                        int e = s.draw(d.n - 1);
                        for (auto& l : c) l[e + 1] = 0;
                        c[0][e] = c[1][e] = 1;
                        for (int p = 2; p < d.parts; ++p) c[p][e] = 0;
                        return true;
                    }
                    default:
                        c.push_back(vector<double>(d.n, 0));
                        return true;
                }
            }
            case kDLS: {
                switch (s.draw(4)) {
                    case 0: {  // a missing element
                        for (auto& l : c)
                            if (l.size()) {
                                l.pop_back();
                                return true;
                            }
                        return false;
                    }
                    case 1: {  // repeated element
                        for (auto& l : c)
                            if (l.size()) {
                                c[s.draw(d.parts)].push_back(l[0]);
                                return true;
                            }
                        return false;
                    }
                    case 2: {
                        for (auto& l : c)
                            if (l.size()) {
                                l[0] = s.chance(1, 2) ? d.n + s.draw(3) : (s.chance(1, 2) ? -1 : l[0] + 0.5);
                                return true;
                            }
                        return false;
                    }
                    default:
                        c.push_back({});
                        return true;
                }
            }
        }
        return false;
    }
};

// One random graph, one random history on one or two states.
inline void graph_case(int mode, Src& s, CaseInfo& info, bool qm_only = false) {
    Gen G(s, info);
    Checker C{G, mode};
    if (qm_only) {
        G.N = 2 + s.draw(5);
        int nd = 1 + s.draw(2);
        for (int i = 0; i < nd; ++i) G.decision();
        for (int i = 0, n = s.draw(4); i < n; ++i) G.op();
        int made = 0;
        for (int t = 0, n = 1 + s.draw(3); t < n; ++t) {
            int x = G.pick([](const ND& b) { return !b.dyn && b.shape.size() == 1; });
            if (x < 0) {
                ND d{kInteger};
                d.lo = -3;
                d.hi = 4;
                d.mag = 4;
                Shape sh{1 + static_cast<ssize_t>(s.draw(6))};
                x = G.add(d, G.mk<IntegerNode>(std::span<const ssize_t>(sh), -3, 4));
                G.decisions.push_back(x);
            }
            made += G.add_qm(x) >= 0;
        }
        if (!made) throw Discard{};
        G.g.topological_sort();
    } else {
        G.build(mode == M06 ? 4 : 12);
        if (mode == M15) C.add_goals();
    }

    const int nstates = s.chance(1, 5) ? 2 : 1;
    vector<State> st;
    vector<vector<Val>> committed;
    for (int i = 0; i < nstates; ++i) {
        G.say("-- state %d", i);
        st.push_back(G.new_state());
        committed.push_back(C.snapshot(st[i]));
    }
    // C02: a twin that only ever sees the accepted moves
    const bool twin_on = C.on(M02);
    vector<State> twin;
    auto clone_twin = [&](int i) {
        // same decision contents, fresh
        State f = G.g.empty_state();
        for (int d : G.decisions) G.explicit_init(G.pool[d], f, G.contents(G.pool[d], st[i]));
        G.g.initialize_state(f);
        return f;
    };
    if (twin_on)
        for (int i = 0; i < nstates; ++i) {
            // both start from explicitly initialised decisions so that hidden elements agree
            State a = clone_twin(i), b = clone_twin(i);
            st[i] = std::move(a);
            twin.push_back(std::move(b));
            committed[i] = C.snapshot(st[i]);
        }

    auto inspect = [&](int i, const char* when) {
        vector<Val> now = C.snapshot(st[i]);
        if (info.verbose)
            for (size_t j = 0; j < now.size(); ++j)
                if (G.pool[j].a) G.say("   n%zu = %s", j, str(now[j]).c_str());
        if (C.on(M01) || C.on(M10)) C.local(now, when);
        if (C.on(M04)) C.bounds(now);
        if (C.on(M05)) C.sizes(st[i], now);
        if (C.on(M06)) C.domains(st[i], when);
        if (C.on(M15)) C.goals(st[i], now, when);
        return now;
    };
    for (int i = 0; i < nstates; ++i) {
        inspect(i, "after initialisation");
        if (C.on(M02) || C.on(M03)) C.no_pending(st[i], "initialisation");
    }

    const int steps = 1 + s.draw(14);
    int changed_derived = 0, reverts = 0, resized = 0;
    for (int step = 0; step < steps; ++step) {
        int i = nstates > 1 ? s.draw(nstates) : 0;
        G.say("-- step %d on state %d", step, i);
        vector<Move> moves;
        std::set<int> srcset;
        int nm = 1 + (s.chance(1, 12) ? s.draw(30) : s.draw(4));
        for (int t = 0; t < nm; ++t) {
            int d = G.decisions[s.draw(G.decisions.size())];
            Move m = G.draw_move(d, st[i]);
            if (m.op < 0) continue;
            auto before = G.contents(G.pool[d], st[i]);
            G.say("   %s", G.describe(m).c_str());
            G.apply(m, st[i]);
            moves.push_back(m);
            srcset.insert(d);
            if (C.on(M06)) {
                C.domains(st[i], "after a move");
                C.move_model(m, before, st[i]);
            }
        }
        if (s.chance(1, 6)) srcset.insert(G.decisions[s.draw(G.decisions.size())]);
        vector<const Node*> sources;
        for (int d : srcset) sources.push_back(G.pool[d].node);
        if (s.chance(1, 2)) std::reverse(sources.begin(), sources.end());

        const bool accept = s.chance(1, 2);
        const bool via_propose = s.chance(1, 3);
        vector<Val> now;
        auto during = [&]() {
            now = inspect(i, "after propagation");
            if (C.on(M03)) C.diffs(st[i], committed[i], now);
            bool moved = false;
            for (size_t j = 0; j < now.size(); ++j) {
                if (G.pool[j].a && G.pool[j].k > kConst && !(now[j] == committed[i][j])) moved = true;
                if (G.pool[j].a && now[j].shape != committed[i][j].shape) ++resized;
            }
            changed_derived += moved;
            if ((C.on(M01) || C.on(M10)) && s.chance(1, 3)) C.fresh(st[i], now);
        };
        if (via_propose) {
            G.say("   propose -> %s", accept ? "accept" : "reject");
            G.g.propose(st[i], sources, [&](const Graph&, State&) {
                during();
                return accept;
            });
        } else {
            auto changed = Graph::descendants(st[i], sources);
            auto copy = changed;
            G.g.propagate(st[i], std::move(copy));
            during();
            G.say("   %s", accept ? "commit" : "revert");
            if (accept) G.g.commit(st[i], std::move(changed));
            else G.g.revert(st[i], std::move(changed));
        }
        ++info.steps;
        vector<Val> after = C.snapshot(st[i]);
        if (C.on(M02)) {
            C.same(accept ? now : committed[i], after, accept ? "commit" : "revert");
            C.no_pending(st[i], accept ? "commit" : "revert");
            if (accept) {
                for (const Move& m : moves) G.apply(m, twin[i]);
                G.g.propose(twin[i], sources, [](const Graph&, State&) { return true; });
                vector<Val> tv = C.snapshot(twin[i]);
                for (size_t j = 0; j < tv.size(); ++j) {
                    const ND& nd = G.pool[j];
                    if (!nd.a || nd.fuzzy) continue;
                    ++info.checks;
                    if (!Checker::close(after[j], tv[j], nd, nd.inexact()))
                        C.fail("history", &nd, C.label(j) + " is " + str(after[j]) + " but a state that only saw the accepted moves has " + str(tv[j]));
                }
            }
        }
        if (C.on(M03)) C.no_pending(st[i], accept ? "commit" : "revert");
        if (C.on(M01) || C.on(M10)) C.local(after, accept ? "after commit" : "after revert");
        if (C.on(M15)) C.goals(st[i], after, accept ? "after commit" : "after revert");
        if (C.on(M04)) C.bounds(after);
        if (C.on(M05)) C.sizes(st[i], after);
        if (C.on(M06)) {
            C.domains(st[i], accept ? "after commit" : "after revert");
            if (s.chance(1, 4)) {
                C.refused_requests(st[i]);
                vector<Val> again = C.snapshot(st[i]);
                // a refused request leaves no trace, an accepted one was within the domain
                C.domains(st[i], "after a refused request");
            }
        }
        if (!accept) ++reverts;
        committed[i] = after;
        // the other state is not touched by anything done to this one
        if (nstates > 1 && (C.on(M02) || C.on(M01))) {
            vector<Val> other = C.snapshot(st[1 - i]);
            C.same(committed[1 - i], other, "cross-state");
        }
    }
    int derived = 0;
    for (auto& nd : G.pool) derived += nd.k > kConst;
    info.nontrivial = derived >= (mode == M06 ? 0 : 2) && steps >= 2 && (changed_derived >= 1 || mode == M06);
    if (mode == M15) info.nontrivial = C.objective >= 0 || C.constraints.size();
    info.feat["cases_with_resize"] += resized > 0;
    info.feat["cases_with_revert"] += reverts > 0;
    info.feat["cases_two_states"] += nstates > 1;
}

// C14: the graph under locking, pruning and growth.
inline void prune_case(Src& s, CaseInfo& info) {
    Gen G(s, info);
    Checker C{G, M14};
    Graph& g = G.g;
    vector<std::pair<int, std::shared_ptr<bool>>> kept;    // who listens to which node
    vector<std::pair<int, std::shared_ptr<bool>>> gone;    // listeners of removed nodes
    int objective = -1;
    vector<int> constraints;

    // everything the graph says about itself
    auto consistent = [&](bool sorted) {
        std::map<const Node*, int> id;
        vector<int> alive;
        for (size_t i = 0; i < G.pool.size(); ++i)
            if (G.pool[i].node) {
                id[G.pool[i].node] = i;
                alive.push_back(i);
            }
        ++info.checks;
        auto bad = [&](const char* k, const string& m) { C.fail(k, nullptr, m); };
        if (g.num_nodes() != static_cast<ssize_t>(alive.size()) || g.nodes().size() != alive.size())
            bad("num_nodes", "there are " + std::to_string(g.num_nodes()) + " nodes instead of " + std::to_string(alive.size()));
        std::set<const Node*> seen;
        ssize_t pos = 0;
        for (auto& u : g.nodes()) {
            if (!u || !id.count(u.get()) || !seen.insert(u.get()).second) bad("nodes", "nodes() does not list the nodes once each");
            if (sorted && u->topological_index() != pos) bad("order", "node at position " + std::to_string(pos) + " has topological index " + std::to_string(u->topological_index()));
            ++pos;
        }
        if (sorted != g.topologically_sorted()) bad("sorted", "topologically_sorted() is wrong");
        if (g.num_decisions() != static_cast<ssize_t>(G.decisions.size())) bad("decisions", "num_decisions() is wrong");
        for (size_t i = 0; i < G.decisions.size(); ++i) {
            const Node* n = G.pool[G.decisions[i]].node;
            if (static_cast<const Node*>(g.decisions()[i]) != n) bad("decisions", "decisions() are not in the order of their creation");
            if (n->topological_index() != static_cast<ssize_t>(i)) bad("decision-index", "a decision changed its topological index");
        }
        for (int i : alive) {
            const ND& nd = G.pool[i];
            std::multiset<const Node*> succ;
            for (auto& sv : nd.node->successors()) {
                succ.insert(sv.ptr);
                if (!id.count(sv.ptr)) bad("dangling", "a successor of " + C.label(i) + " was removed");
                const auto& p = sv.ptr->predecessors();
                if (sv.index < 0 || sv.index >= static_cast<ssize_t>(p.size()) || p[sv.index] != nd.node)
                    bad("successor-index", "a successor of " + C.label(i) + " has another predecessor at the index " + std::to_string(sv.index));
            }
            std::multiset<const Node*> pred;
            for (auto* p : nd.node->predecessors()) {
                if (!id.count(p)) bad("dangling", "a predecessor of " + C.label(i) + " was removed");
                pred.insert(p);
                if (sorted && p->topological_index() >= nd.node->topological_index()) bad("order", C.label(i) + " precedes its operand");
            }
            for (auto* p : pred) {
                ssize_t k = 0;
                for (auto& sv : p->successors()) k += sv.ptr == nd.node;
                if (k != static_cast<ssize_t>(pred.count(p))) bad("mirror", "predecessors and successors of " + C.label(i) + " do not mirror");
            }
            for (auto* p : succ) {
                ssize_t k = 0;
                for (auto* q : p->predecessors()) k += q == nd.node;
                if (k != static_cast<ssize_t>(succ.count(p))) bad("mirror", "successors and predecessors of " + C.label(i) + " do not mirror");
            }
        }
        for (auto& [i, e] : kept)
            if (*e) bad("expired", C.label(i) + " is reported expired but was not removed");
        for (auto& [i, e] : gone)
            if (!*e) bad("not-expired", "removed node n" + std::to_string(i) + " is not reported expired");
        if (g.objective() != (objective < 0 ? nullptr : G.pool[objective].a)) bad("objective", "another objective");
        bool same = g.constraints().size() == constraints.size();
        for (size_t i = 0; same && i < constraints.size(); ++i) same = g.constraints()[i] == G.pool[constraints[i]].a;
        if (!same) bad("constraints", "other constraints");
    };
    auto values = [&]() {
        State st = G.new_state();
        vector<Val> now = C.snapshot(st);
        C.local(now, "in a new state");
    };

    G.build(10);
    consistent(true);
    g.reset_topological_sort();
    const int rounds = 1 + s.draw(4);
    int removed_total = 0;
    for (int r = 0; r < rounds; ++r) {
        ++info.steps;
        for (int t = 0, n = s.draw(6); t < n; ++t) G.op();
        if (s.chance(1, 4)) G.decision();
        if (s.chance(1, 3)) {
            int i = G.pick([](const ND& d) { return !d.dyn && prod(d.shape) == 1; });
            if (i >= 0) {
                g.set_objective(G.pool[i].a);
                objective = i;
                G.say("objective n%d", i);
            }
        }
        if (s.chance(1, 3)) {
            int i = G.pick([](const ND& d) { return !d.dyn && prod(d.shape) == 1 && d.a->logical(); });
            if (i >= 0) {
                g.add_constraint(G.pool[i].a);
                constraints.push_back(i);
                G.say("constraint n%d", i);
            }
        }
        for (int t = 0, n = s.draw(3); t < n; ++t) {
            int i = G.pick([](const ND&) { return true; });
            kept.push_back({i, G.pool[i].node->expired_ptr()});
            G.say("listen to n%d", i);
        }
        if (kept.size() && s.chance(1, 3)) {
            int k = s.draw(kept.size());
            G.say("stop listening to n%d", kept[k].first);
            kept.erase(kept.begin() + k);
        }
        if (s.chance(1, 2)) {
            g.topological_sort();
            consistent(true);
            bool threw = false;
            try {
                double x = 1;
                g.emplace_node<ConstantNode>(x);
            } catch (std::logic_error&) {
                threw = true;
            }
            ++info.checks;
            if (!threw) C.fail("locked-growth", nullptr, "a node was added to a sorted graph");
            consistent(true);
            if (s.chance(1, 2)) values();
            if (s.chance(1, 2)) g.reset_topological_sort();
        }
        // who is used
        const bool ignore = s.chance(1, 2);
        std::set<int> used;
        std::function<void(int)> use = [&](int i) {
            if (!used.insert(i).second) return;
            const ND& nd = G.pool[i];
            for (auto* p : nd.node->predecessors())
                for (size_t j = 0; j < G.pool.size(); ++j)
                    if (G.pool[j].node == p) use(j);
        };
        for (size_t i = 0; i < G.pool.size(); ++i)
            if (G.pool[i].node && (G.pool[i].k < kConst)) use(i);
        if (objective >= 0) use(objective);
        for (int i : constraints) use(i);
        if (!ignore)
            for (auto& [i, e] : kept) use(i);
        vector<int> dead;
        for (size_t i = 0; i < G.pool.size(); ++i)
            if (G.pool[i].node && !used.count(i)) dead.push_back(i);
        ssize_t n = g.remove_unused_nodes(ignore);
        G.say("prune%s: %zd removed", ignore ? " ignoring listeners" : "", n);
        ++info.checks;
        if (n != static_cast<ssize_t>(dead.size()))
            C.fail("prune-count", nullptr, std::to_string(n) + " nodes removed instead of " + std::to_string(dead.size()));
        for (int i : dead) {
            G.pool[i].node = nullptr;
            G.pool[i].a = nullptr;
        }
        removed_total += dead.size();
        for (size_t k = 0; k < kept.size();)
            if (!G.pool[kept[k].first].node) {
                gone.push_back(kept[k]);
                kept.erase(kept.begin() + k);
            } else {
                ++k;
            }
        consistent(false);
        if (s.chance(1, 2)) {
            // creating a state sorts the graph if nobody has done so
            if (s.chance(1, 2)) g.topological_sort();
            values();
            consistent(true);
            g.reset_topological_sort();
        }
    }
    if (s.chance(1, 2)) g.topological_sort();
    values();
    consistent(true);
    int derived = 0;
    for (auto& nd : G.pool) derived += nd.k > kConst;
    info.nontrivial = derived >= 2 && removed_total > 0;
    info.feat["cases_with_removal"] += removed_total > 0;
}
