// Random model graphs over the public C++ API, moves on their decisions, and an independent
// reference for every node type.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <variant>

#include "core.hpp"
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"
#include "dwave-optimization/array.hpp"

using namespace dwave::optimization;
using std::string;
using std::vector;
using Shape = vector<ssize_t>;

struct Val {
    Shape shape;
    vector<double> v;
    bool operator==(const Val& o) const { return shape == o.shape && v == o.v; }
};

inline ssize_t prod(const Shape& s) {
    ssize_t p = 1;
    for (auto x : s) p *= x;
    return p;
}
inline string str(double d) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
inline string str(const Shape& s) {
    string o = "(";
    for (auto x : s) o += std::to_string(x) + ",";
    return o + ")";
}
inline string str(const Val& a) {
    string o = str(a.shape) + "[";
    for (size_t i = 0; i < a.v.size() && i < 64; ++i) o += (i ? " " : "") + str(a.v[i]);
    return o + "]";
}

// Row-major read-out of an array through buff/shape/strides only.
inline Val read_array(const Array* a, const State& st) {
    Val r;
    auto sh = a->shape(st);
    r.shape.assign(sh.begin(), sh.end());
    auto strides = a->strides();
    ssize_t n = prod(r.shape);
    if (n < 0) throw Violation{"shape", "negative extent in a state-dependent shape " + str(r.shape)};
    if (n > 100000) throw Violation{"shape", "implausible state-dependent shape " + str(r.shape)};
    r.v.reserve(n);
    if (!n) return r;
    const double* base = a->buff(st);
    vector<ssize_t> idx(r.shape.size(), 0);
    for (ssize_t k = 0; k < n; ++k) {
        ssize_t off = 0;
        for (size_t d = 0; d < idx.size(); ++d) off += idx[d] * strides[d];
        r.v.push_back(*reinterpret_cast<const double*>(reinterpret_cast<const char*>(base) + off));
        for (ssize_t d = static_cast<ssize_t>(idx.size()) - 1; d >= 0; --d) {
            if (++idx[d] < r.shape[d]) break;
            idx[d] = 0;
        }
    }
    return r;
}

enum K {
    kBinary, kInteger, kList, kSet, kDBS, kDBSet, kDLS, kDList, kDyn, kConst,
    kAdd, kSub, kMul, kDiv, kMod, kMaxi, kMini, kAnd, kOr, kXor, kEq, kLe,
    kNAdd, kNMul, kNMax, kNMin,
    kPSum, kAll, kAny, kMax, kMin, kProd, kSum,
    kAbs, kLogical, kNeg, kNot, kSquare, kSqrt,
    kWhere, kConcat, kReshape, kSize, kBasic, kAdv, kPerm, kQM
};
inline const char* kname(int k) {
    static const char* n[] = {"Binary", "Integer", "List", "Set", "DisjointBitSets", "DisjointBitSet", "DisjointLists",
                              "DisjointList", "DynamicArray", "Constant", "Add", "Subtract", "Multiply", "Divide",
                              "Modulus", "Maximum", "Minimum", "And", "Or", "Xor", "Equal", "LessEqual", "NaryAdd",
                              "NaryMultiply", "NaryMaximum", "NaryMinimum", "PartialSum", "All", "Any", "Max", "Min",
                              "Prod", "Sum", "Absolute", "Logical", "Negative", "Not", "Square", "SquareRoot", "Where",
                              "Concatenate", "Reshape", "Size", "BasicIndexing", "AdvancedIndexing", "Permutation",
                              "QuadraticModel"};
    return n[k];
}

constexpr int INEXACT = 999;

struct QM {
    vector<double> lin;
    std::map<std::pair<int, int>, double> quad;  // u>=v
};

struct ND {
    int k;
    Node* node = nullptr;
    ArrayNode* a = nullptr;  // null for DisjointLists / DisjointBitSets
    vector<int> preds;       // indices into pool, in operand order
    Shape shape;             // declared shape, -1 first when dynamic
    bool dyn = false;
    ssize_t minsz = 1, maxsz = 1;  // own bounds on the number of elements
    double mag = 0;                // own bound on |value|
    double minabs = 0;             // own lower bound on |value| (only kept for constants/offsets)
    int fb = 0;                    // fractional bits of exact dyadic values, or INEXACT
    bool fuzzy = false;            // discontinuous function of an inexact ancestor
    // parameters
    ssize_t n = 0, lo = 0, hi = 0, parts = 0;
    int axis = 0;
    std::optional<double> init;
    vector<std::variant<Slice, ssize_t>> bidx;
    vector<int> aidx;  // advanced: index into preds (>=1) or -1 for slice
    Val cval;
    QM qm;
    vector<int> views;  // for disjoint: pool indices of the outputs
    bool inexact() const { return fb >= INEXACT; }
};

// ---------------------------------------------------------------- reference semantics
inline double modref(double x, double y) {
    if (y == 0) return 0;
    // Python / NumPy: result has the sign of the divisor
    double r = std::fmod(x, y);
    if (r != 0 && ((r < 0) != (y < 0))) r += y;
    return r;
}
inline double binop(int k, double x, double y) {
    switch (k) {
        case kAdd: case kNAdd: return x + y;
        case kSub: return x - y;
        case kMul: case kNMul: return x * y;
        case kDiv: return x / y;
        case kMod: return modref(x, y);
        case kMaxi: case kNMax: return x > y ? x : y;
        case kMini: case kNMin: return x < y ? x : y;
        case kAnd: return x != 0 && y != 0;
        case kOr: return x != 0 || y != 0;
        case kXor: return (x != 0) != (y != 0);
        case kEq: return x == y;
        case kLe: return x <= y;
    }
    abort();
}
inline Shape bshape(const Shape& a, const Shape& b) {
    Shape r(std::max(a.size(), b.size()));
    for (size_t i = 0; i < r.size(); ++i) {
        ssize_t x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1;
        r[r.size() - 1 - i] = x == 1 ? y : x;
    }
    return r;
}
struct PySlice {
    ssize_t start, stop, step, len;
};
// Python slice semantics (step > 0), Slice uses lowest()/max() for open ends
inline PySlice pyslice(const Slice& s, ssize_t n) {
    ssize_t a = s.start, b = s.stop, st = s.step;
    if (a < 0) a = std::max<ssize_t>(a + n, 0);
    if (a > n) a = n;
    if (b < 0) b = std::max<ssize_t>(b + n, 0);
    if (b > n) b = n;
    return {a, b, st, b > a ? (b - a + st - 1) / st : 0};
}
inline ssize_t flat(const Shape& shape, const vector<ssize_t>& idx) {
    ssize_t f = 0;
    for (size_t d = 0; d < shape.size(); ++d) f = f * shape[d] + idx[d];
    return f;
}
template <class F>
inline void for_each_index(const Shape& shape, F f) {
    ssize_t n = prod(shape);
    vector<ssize_t> idx(shape.size(), 0);
    for (ssize_t k = 0; k < n; ++k) {
        f(idx);
        for (ssize_t d = static_cast<ssize_t>(idx.size()) - 1; d >= 0; --d) {
            if (++idx[d] < shape[d]) break;
            idx[d] = 0;
        }
    }
}

// Value of node nd given the values of its predecessors. Not for decisions and their views.
inline Val reference(const ND& nd, const vector<Val>& p) {
    Val r;
    const int k = nd.k;
    switch (k) {
        case kConst: return nd.cval;
        case kAdd: case kSub: case kMul: case kDiv: case kMod: case kMaxi: case kMini: case kAnd: case kOr:
        case kXor: case kEq: case kLe: {
            r.shape = bshape(p[0].shape, p[1].shape);
            ssize_t n = prod(r.shape);
            for (ssize_t i = 0; i < n; ++i) {
                double x = p[0].v.size() == 1 ? p[0].v[0] : p[0].v.at(i);
                double y = p[1].v.size() == 1 ? p[1].v[0] : p[1].v.at(i);
                r.v.push_back(binop(k, x, y));
            }
            return r;
        }
        case kNAdd: case kNMul: case kNMax: case kNMin: {
            r = p[0];
            for (size_t j = 1; j < p.size(); ++j)
                for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = binop(k, r.v[i], p[j].v[i]);
            return r;
        }
        case kPSum: {
            r.shape = p[0].shape;
            r.shape.erase(r.shape.begin() + nd.axis);
            r.v.assign(prod(r.shape), 0);
            for_each_index(p[0].shape, [&](const vector<ssize_t>& idx) {
                auto o = idx;
                o.erase(o.begin() + nd.axis);
                r.v[flat(r.shape, o)] += p[0].v[flat(p[0].shape, idx)];
            });
            return r;
        }
        case kAll: {
            double x = nd.init.value_or(1) != 0;
            for (double y : p[0].v) x = x && y != 0;
            r.v = {x};
            return r;
        }
        case kAny: {
            double x = nd.init.value_or(0) != 0;
            for (double y : p[0].v) x = x || y != 0;
            r.v = {x};
            return r;
        }
        case kMax: case kMin: {
            bool has = nd.init.has_value();
            double x = nd.init.value_or(0);
            for (double y : p[0].v) {
                x = !has ? y : (k == kMax ? std::max(x, y) : std::min(x, y));
                has = true;
            }
            r.v = {x};
            return r;
        }
        case kProd: {
            double x = nd.init.value_or(1);
            for (double y : p[0].v) x *= y;
            r.v = {x};
            return r;
        }
        case kSum: {
            double x = nd.init.value_or(0);
            for (double y : p[0].v) x += y;
            r.v = {x};
            return r;
        }
        case kAbs: case kLogical: case kNeg: case kNot: case kSquare: case kSqrt:
            r = p[0];
            for (double& x : r.v) {
                switch (k) {
                    case kAbs: x = std::fabs(x); break;
                    case kLogical: x = x != 0; break;
                    case kNeg: x = -x; break;
                    case kNot: x = x == 0; break;
                    case kSquare: x = x * x; break;
                    case kSqrt: x = std::sqrt(x); break;
                }
            }
            return r;
        case kWhere: {
            if (p[0].v.size() == 1 && prod(nd.shape) != 1) return p[0].v[0] != 0 ? p[1] : p[2];
            if (p[0].v.size() == 1 && p[1].v.size() == 1) {
                r = p[0].v[0] != 0 ? p[1] : p[2];
                return r;
            }
            r = p[1];
            for (size_t i = 0; i < r.v.size(); ++i)
                if (p[0].v.at(i) == 0) r.v[i] = p[2].v.at(i);
            return r;
        }
        case kConcat: {
            r.shape = p[0].shape;
            ssize_t tot = 0;
            for (auto& q : p) tot += q.shape[nd.axis];
            r.shape[nd.axis] = tot;
            r.v.assign(prod(r.shape), 0);
            ssize_t off = 0;
            for (auto& q : p) {
                for_each_index(q.shape, [&](const vector<ssize_t>& idx) {
                    auto o = idx;
                    o[nd.axis] += off;
                    r.v[flat(r.shape, o)] = q.v[flat(q.shape, idx)];
                });
                off += q.shape[nd.axis];
            }
            return r;
        }
        case kReshape:
            r.shape = nd.shape;
            r.v = p[0].v;
            return r;
        case kSize:
            r.v = {static_cast<double>(p[0].v.size())};
            return r;
        case kBasic: {
            vector<PySlice> sl;
            vector<ssize_t> fixed;
            for (size_t d = 0; d < nd.bidx.size(); ++d) {
                ssize_t n = p[0].shape[d];
                if (std::holds_alternative<Slice>(nd.bidx[d])) {
                    sl.push_back(pyslice(std::get<Slice>(nd.bidx[d]), n));
                    r.shape.push_back(sl.back().len);
                    fixed.push_back(-1);
                } else {
                    ssize_t i = std::get<ssize_t>(nd.bidx[d]);
                    fixed.push_back(i < 0 ? i + n : i);
                    sl.push_back({});
                }
            }
            for_each_index(r.shape, [&](const vector<ssize_t>& idx) {
                vector<ssize_t> src;
                size_t j = 0;
                for (size_t d = 0; d < fixed.size(); ++d)
                    src.push_back(fixed[d] >= 0 ? fixed[d] : sl[d].start + sl[d].step * idx[j++]);
                r.v.push_back(p[0].v.at(flat(p[0].shape, src)));
            });
            return r;
        }
        case kAdv: {
            // NumPy advanced indexing with full slices and same-shaped (0-d / 1-d) index arrays
            int first = -1, last = -1, cnt = 0;
            for (size_t d = 0; d < nd.aidx.size(); ++d)
                if (nd.aidx[d] >= 0) {
                    if (first < 0) first = d;
                    last = d;
                    ++cnt;
                }
            const bool adjacent = last - first + 1 == cnt;
            const Val& ix = p[nd.aidx[first]];
            const Shape base = p[0].shape;
            Shape before, after;
            for (size_t d = 0; d < nd.aidx.size(); ++d)
                if (nd.aidx[d] < 0) (adjacent && static_cast<int>(d) < first ? before : after).push_back(base[d]);
            r.shape = before;
            for (auto x : ix.shape) r.shape.push_back(x);
            for (auto x : after) r.shape.push_back(x);
            const size_t nix = ix.shape.size();
            for_each_index(r.shape, [&](const vector<ssize_t>& idx) {
                ssize_t pos = nix ? idx[before.size()] : 0;
                vector<ssize_t> src;
                size_t jb = 0, ja = before.size() + nix;
                for (size_t d = 0; d < nd.aidx.size(); ++d) {
                    if (nd.aidx[d] >= 0) {
                        src.push_back(static_cast<ssize_t>(p[nd.aidx[d]].v.at(pos)));
                    } else if (jb < before.size() && static_cast<int>(d) < first) {
                        src.push_back(idx[jb++]);
                    } else {
                        src.push_back(idx[ja++]);
                    }
                }
                for (size_t d = 0; d < src.size(); ++d)
                    if (src[d] < 0 || src[d] >= base[d])
                        throw Violation{"index-range:AdvancedIndexing",
                                        "index " + std::to_string(src[d]) + " out of range for accepted indexing"};
                r.v.push_back(p[0].v.at(flat(base, src)));
            });
            return r;
        }
        case kPerm: {
            // M[order, :][:, order]
            r.shape = p[0].shape;
            for_each_index(r.shape, [&](const vector<ssize_t>& idx) {
                vector<ssize_t> src;
                for (auto i : idx) src.push_back(static_cast<ssize_t>(p[1].v[i]));
                r.v.push_back(p[0].v.at(flat(r.shape, src)));
            });
            return r;
        }
        case kQM: {
            double x = 0;
            const auto& v = p[0].v;
            for (size_t i = 0; i < v.size(); ++i) x += nd.qm.lin[i] * v[i];
            for (auto& [uv, b] : nd.qm.quad) x += b * v[uv.first] * v[uv.second];
            r.v = {x};
            return r;
        }
    }
    abort();
}

// ---------------------------------------------------------------- moves
struct Move {
    int d;  // pool index of the decision
    int op;
    ssize_t a = 0, b = 0, c = 0, e = 0;
    double x = 0;
    vector<double> vals;
    vector<vector<double>> parts;
};

struct Gen {
    Src& s;
    CaseInfo& info;
    Graph g;
    vector<ND> pool;
    vector<int> decisions;
    int N = 3;  // dominant dimension of this case, makes index arrays and arrays fit each other
    vector<string> bad;
    int leaks = 0;

    explicit Gen(Src& s, CaseInfo& info) : s(s), info(info) {}

    void say(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!info.verbose) return;
        va_list ap;
        va_start(ap, fmt);
        vprintf(fmt, ap);
        va_end(ap);
        printf("\n");
    }

    // -------------------------------------------------------- construction helpers
    template <class T, class... A>
    T* mk(A&&... args) {
        vector<size_t> before;
        for (auto& nd : pool) before.push_back(nd.node ? nd.node->successors().size() : 0);
        try {
            return g.emplace_node<T>(std::forward<A>(args)...);
        } catch (std::exception& e) {
            ++info.refused;
            for (size_t i = 0; i < pool.size(); ++i) {
                if (pool[i].node && pool[i].node->successors().size() != before[i]) ++leaks;
            }
            if (leaks) throw Discard{};
            if (info.verbose) printf("# refused: %s\n", e.what());
            return nullptr;
        }
    }

    int add(ND nd, ArrayNode* a) {
        nd.a = a;
        nd.node = a;
        auto sh = a->shape();
        nd.shape.assign(sh.begin(), sh.end());
        nd.dyn = a->dynamic();
        if (!nd.dyn) nd.minsz = nd.maxsz = prod(nd.shape);
        pool.push_back(nd);
        ++info.feat[kname(nd.k)];
        if (info.verbose) {
            const ND& q = pool.back();
            string d = "n" + std::to_string(pool.size() - 1) + " = " + kname(q.k) + "(";
            for (int i : q.preds) d += " n" + std::to_string(i);
            d += " )";
            if (q.k == kConst) d += " " + str(q.cval);
            if (q.k == kPSum || q.k == kConcat) d += " axis=" + std::to_string(q.axis);
            if (q.init) d += " init=" + str(*q.init);
            if (q.k == kInteger) d += " [" + std::to_string(q.lo) + "," + std::to_string(q.hi) + "]";
            if (q.k == kList || q.k == kSet || q.k == kDyn)
                d += " n=" + std::to_string(q.n) + " size in [" + std::to_string(q.lo) + "," + std::to_string(q.hi) + "]";
            if (q.k == kBasic)
                for (auto& v : q.bidx) {
                    if (std::holds_alternative<Slice>(v)) {
                        std::ostringstream os;
                        os << std::get<Slice>(v);
                        d += " " + os.str();
                    } else
                        d += " " + std::to_string(std::get<ssize_t>(v));
                }
            if (q.k == kAdv)
                for (int v : q.aidx) d += v < 0 ? " :" : " n" + std::to_string(q.preds[v]);
            if (q.k == kQM) {
                d += " lin=[";
                for (double x : q.qm.lin) d += str(x) + " ";
                d += "] quad={";
                for (auto& [uv, b] : q.qm.quad)
                    d += "(" + std::to_string(uv.first) + "," + std::to_string(uv.second) + "):" + str(b) + " ";
                d += "}";
            }
            d += " : " + str(q.shape);
            printf("%s\n", d.c_str());
        }
        return pool.size() - 1;
    }

    bool big = false;  // arrays of tens or hundreds of elements
    ssize_t dim(bool zero = true) {
        int r = s.draw(16);
        if (r < 8) return N;
        if (r < 15) return 1 + s.draw(4);
        return zero && s.chance(1, 4) ? 0 : 2;
    }
    Shape shape(int maxnd = 3) {
        static const int w[] = {1, 1, 1, 0, 2, 2, 2, 3};
        int nd = std::min<int>(w[s.draw(8)], maxnd);
        Shape r;
        for (int i = 0; i < nd; ++i) r.push_back(dim());
        if (prod(r) > (big ? 1000 : 48)) r.pop_back();
        return r;
    }
    double constval() {
        switch (s.draw(8)) {
            case 0: case 1: case 2: return s.range(0, 4);
            case 3: case 4: return -s.range(0, 5);
            case 5: return s.range(0, 7) * 0.5;
            case 6: return -s.range(0, 15) * 0.25;
            default: return s.range(-100, 100);
        }
    }

    int constant(std::optional<Shape> want = std::nullopt, int maxval = -1) {
        ND nd{kConst};
        Shape sh = want ? *want : shape();
        nd.cval.shape = sh;
        const int style = s.draw(8);
        for (ssize_t i = 0; i < prod(sh); ++i) {
            double v;
            if (maxval >= 0) v = s.range(0, maxval);
            else if (style == 0) v = s.range(0, N > 0 ? N - 1 : 0);  // index-like
            else if (style == 1) v = s.draw(2);
            else if (style == 2) v = s.range(1, 5);  // positive
            else if (style == 3) v = -s.range(1, 5);
            else if (style == 6) v = s.range(-7, 8) * 0.125;  // all small
            else if (style == 7) v = s.range(-300, 300) * 0.01;  // not exact in binary
            else v = constval();
            nd.cval.v.push_back(v);
        }
        nd.fb = 0;
        nd.minabs = 1e300;
        for (double v : nd.cval.v) {
            nd.mag = std::max(nd.mag, std::fabs(v));
            nd.minabs = std::min(nd.minabs, std::fabs(v));
            if (v != std::floor(v)) nd.fb = std::max(nd.fb, 4 * v == std::floor(4 * v) ? 2 : 8 * v == std::floor(8 * v) ? 3 : INEXACT);
        }
        if (nd.cval.v.empty()) nd.minabs = 0;
        ArrayNode* a;
        if (sh.empty()) a = mk<ConstantNode>(nd.cval.v[0]);
        else {
            // Owning storage for the lifetime of the graph
            store.push_back(std::make_unique<vector<double>>(nd.cval.v));
            store.back()->push_back(0);  // never an empty buffer
            a = mk<ConstantNode>(store.back()->data(), std::span<const ssize_t>(sh));
        }
        return add(nd, a);
    }
    vector<std::unique_ptr<vector<double>>> store;

    int decision() {
        int idx = -1;
        switch (s.draw(20)) {
            case 0: case 1: case 2: {
                ND nd{kBinary};
                Shape sh = shape(2);
                nd.mag = 1;
                nd.lo = 0;
                nd.hi = 1;
                idx = add(nd, mk<BinaryNode>(std::span<const ssize_t>(sh)));
                break;
            }
            case 3: case 4: case 5: case 6: {
                ND nd{kInteger};
                Shape sh = shape(3);
                switch (s.draw(7)) {
                    case 0: nd.lo = 0; nd.hi = N - 1; break;
                    case 1: nd.lo = -3; nd.hi = 5; break;
                    case 2: nd.lo = 1; nd.hi = 4; break;
                    case 3: nd.lo = -6; nd.hi = -1; break;
                    case 4: nd.lo = s.range(-9, 9); nd.hi = nd.lo + s.draw(6); break;
                    case 5: nd.lo = 0; nd.hi = 1; break;
                    default: nd.lo = s.chance(1, 2) ? -2000000000 : 0; nd.hi = 2000000000; break;
                }
                if (nd.hi < nd.lo) nd.hi = nd.lo;
                nd.mag = std::max(std::fabs(double(nd.lo)), std::fabs(double(nd.hi)));
                if (nd.lo > 0) nd.minabs = nd.lo;
                if (nd.hi < 0) nd.minabs = -nd.hi;
                idx = add(nd, mk<IntegerNode>(std::span<const ssize_t>(sh), int(nd.lo), int(nd.hi)));
                break;
            }
            case 7: case 8: {
                ND nd{kList};
                nd.n = s.chance(2, 3) ? N : 1 + s.draw(5);
                nd.mag = nd.n;
                nd.lo = nd.hi = nd.n;
                if (s.chance(1, 3)) {
                    nd.lo = s.range(0, nd.n);
                    nd.hi = s.range(nd.lo, nd.n);
                    auto* p = mk<ListNode>(nd.n, nd.lo, nd.hi);
                    nd.minsz = nd.lo;
                    nd.maxsz = nd.hi;
                    idx = add(nd, p);
                } else {
                    idx = add(nd, mk<ListNode>(nd.n));
                }
                break;
            }
            case 9: case 10: case 11: case 12: {
                ND nd{kSet};
                nd.n = s.chance(2, 3) ? N : 1 + s.draw(6);
                nd.mag = nd.n;
                nd.lo = 0;
                nd.hi = nd.n;
                if (s.chance(1, 2)) {
                    nd.lo = s.range(0, nd.n);
                    nd.hi = s.range(nd.lo, nd.n);
                }
                nd.minsz = nd.lo;
                nd.maxsz = nd.hi;
                idx = add(nd, mk<SetNode>(nd.n, nd.lo, nd.hi));
                break;
            }
            case 13: case 14: {
                ND nd{kDBS};
                nd.n = s.chance(2, 3) ? N : 1 + s.draw(5);
                nd.parts = 1 + s.draw(4);
                auto* p = mk<DisjointBitSetsNode>(nd.n, nd.parts);
                nd.node = p;
                pool.push_back(nd);
                idx = pool.size() - 1;
                say("n%d = DisjointBitSets(%zd, %zd)", idx, nd.n, nd.parts);
                for (int i = 0; i < nd.parts; ++i) {
                    ND v{kDBSet};
                    v.preds = {idx};
                    v.n = nd.n;
                    v.axis = i;
                    v.mag = 1;
                    int vi = add(v, mk<DisjointBitSetNode>(p));
                    pool[idx].views.push_back(vi);
                }
                break;
            }
            case 15: case 16: case 17: {
                ND nd{kDLS};
                nd.n = s.chance(2, 3) ? N : 1 + s.draw(5);
                nd.parts = 1 + s.draw(4);
                auto* p = mk<DisjointListsNode>(nd.n, nd.parts);
                nd.node = p;
                pool.push_back(nd);
                idx = pool.size() - 1;
                say("n%d = DisjointLists(%zd, %zd)", idx, nd.n, nd.parts);
                for (int i = 0; i < nd.parts; ++i) {
                    ND v{kDList};
                    v.preds = {idx};
                    v.n = nd.n;
                    v.axis = i;
                    v.mag = nd.n;
                    v.minsz = 0;
                    v.maxsz = nd.n;
                    int vi = add(v, mk<DisjointListNode>(p));
                    pool[idx].views.push_back(vi);
                }
                break;
            }
            default: {
                ND nd{kDyn};
                int cols = 1;
                int r = s.draw(3);
                nd.lo = s.draw(3);
                nd.hi = nd.lo + 1 + s.draw(5);
                nd.n = s.draw(3);  // value style: 0 index-like, 1 ints, 2 fractions
                std::optional<double> mn = nd.n == 0 ? 0 : -4, mx = nd.n == 0 ? std::max(N - 1, 0) : 6;
                if (nd.n && s.chance(1, 6)) mn = std::nullopt;  // nothing is said about the values
                if (nd.n && s.chance(1, 6)) mx = std::nullopt;
                const bool capped = !s.chance(1, 5);  // whether the node says how large it can become
                auto cap = [&](int n) { return capped ? std::optional<ssize_t>(n) : std::nullopt; };
                if (nd.n == 2) nd.fb = 2;
                nd.mag = 6;
                DynamicArrayTestingNode* p;
                if (r == 0) {
                    p = mk<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1}, mn, mx, nd.n != 2,
                                                    nd.lo, cap(nd.hi));
                } else if (r == 1) {
                    cols = 1 + s.draw(3);
                    p = mk<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1, cols}, mn, mx, nd.n != 2,
                                                    nd.lo * cols, cap(nd.hi * cols));
                } else {
                    int c1 = 1 + s.draw(2), c2 = 1 + s.draw(2);
                    cols = c1 * c2;
                    p = mk<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1, c1, c2}, mn, mx, nd.n != 2,
                                                    nd.lo * cols, cap(nd.hi * cols));
                }
                nd.parts = cols;
                nd.minsz = nd.lo * cols;
                nd.maxsz = nd.hi * cols;
                idx = add(nd, p);
            }
        }
        decisions.push_back(idx);
        return idx;
    }

    // -------------------------------------------------------- operators
    template <class P>
    int pick(P pred) {
        vector<int> c;
        for (int i = static_cast<int>(pool.size()) - 1; i >= 0; --i)
            if (pool[i].a && pred(pool[i])) c.push_back(i);
        if (c.empty()) return -1;
        // prefer recent nodes a little
        int i = s.draw(c.size());
        if (c.size() > 4 && s.chance(1, 3)) i = std::min<int>(i, s.draw(c.size()));
        return c[i];
    }
    bool fits(double mag, int fb) const { return mag <= 1e15; }
    static int exactness(double mag, int fb) {
        if (fb >= INEXACT) return INEXACT;
        return std::log2(mag + 1) + fb > 50 ? INEXACT : fb;
    }
    static ssize_t rowsize(const ND& nd) {
        ssize_t r = 1;
        for (size_t i = 1; i < nd.shape.size(); ++i) r *= nd.shape[i];
        return r;
    }

    Slice random_slice(ssize_t n, bool dynamic_axis) {
        std::optional<ssize_t> a, b, st;
        int span = static_cast<int>(n) + 2;
        if (s.chance(2, 3)) a = s.chance(1, 3) ? -static_cast<ssize_t>(s.draw(span)) : static_cast<ssize_t>(s.draw(span));
        if (s.chance(2, 3)) b = s.chance(1, 3) ? -static_cast<ssize_t>(s.draw(span)) : static_cast<ssize_t>(s.draw(span));
        if (s.chance(1, 3)) st = 1 + s.draw(3);
        return Slice(a, b, st);
    }

    // Try to add one derived node. Returns its pool index or -1.
    int op(int kind = -1) {
        static const int kinds[] = {kAdd, kSub, kMul, kDiv, kMod, kMaxi, kMini, kAnd, kOr, kXor, kEq, kLe,
                                    kNAdd, kNMul, kNMax, kNMin, kPSum, kPSum, kAll, kAny, kMax, kMax, kMin, kMin, kProd, kProd, kSum, kSum,
                                    kAbs, kLogical, kNeg, kNot, kSquare, kSqrt, kWhere, kWhere, kConcat, kConcat,
                                    kReshape, kReshape, kSize, kBasic, kBasic, kBasic, kBasic, kAdv, kAdv, kAdv, kAdv, kAdv,
                                    kPerm, kQM, kQM};
        if (kind < 0) kind = kinds[s.draw(sizeof kinds / sizeof *kinds)];
        ND nd{kind};
        auto any = [](const ND&) { return true; };
        switch (kind) {
            case kAdd: case kSub: case kMul: case kDiv: case kMod: case kMaxi: case kMini: case kAnd: case kOr:
            case kXor: case kEq: case kLe: {
                int i = pick(any);
                if (i < 0) return -1;
                const ND& a = pool[i];
                int j = pick([&](const ND& b) {
                    if (a.dyn && b.dyn) return false;
                    if (a.dyn) return prod(b.shape) == 1 && b.shape.size() <= a.shape.size();
                    if (b.dyn) return prod(a.shape) == 1 && a.shape.size() <= b.shape.size();
                    return a.shape == b.shape || prod(a.shape) == 1 || prod(b.shape) == 1;
                });
                if (kind == kDiv) {
                    auto okden = [&](const ND& b) {
                        return (b.a->min() > 0 || b.a->max() < 0) && b.minabs > 0;
                    };
                    if (j < 0 || !okden(pool[j])) {
                        Shape sh = s.chance(1, 2) || a.dyn ? Shape{} : a.shape;
                        j = constant(sh);
                        if (!okden(pool[j])) return -1;
                    }
                } else if (j < 0) {
                    j = constant(Shape{});
                }
                if (kind != kDiv && s.chance(1, 2)) std::swap(i, j);
                const ND &x = pool[i], &y = pool[j];
                nd.preds = {i, j};
                nd.fb = std::max(x.fb, y.fb);
                switch (kind) {
                    case kAdd: case kSub: nd.mag = x.mag + y.mag; break;
                    case kMul: nd.mag = x.mag * y.mag; nd.fb = std::min(x.fb + y.fb, INEXACT); break;
                    case kDiv: nd.mag = x.mag / y.minabs; nd.fb = INEXACT; break;
                    case kMod: nd.mag = y.mag; break;
                    case kMaxi: case kMini: nd.mag = std::max(x.mag, y.mag); break;
                    default: nd.mag = 1; nd.fb = 0;
                }
                nd.fuzzy = x.fuzzy || y.fuzzy;
                if (kind == kMod || kind == kAnd || kind == kOr || kind == kXor || kind == kEq || kind == kLe)
                    nd.fuzzy |= x.inexact() || y.inexact();
                if (!fits(nd.mag, nd.fb)) return -1;
                nd.fb = exactness(nd.mag, nd.fb);
                nd.minsz = std::min(x.dyn ? x.minsz : 1, y.dyn ? y.minsz : 1);
                nd.maxsz = std::max(x.maxsz, y.maxsz);
                if (x.dyn) nd.minsz = x.minsz;
                if (y.dyn) nd.minsz = y.minsz;
                ArrayNode *p = x.a, *q = y.a, *r = nullptr;
                switch (kind) {
                    case kAdd: r = mk<AddNode>(p, q); break;
                    case kSub: r = mk<SubtractNode>(p, q); break;
                    case kMul: r = mk<MultiplyNode>(p, q); break;
                    case kDiv: r = mk<DivideNode>(p, q); break;
                    case kMod: r = mk<ModulusNode>(p, q); break;
                    case kMaxi: r = mk<MaximumNode>(p, q); break;
                    case kMini: r = mk<MinimumNode>(p, q); break;
                    case kAnd: r = mk<AndNode>(p, q); break;
                    case kOr: r = mk<OrNode>(p, q); break;
                    case kXor: r = mk<XorNode>(p, q); break;
                    case kEq: r = mk<EqualNode>(p, q); break;
                    case kLe: r = mk<LessEqualNode>(p, q); break;
                }
                return r ? add(nd, r) : -1;
            }
            case kNAdd: case kNMul: case kNMax: case kNMin: {
                int i = pick([](const ND& a) { return !a.dyn; });
                if (i < 0) return -1;
                Shape sh = pool[i].shape;
                nd.preds = {i};
                int m = s.draw(4);
                for (int t = 0; t < m; ++t) {
                    int j = pick([&](const ND& a) { return !a.dyn && a.shape == sh; });
                    nd.preds.push_back(j);
                }
                nd.mag = kind == kNMul ? 1 : 0;
                for (int j : nd.preds) {
                    const ND& a = pool[j];
                    if (kind == kNAdd) nd.mag += a.mag;
                    else if (kind == kNMul) nd.mag *= std::max(1.0, a.mag);
                    else nd.mag = std::max(nd.mag, a.mag);
                    nd.fb = kind == kNMul ? std::min(nd.fb + a.fb, INEXACT) : std::max(nd.fb, a.fb);
                    nd.fuzzy |= a.fuzzy;
                }
                if (!fits(nd.mag, nd.fb)) return -1;
                nd.fb = exactness(nd.mag, nd.fb);
                vector<ArrayNode*> ps;
                for (int j : nd.preds) ps.push_back(pool[j].a);
                std::span<ArrayNode*> sp(ps);
                ArrayNode* r = nullptr;
                // sometimes built by adding operands one by one
                size_t upfront = s.chance(1, 3) ? 1 : ps.size();
                auto build = [&](auto* tag) {
                    using T = std::remove_pointer_t<decltype(tag)>;
                    T* q = mk<T>(sp.subspan(0, upfront));
                    if (q)
                        for (size_t t = upfront; t < ps.size(); ++t) q->add_node(ps[t]);
                    r = q;
                };
                if (kind == kNAdd) build((NaryAddNode*)nullptr);
                if (kind == kNMul) build((NaryMultiplyNode*)nullptr);
                if (kind == kNMax) build((NaryMaximumNode*)nullptr);
                if (kind == kNMin) build((NaryMinimumNode*)nullptr);
                return r ? add(nd, r) : -1;
            }
            case kPSum: {
                int i = pick([](const ND& a) { return !a.dyn && a.shape.size() >= 1 && prod(a.shape) >= 1; });
                if (i < 0) return -1;
                nd.preds = {i};
                nd.axis = s.draw(pool[i].shape.size());
                nd.mag = pool[i].mag * pool[i].shape[nd.axis];
                nd.fb = pool[i].fb;
                nd.fuzzy = pool[i].fuzzy;
                if (!fits(nd.mag, nd.fb)) return -1;
                nd.fb = exactness(nd.mag, nd.fb);
                auto* r = mk<PartialSumNode>(pool[i].a, static_cast<ssize_t>(nd.axis));
                return r ? add(nd, r) : -1;
            }
            case kAll: case kAny: case kMax: case kMin: case kProd: case kSum: {
                int i = pick(any);
                if (i < 0) return -1;
                const ND& a = pool[i];
                nd.preds = {i};
                const bool mm = kind == kMax || kind == kMin;
                if ((mm && (a.dyn || a.maxsz == 0)) || s.chance(1, 4)) {
                    if (kind == kAll || kind == kAny) nd.init = s.draw(2);
                    else nd.init = constval();
                }
                double im = nd.init ? std::fabs(*nd.init) : 0;
                int ifb = nd.init && *nd.init != std::floor(*nd.init) ? 2 : 0;
                nd.fuzzy = a.fuzzy;
                if (kind == kAll || kind == kAny) {
                    nd.mag = 1;
                    nd.fuzzy |= a.inexact();
                } else if (mm) {
                    nd.mag = std::max(a.mag, im);
                    nd.fb = std::max(a.fb, ifb);
                } else if (kind == kSum) {
                    nd.mag = a.mag * a.maxsz + im;
                    nd.fb = std::max(a.fb, ifb);
                } else {
                    nd.mag = std::pow(std::max(1.0, a.mag), a.maxsz) * std::max(1.0, im);
                    nd.fb = std::min<ssize_t>(a.fb * a.maxsz + ifb, INEXACT);
                }
                if (!fits(nd.mag, nd.fb)) return -1;
                nd.fb = exactness(nd.mag, nd.fb);
                ArrayNode* r = nullptr;
                auto build = [&](auto* tag) {
                    using T = std::remove_pointer_t<decltype(tag)>;
                    r = nd.init ? mk<T>(a.a, *nd.init) : mk<T>(a.a);
                };
                if (kind == kAll) build((AllNode*)nullptr);
                if (kind == kAny) build((AnyNode*)nullptr);
                if (kind == kMax) build((MaxNode*)nullptr);
                if (kind == kMin) build((MinNode*)nullptr);
                if (kind == kProd) build((ProdNode*)nullptr);
                if (kind == kSum) build((SumNode*)nullptr);
                return r ? add(nd, r) : -1;
            }
            case kAbs: case kLogical: case kNeg: case kNot: case kSquare: case kSqrt: {
                int i = pick([&](const ND& a) { return kind != kSqrt || (a.a->min() >= 0 && !a.inexact()); });
                if (i < 0) return -1;
                const ND& a = pool[i];
                nd.preds = {i};
                nd.mag = a.mag;
                nd.fb = a.fb;
                nd.minabs = kind == kAbs || kind == kNeg ? a.minabs : 0;
                nd.minsz = a.minsz;
                nd.maxsz = a.maxsz;
                nd.fuzzy = a.fuzzy;
                if (kind == kLogical || kind == kNot) {
                    nd.mag = 1;
                    nd.fb = 0;
                    nd.fuzzy |= a.inexact();
                }
                if (kind == kSquare) {
                    nd.mag = a.mag * a.mag;
                    nd.fb = std::min(2 * a.fb, INEXACT);
                }
                if (kind == kSqrt) {
                    nd.fb = INEXACT;
                    nd.mag = std::max(1.0, a.mag);
                }
                if (!fits(nd.mag, nd.fb)) return -1;
                nd.fb = exactness(nd.mag, nd.fb);
                ArrayNode *p = a.a, *r = nullptr;
                switch (kind) {
                    case kAbs: r = mk<AbsoluteNode>(p); break;
                    case kLogical: r = mk<LogicalNode>(p); break;
                    case kNeg: r = mk<NegativeNode>(p); break;
                    case kNot: r = mk<NotNode>(p); break;
                    case kSquare: r = mk<SquareNode>(p); break;
                    case kSqrt: r = mk<SquareRootNode>(p); break;
                }
                return r ? add(nd, r) : -1;
            }
            case kWhere: {
                int x = pick(any);
                if (x < 0) return -1;
                int y = pick([&](const ND& b) { return b.shape == pool[x].shape; });
                int c = pick([&](const ND& b) {
                    if (b.dyn) return false;
                    return prod(b.shape) == 1 || (b.shape == pool[x].shape && !pool[x].dyn);
                });
                if (c < 0 || y < 0) return -1;
                nd.preds = {c, x, y};
                nd.mag = std::max(pool[x].mag, pool[y].mag);
                nd.minabs = std::min(pool[x].minabs, pool[y].minabs);
                nd.fb = std::max(pool[x].fb, pool[y].fb);
                nd.fuzzy = pool[x].fuzzy || pool[y].fuzzy || pool[c].fuzzy || pool[c].inexact();
                nd.minsz = std::min(pool[x].minsz, pool[y].minsz);
                nd.maxsz = std::max(pool[x].maxsz, pool[y].maxsz);
                auto* r = mk<WhereNode>(pool[c].a, pool[x].a, pool[y].a);
                return r ? add(nd, r) : -1;
            }
            case kConcat: {
                int i = pick([](const ND& a) { return !a.dyn && a.shape.size() >= 1; });
                if (i < 0) return -1;
                nd.axis = s.draw(pool[i].shape.size());
                Shape sh = pool[i].shape;
                sh[nd.axis] = 0;
                nd.preds = {i};
                int m = 1 + s.draw(3);
                for (int t = 0; t < m; ++t) {
                    int j = pick([&](const ND& a) {
                        if (a.dyn || a.shape.size() != sh.size()) return false;
                        Shape q = a.shape;
                        q[nd.axis] = 0;
                        return q == sh;
                    });
                    nd.preds.push_back(j);
                }
                ssize_t tot = 0;
                for (int j : nd.preds) {
                    tot += prod(pool[j].shape);
                    nd.mag = std::max(nd.mag, pool[j].mag);
                    nd.fb = std::max(nd.fb, pool[j].fb);
                    nd.fuzzy |= pool[j].fuzzy;
                }
                if (tot > 80) return -1;
                vector<ArrayNode*> ps;
                for (int j : nd.preds) ps.push_back(pool[j].a);
                auto* r = mk<ConcatenateNode>(ps, static_cast<ssize_t>(nd.axis));
                return r ? add(nd, r) : -1;
            }
            case kReshape: {
                int i = pick([](const ND& a) { return !a.dyn && a.a->contiguous(); });
                if (i < 0) return -1;
                nd.preds = {i};
                ssize_t n = prod(pool[i].shape);
                Shape sh;
                ssize_t left = n;
                int m = s.draw(4);
                for (int t = 0; t + 1 < m && left > 0; ++t) {
                    vector<ssize_t> div;
                    for (ssize_t q = 1; q <= left; ++q)
                        if (left % q == 0) div.push_back(q);
                    ssize_t q = div[s.draw(div.size())];
                    sh.push_back(q);
                    left /= q;
                }
                if (left != 1 || (m > 0 && sh.empty())) sh.push_back(left);
                if (sh.size() >= 2 && s.chance(1, 4)) std::reverse(sh.begin(), sh.end());
                nd.mag = pool[i].mag;
                nd.fb = pool[i].fb;
                nd.fuzzy = pool[i].fuzzy;
                nd.minabs = 0;
                auto* r = mk<ReshapeNode>(pool[i].a, Shape(sh));
                return r ? add(nd, r) : -1;
            }
            case kSize: {
                int i = pick(any);
                if (i < 0) return -1;
                nd.preds = {i};
                nd.mag = pool[i].maxsz;
                auto* r = mk<SizeNode>(pool[i].a);
                return r ? add(nd, r) : -1;
            }
            case kBasic: {
                int i = pick([](const ND& a) { return a.shape.size() >= 1 && a.a->contiguous(); });
                if (i < 0) return -1;
                const ND& a = pool[i];
                nd.preds = {i};
                ssize_t rows = a.dyn ? (rowsize(a) ? a.maxsz / rowsize(a) : 0) : a.shape[0];
                for (size_t d = 0; d < a.shape.size(); ++d) {
                    ssize_t n = d ? a.shape[d] : rows;
                    const bool dynaxis = a.dyn && d == 0;
                    if (!dynaxis && n > 0 && s.chance(1, 3)) {
                        ssize_t q = s.draw(n);
                        if (s.chance(1, 3)) q -= n;
                        nd.bidx.emplace_back(q);
                    } else if (d > 0 && s.chance(1, 2)) {
                        nd.bidx.emplace_back(Slice());
                    } else {
                        nd.bidx.emplace_back(random_slice(n, dynaxis));
                    }
                }
                nd.mag = a.mag;
                nd.minabs = a.minabs;
                nd.fb = a.fb;
                nd.fuzzy = a.fuzzy;
                nd.minsz = 0;
                nd.maxsz = a.maxsz;
                auto* r = mk<BasicIndexingNode>(a.a, nd.bidx);
                return r ? add(nd, r) : -1;
            }
            case kAdv: {
                auto okbase = [](const ND& a) { return a.shape.size() >= 1 && a.a->contiguous() && a.maxsz > 0; };
                int i = pick(okbase);
                if (i < 0) return -1;
                if (s.chance(1, 3)) {  // make a base that fits what is there
                    Shape sh;
                    int m = 1 + s.draw(3);
                    for (int t = 0; t < m; ++t) sh.push_back(N);
                    if (prod(sh) <= 64) i = constant(sh);
                }
                const Shape ashape = pool[i].shape;
                ArrayNode* base = pool[i].a;
                nd.preds = {i};
                int narr = 0;
                const Array* ref = nullptr;
                for (size_t d = 0; d < ashape.size(); ++d) {
                    bool want = s.chance(2, 3) || (d + 1 == ashape.size() && !narr);
                    int j = -1;
                    if (want) {
                        ssize_t lim = ashape[d];
                        if (lim < 0) lim = pool[i].minsz / std::max<ssize_t>(1, rowsize(pool[i]));
                        j = pick([&](const ND& b) {
                            if (b.shape.size() > 1 || !b.a->integral() || b.a->min() < 0 || b.a->max() >= lim) return false;
                            if (b.shape.size() == 1 && !b.dyn && b.shape[0] == 0) return false;
                            if (!b.a->contiguous() && s.chance(1, 2)) return false;
                            if (ref) return ref->ndim() == b.a->ndim() && array_shape_equal(ref, b.a);
                            return true;
                        });
                        if (j < 0 && lim > 0 && !(ref && ref->dynamic())) {
                            Shape sh;
                            if (ref) sh.assign(ref->shape().begin(), ref->shape().end());
                            else if (s.chance(3, 4)) sh = {static_cast<ssize_t>(1 + s.draw(4))};
                            j = constant(sh, lim - 1);
                        }
                    }
                    if (j >= 0) {
                        nd.preds.push_back(j);
                        nd.aidx.push_back(nd.preds.size() - 1);
                        ref = pool[j].a;
                        ++narr;
                    } else {
                        nd.aidx.push_back(-1);
                    }
                }
                if (!narr) return -1;
                const ND& a = pool[i];
                nd.mag = a.mag;
                nd.minabs = a.minabs;
                nd.fb = a.fb;
                nd.fuzzy = a.fuzzy;
                ssize_t isz = 0, rest = 1;
                for (size_t d = 0; d < nd.aidx.size(); ++d) {
                    if (nd.aidx[d] < 0) rest *= ashape[d] < 0 ? a.maxsz / std::max<ssize_t>(1, rowsize(a)) : ashape[d];
                    else {
                        const ND& b = pool[nd.preds[nd.aidx[d]]];
                        isz = std::max(isz, b.maxsz);
                        nd.fuzzy |= b.fuzzy || b.inexact();
                    }
                }
                nd.minsz = 0;
                nd.maxsz = isz * rest;
                if (nd.maxsz > 100) return -1;
                vector<AdvancedIndexingNode::array_or_slice> ix;
                for (int q : nd.aidx) {
                    if (q < 0) ix.emplace_back(Slice());
                    else ix.emplace_back(pool[nd.preds[q]].a);
                }
                auto* r = mk<AdvancedIndexingNode>(base, ix);
                return r ? add(nd, r) : -1;
            }
            case kPerm: {
                int o = pick([&](const ND& b) {
                    return !b.dyn && b.shape.size() == 1 && b.shape[0] > 0 && b.shape[0] <= 5 && b.a->integral() &&
                           b.a->min() >= 0 && b.a->max() < b.shape[0];
                });
                if (o < 0) return -1;
                Shape sh;
                int m = s.chance(2, 3) ? 2 : 1 + s.draw(3);
                for (int t = 0; t < m; ++t) sh.push_back(pool[o].shape[0]);
                int c = constant(sh);
                nd.preds = {c, o};
                nd.mag = pool[c].mag;
                nd.fb = pool[c].fb;
                nd.fuzzy = pool[o].fuzzy || pool[o].inexact();
                auto* r = mk<PermutationNode>(pool[c].a, pool[o].a);
                return r ? add(nd, r) : -1;
            }
            case kQM: {
                int x = pick([](const ND& b) { return !b.dyn && b.shape.size() == 1; });
                if (x < 0) return -1;
                return add_qm(x);
            }
        }
        return -1;
    }

    int add_qm(int x) {
        ND nd{kQM};
        nd.preds = {x};
        const ND& a = pool[x];
        int n = a.shape[0];
        QuadraticModel q(n);
        nd.qm.lin.assign(n, 0);
        double m = 0;
        int fb = 0;
        auto bias = [&]() {
            double b = constval();
            if (b != std::floor(b)) fb = 2;
            return b;
        };
        // The interface is add_*/set_*; both are modelled.
        for (int i = 0; i < n; ++i) {
            if (s.chance(1, 2)) continue;
            double b = bias();
            if (s.chance(1, 2)) {
                q.set_linear(i, b);
                nd.qm.lin[i] = b;
            } else {
                q.add_linear(i, b);
                nd.qm.lin[i] += b;
            }
            m += std::fabs(b) * a.mag;
        }
        int t = n ? s.draw(2 * n + 2) : 0;
        for (int r = 0; r < t; ++r) {
            int u = s.draw(n), v = s.draw(n);
            double b = bias();
            auto key = std::make_pair(std::max(u, v), std::min(u, v));
            if (s.chance(1, 3)) {
                q.set_quadratic(u, v, b);
                nd.qm.quad[key] = b;
            } else {
                q.add_quadratic(u, v, b);
                nd.qm.quad[key] += b;
            }
            m += std::fabs(b) * a.mag * a.mag;
        }
        nd.mag = m;
        nd.fb = std::min(fb + 2 * a.fb, INEXACT);
        nd.fuzzy = a.fuzzy;
        if (!fits(nd.mag, nd.fb)) return -1;
        nd.fb = exactness(nd.mag, nd.fb);
        auto* r = mk<QuadraticModelNode>(a.a, std::move(q));
        return r ? add(nd, r) : -1;
    }

    void build(int max_ops) {
        big = s.chance(1, 16);
        N = big ? 10 + s.draw(25) : 2 + s.draw(4);
        int nd = 1 + s.draw(3);
        for (int i = 0; i < nd; ++i) decision();
        int nc = s.draw(3);
        for (int i = 0; i < nc; ++i) constant();
        int ops = 1 + s.draw(max_ops);
        for (int i = 0; i < ops; ++i) {
            for (int t = 0; t < 4; ++t)
                if (op() >= 0) break;
        }
        g.topological_sort();
    }

    // -------------------------------------------------------- decision contents
    // Visible contents of every decision: list of lists (one list unless disjoint).
    using Contents = vector<vector<double>>;
    Contents contents(const ND& d, const State& st) const {
        Contents c;
        if (d.k == kDBS || d.k == kDLS) {
            for (int v : d.views) c.push_back(read_array(pool[v].a, st).v);
        } else {
            c.push_back(read_array(d.a, st).v);
        }
        return c;
    }
    void explicit_init(const ND& d, State& st, const Contents& c) const {
        switch (d.k) {
            case kBinary: static_cast<const BinaryNode*>(d.a)->initialize_state(st, vector<double>(c[0])); break;
            case kInteger: static_cast<const IntegerNode*>(d.a)->initialize_state(st, vector<double>(c[0])); break;
            case kList: static_cast<const ListNode*>(d.a)->initialize_state(st, vector<double>(c[0])); break;
            case kSet: static_cast<const SetNode*>(d.a)->initialize_state(st, vector<double>(c[0])); break;
            case kDBS: dynamic_cast<const DisjointBitSetsNode*>(d.node)->initialize_state(st, c); break;
            case kDLS: dynamic_cast<const DisjointListsNode*>(d.node)->initialize_state(st, c); break;
            case kDyn:
                dynamic_cast<const DynamicArrayTestingNode*>(d.node)->initialize_state(st, std::span<const double>(c[0]));
                break;
        }
    }
    double dynval(const ND& d) {
        if (d.n == 0) return s.range(0, std::max(N - 1, 0));
        if (d.n == 1) return s.range(-4, 6);
        return s.range(-16, 24) * 0.25;
    }
    double intval(const ND& d) {
        switch (s.draw(4)) {
            case 0: return d.lo;
            case 1: return d.hi;
            default: return d.lo + static_cast<ssize_t>(s.draw(static_cast<uint32_t>(std::min<ssize_t>(d.hi - d.lo + 1, 2000000000))));
        }
    }
    vector<double> permutation(int n) {
        vector<double> p(n);
        std::iota(p.begin(), p.end(), 0);
        for (int i = n - 1; i > 0; --i) std::swap(p[i], p[i - static_cast<int>(s.draw(i + 1))]);
        return p;
    }
    Contents random_contents(const ND& d) {
        Contents c(1);
        switch (d.k) {
            case kBinary: case kInteger:
                for (ssize_t i = 0; i < prod(d.shape); ++i) c[0].push_back(intval(d));
                break;
            case kList: case kSet: {
                c[0] = permutation(d.n);
                c[0].resize(s.range(d.lo, d.hi));
                break;
            }
            case kDBS: {
                c.assign(d.parts, vector<double>(d.n, 0));
                for (int i = 0; i < d.n; ++i) c[s.draw(d.parts)][i] = 1;
                break;
            }
            case kDLS: {
                c.assign(d.parts, {});
                for (double x : permutation(d.n)) c[s.draw(d.parts)].push_back(x);
                break;
            }
            case kDyn: {
                int rows = s.range(d.lo, d.hi);
                for (int i = 0; i < rows * d.parts; ++i) c[0].push_back(dynval(d));
                break;
            }
        }
        return c;
    }
    State new_state() {
        State st = g.empty_state();
        for (int i : decisions) {
            const ND& d = pool[i];
            int how = s.draw(3);
            // The default state of the testing node is empty even when its minimum is not
            if (how == 0 && !(d.k == kDyn && d.lo > 0)) continue;
            if (how == 1 && (d.k == kBinary || d.k == kInteger)) {
                uint32_t seed = s.draw(1000);
                RngAdaptor rng{std::mt19937(seed)};
                static_cast<const IntegerNode*>(d.a)->initialize_state(st, rng);
                say("init n%d random(%u)", i, seed);
                continue;
            }
            Contents c = random_contents(d);
            explicit_init(d, st, c);
            if (info.verbose) {
                string t;
                for (auto& l : c) t += " " + str(Val{{static_cast<ssize_t>(l.size())}, l});
                say("init n%d%s", i, t.c_str());
            }
        }
        g.initialize_state(st);
        return st;
    }

    // -------------------------------------------------------- moves
    // Draw a move that is valid in the current state; op < 0 if there is none.
    Move draw_move(int di, State& st) {
        const ND& d = pool[di];
        Move m{di, -1};
        Contents c = contents(d, st);
        ssize_t sz = c[0].size();
        switch (d.k) {
            case kBinary:
                if (!sz) return m;
                m.op = s.draw(5);
                m.a = s.draw(sz);
                m.b = s.draw(sz);
                m.c = s.draw(1000000);
                break;
            case kInteger:
                if (!sz) return m;
                m.op = s.draw(4);
                if (m.op == 3) m.op = 0;
                m.a = s.draw(sz);
                m.b = s.draw(sz);
                m.x = intval(d);
                m.c = s.draw(1000000);
                break;
            case kList: case kSet: {
                int op = s.draw(6);
                const bool dynamic = d.lo != d.hi;
                if (op == 2 && !(dynamic && sz < d.hi)) op = 3;
                if (op == 3 && !(dynamic && sz > d.lo)) op = dynamic && sz < d.hi ? 2 : 0;
                if (op == 5) {
                    // default_move: the generator does not ask for it on a collection with nothing to move
                    if (d.k == kList && sz < 1) return m;
                    if (d.k == kSet && d.n < 1) return m;
                    m.op = 5;
                    m.c = s.draw(1000000);
                    return m;
                }
                if (op == 4) op = 0;
                if (op == 1 && sz < 2) op = 0;
                if (op == 0) {
                    // Sets (and explicitly initialised lists) hold their non-members too
                    ssize_t lim = d.k == kSet ? d.n : sz;
                    if (lim < 1) return m;
                    m.a = s.draw(lim);
                    m.b = s.draw(lim);
                } else if (op == 1) {
                    m.a = s.draw(sz);
                    m.b = s.draw(sz);
                }
                m.op = op;
                break;
            }
            case kDBS:
                if (d.n < 1) return m;
                m.op = s.draw(3) == 2 ? 5 : 0;
                m.a = s.draw(d.parts);
                m.b = s.draw(d.parts);
                m.c = s.draw(d.n);
                if (m.op == 5) m.c = s.draw(1000000);
                else if (s.chance(2, 3)) {  // usually move the element out of the set that has it
                    for (ssize_t i = 0; i < d.parts; ++i)
                        if (c[i][m.c]) m.a = i;
                }
                break;
            case kDLS: {
                m.op = s.draw(7);
                m.a = s.draw(d.parts);
                m.b = s.draw(d.parts);
                if (m.op == 6) {
                    if (s.draw(2)) {
                        m.parts = random_contents(d);
                    } else {  // cut the end off one list and put it at the end of another
                        m.parts = c;
                        if (m.a != m.b && c[m.a].size()) {
                            const ssize_t keep = s.draw(c[m.a].size());
                            m.parts[m.b].insert(m.parts[m.b].end(), c[m.a].begin() + keep, c[m.a].end());
                            m.parts[m.a].resize(keep);
                        }
                    }
                    return m;
                }
                if (m.op == 5) {
                    if (d.n < 1) return Move{di, -1};
                    m.c = s.draw(1000000);
                    return m;
                }
                ssize_t sa = c[m.a].size();
                if (m.op <= 2) {  // pop_to_list is the interesting one
                    if (m.a == m.b || !sa) {
                        for (ssize_t i = 0; i < d.parts; ++i)
                            if (c[i].size() && i != m.b) m.a = i;
                        sa = c[m.a].size();
                    }
                    if (m.a != m.b && sa) {
                        m.op = 0;
                        m.c = s.draw(sa);
                        m.e = s.draw(c[m.b].size() + 1);
                        return m;
                    }
                    m.op = 3;
                }
                if (!sa) return Move{di, -1};
                m.c = s.draw(sa);
                m.e = s.draw(sa);
                break;
            }
            case kDyn: {
                ssize_t rows = sz / d.parts;
                m.op = s.draw(3);
                if (m.op == 0 && rows >= d.hi) m.op = 1;
                if (m.op == 1 && rows <= d.lo) m.op = rows < d.hi ? 0 : 2;
                if (m.op == 2 && !sz) m.op = rows < d.hi ? 0 : -1;
                if (m.op == 0) {
                    const ssize_t n = 1 + (rows + 2 <= d.hi ? s.draw(2) : 0);
                    for (int i = 0; i < n * d.parts; ++i) m.vals.push_back(dynval(d));
                }
                if (m.op == 2) {
                    m.a = s.draw(sz);
                    m.x = dynval(d);
                }
                break;
            }
        }
        return m;
    }
    string describe(const Move& m) const {
        static const char* nb[] = {"flip", "set", "unset", "exchange", "default_move"};
        static const char* ni[] = {"set_value", "exchange", "default_move"};
        static const char* nl[] = {"exchange", "rotate", "grow", "shrink", "?", "default_move"};
        static const char* nbs[] = {"swap_between_sets", "", "", "", "", "default_move"};
        static const char* nls[] = {"pop_to_list", "", "", "swap_in_list", "rotate_in_list", "default_move", "set_state"};
        static const char* ndy[] = {"grow", "shrink", "set"};
        const ND& d = pool[m.d];
        const char* n = "?";
        if (d.k == kBinary) n = nb[m.op];
        if (d.k == kInteger) n = ni[m.op];
        if (d.k == kList || d.k == kSet) n = nl[m.op];
        if (d.k == kDBS) n = nbs[m.op];
        if (d.k == kDLS) n = nls[m.op];
        if (d.k == kDyn) n = ndy[m.op];
        if (m.parts.size()) {
            string t = "n" + std::to_string(m.d) + "." + n + "(";
            for (auto& l : m.parts) t += " " + str(Val{{static_cast<ssize_t>(l.size())}, l});
            return t + ")";
        }
        char b[300];
        snprintf(b, sizeof b, "n%d.%s(a=%zd b=%zd c=%zd e=%zd x=%g nvals=%zu)", m.d, n, m.a, m.b, m.c, m.e, m.x, m.vals.size());
        return b;
    }
    void apply(const Move& m, State& st) const {
        const ND& d = pool[m.d];
        switch (d.k) {
            case kBinary: {
                auto* p = static_cast<const BinaryNode*>(d.a);
                if (m.op == 0) p->flip(st, m.a);
                if (m.op == 1) p->set(st, m.a);
                if (m.op == 2) p->unset(st, m.a);
                if (m.op == 3) p->exchange(st, m.a, m.b);
                if (m.op == 4) dflt(d, m, st);
                break;
            }
            case kInteger: {
                auto* p = static_cast<const IntegerNode*>(d.a);
                if (m.op == 0) p->set_value(st, m.a, static_cast<int>(m.x));
                if (m.op == 1) p->exchange(st, m.a, m.b);
                if (m.op == 2) dflt(d, m, st);
                break;
            }
            case kList: case kSet: {
                auto* p = static_cast<const CollectionNode*>(d.a);
                if (m.op == 0) p->exchange(st, m.a, m.b);
                if (m.op == 1) p->rotate(st, m.a, m.b);
                if (m.op == 2) p->grow(st);
                if (m.op == 3) p->shrink(st);
                if (m.op == 5) dflt(d, m, st);
                break;
            }
            case kDBS: {
                auto* p = dynamic_cast<const DisjointBitSetsNode*>(d.node);
                if (m.op == 0) p->swap_between_sets(st, m.a, m.b, m.c);
                if (m.op == 5) dflt(d, m, st);
                break;
            }
            case kDLS: {
                auto* p = dynamic_cast<const DisjointListsNode*>(d.node);
                if (m.op == 0) p->pop_to_list(st, m.a, m.c, m.b, m.e);
                if (m.op == 3) p->swap_in_list(st, m.a, m.c, m.e);
                if (m.op == 4) p->rotate_in_list(st, m.a, m.c, m.e);
                if (m.op == 6)
                    for (size_t i = 0; i < m.parts.size(); ++i) p->set_state(st, i, m.parts[i]);
                if (m.op == 5) dflt(d, m, st);
                break;
            }
            case kDyn: {
                auto* p = dynamic_cast<const DynamicArrayTestingNode*>(d.node);
                if (m.op == 0) p->grow(st, std::span<const double>(m.vals));
                if (m.op == 1) p->shrink(st);
                if (m.op == 2) p->set(st, m.a, m.x);
                break;
            }
        }
    }
    void dflt(const ND& d, const Move& m, State& st) const {
        RngAdaptor rng{std::mt19937(static_cast<uint32_t>(m.c))};
        dynamic_cast<const Decision*>(d.node)->default_move(st, rng);
    }
    // Does this move leave the contents free (default_move), or is there a model for it?
    bool modelled(const Move& m) const {
        const ND& d = pool[m.d];
        if (d.k == kBinary) return m.op != 4;
        if (d.k == kInteger) return m.op != 2;
        if (d.k == kList || d.k == kSet || d.k == kDBS || d.k == kDLS) return m.op != 5;
        return true;
    }
};
