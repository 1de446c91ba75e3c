// C07: iterators, views, slices, broadcasting, index conversion, diff merging.
#pragma once
#include "graphgen.hpp"

namespace c07 {

using i128 = __int128;

inline void bad(const string& tag, const string& msg) { throw Violation{tag, msg}; }

// ---- iterators --------------------------------------------------------------------------------
// Positions of a strided array, in row-major order, as offsets (in elements) from the first one.
inline void layout(const vector<ssize_t>& shape, const vector<ssize_t>& strides, vector<ssize_t>& out) {
    ssize_t n = 1;
    for (auto d : shape) n *= d;
    for (ssize_t k = 0; k < n; ++k) {
        ssize_t r = k, off = 0;
        for (ssize_t d = static_cast<ssize_t>(shape.size()) - 1; d >= 0; --d) {
            off += (r % shape[d]) * strides[d];
            r /= shape[d];
        }
        out.push_back(off);
    }
    // one past the last element is one further step along the first axis
    out.push_back(shape.empty() ? 1 : shape[0] * strides[0]);
}

template <class It>
void iterate_history(Src& s, CaseInfo& info, It first, const vector<const double*>& where,
                     const vector<double>& value, const char* kind) {
    const ssize_t n = value.size();
    vector<It> its;
    vector<ssize_t> pos;
    its.push_back(first);
    pos.push_back(0);
    std::ostringstream log;
    auto check = [&](const char* op) {
        ++info.checks;
        for (size_t i = 0; i < its.size(); ++i) {
            if (its[i].get() != where[pos[i]])
                bad(string("iterator-position:") + kind, string("after ") + op + " iterator " + std::to_string(i) +
                    " should be at element " + std::to_string(pos[i]) + " but points " +
                    std::to_string(its[i].get() - where[0]) + " from the first, expected " + std::to_string(where[pos[i]] - where[0]) + "; " + log.str());
            if (pos[i] < n && !(*its[i] == value[pos[i]]))
                bad(string("iterator-value:") + kind, string("after ") + op + " iterator at element " + std::to_string(pos[i]) +
                    " reads " + str(*its[i]) + " instead of " + str(value[pos[i]]));
            if (pos[i] < n && its[i].operator->() && !(*its[i].operator->() == value[pos[i]]))
                bad(string("iterator-arrow:") + kind, "operator-> reads another value");
        }
    };
    check("construction");
    int ops = 3 + s.draw(30);
    for (int t = 0; t < ops; ++t) {
        size_t i = s.draw(its.size());
        ssize_t target = s.draw(static_cast<uint32_t>(n + 1));
        ssize_t k = target - pos[i];
        int op = s.draw(13);
        log << op << "(" << i << "," << k << ") ";
        ++info.steps;
        switch (op) {
            case 0: if (pos[i] < n) { ++its[i]; pos[i]++; } break;
            case 1: if (pos[i] > 0) { --its[i]; pos[i]--; } break;
            case 2: if (pos[i] < n) { It o = its[i]++; if (o.get() != where[pos[i]]) bad("iterator-postinc", log.str()); pos[i]++; } break;
            case 3: if (pos[i] > 0) { It o = its[i]--; if (o.get() != where[pos[i]]) bad("iterator-postdec", log.str()); pos[i]--; } break;
            case 4: its[i] += k; pos[i] = target; break;
            case 5: its[i] -= -k; pos[i] = target; break;
            case 6: { It o = its[i] + k; if (o.get() != where[target]) bad(string("iterator-plus:") + kind, log.str()); its.push_back(o); pos.push_back(target); break; }
            case 7: { It o = its[i] - (-k); if (o.get() != where[target]) bad(string("iterator-minus:") + kind, log.str()); its.push_back(std::move(o)); pos.push_back(target); break; }
            case 8: { It o = k + its[i]; if (o.get() != where[target]) bad(string("iterator-rplus:") + kind, log.str()); break; }
            case 9: if (target < n && !(its[i][k] == value[target])) bad(string("iterator-index:") + kind, "it[" + std::to_string(k) + "] from element " + std::to_string(pos[i]) + " reads " + str(its[i][k])); break;
            case 10: { size_t j = s.draw(its.size()); its[i] = its[j]; pos[i] = pos[j]; break; }
            default: {
                size_t j = s.draw(its.size());
                ssize_t want = pos[i] - pos[j];
                ssize_t got = its[i] - its[j];
                info.checks += 7;
                if (got != want) bad(string("iterator-distance:") + kind, "distance between elements " + std::to_string(pos[j]) + " and " + std::to_string(pos[i]) + " is " + std::to_string(got) + "; " + log.str());
                if ((its[i] == its[j]) != (want == 0) || (its[i] != its[j]) != (want != 0)) bad(string("iterator-equal:") + kind, log.str());
                if ((its[i] < its[j]) != (want < 0) || (its[i] > its[j]) != (want > 0) || (its[i] <= its[j]) != (want <= 0) || (its[i] >= its[j]) != (want >= 0))
                    bad(string("iterator-order:") + kind, "comparison of elements " + std::to_string(pos[i]) + " and " + std::to_string(pos[j]));
                break;
            }
        }
        check("an operation");
        if (its.size() > 6) { its.erase(its.begin()); pos.erase(pos.begin()); }
    }
    // whole traversals in both directions
    It it = first, end = first + n;
    ssize_t c = 0;
    for (; it != end && c <= n; ++it, ++c)
        if (c < n && !(*it == value[c])) bad(string("iterator-forward:") + kind, "element " + std::to_string(c));
    if (c != n) bad(string("iterator-forward:") + kind, "visits " + std::to_string(c) + " of " + std::to_string(n) + " elements");
    for (; it != first && c > 0;) {
        --it; --c;
        if (!(*it == value[c])) bad(string("iterator-backward:") + kind, "element " + std::to_string(c));
    }
    if (c != 0 || !(it == first)) bad(string("iterator-backward:") + kind, "does not return to the first element");
    ++info.checks;
}

inline void iterators(Src& s, CaseInfo& info) {
    int form = s.draw(4);
    if (form <= 1) {
        // strided, positive or negative strides, arbitrary gaps, nested axes as slicing produces them
        int nd = 1 + s.draw(4);
        vector<ssize_t> shape(nd), strides(nd), bytes(nd);
        ssize_t ext = 1;
        for (int d = nd - 1; d >= 0; --d) {
            shape[d] = 1 + s.draw(4);
            ssize_t st = ext + s.draw(4);
            strides[d] = s.chance(1, 4) ? -st : st;
            bytes[d] = strides[d] * static_cast<ssize_t>(sizeof(double));
            ext = st * shape[d];
        }
        vector<ssize_t> off;
        layout(shape, strides, off);
        ssize_t lo = *std::min_element(off.begin(), off.end()), hi = *std::max_element(off.begin(), off.end());
        vector<double> buf(hi - lo + 1);
        for (size_t i = 0; i < buf.size(); ++i) buf[i] = 1000 + static_cast<double>(i);
        double* base = buf.data() - lo;
        vector<const double*> where;
        vector<double> value;
        for (size_t k = 0; k < off.size(); ++k) {
            where.push_back(base + off[k]);
            if (k + 1 < off.size()) value.push_back(base[off[k]]);
        }
        const bool dyn = s.chance(1, 3);
        vector<ssize_t> sh = shape;
        if (dyn) sh[0] = -1;  // dynamic arrays are iterated with a negative first dimension
        if (info.verbose) {
            std::ostringstream os;
            os << "strided shape " << str(sh) << " strides " << str(strides) << (form ? " mutable" : " const") << "\n";
            info.text += os.str();
        }
        if (form == 0)
            iterate_history(s, info, Array::const_iterator(base, std::span<const ssize_t>(sh), std::span<const ssize_t>(bytes)), where, value, "strided");
        else {
            Array::iterator it(base, nd, sh.data(), bytes.data());
            iterate_history(s, info, it, where, value, "strided-mutable");
            // writing through the iterator touches exactly the elements
            vector<double> before = buf;
            ssize_t n = value.size();
            Array::iterator w = it;
            for (ssize_t k = 0; k < n; ++k, ++w) *w = -static_cast<double>(k) - 1;
            for (ssize_t k = 0; k < n; ++k) {
                if (*where[k] != -static_cast<double>(k) - 1) bad("iterator-write", "element " + std::to_string(k) + " was not written");
                before[where[k] - buf.data()] = -static_cast<double>(k) - 1;
            }
            if (before != buf) bad("iterator-write", "something else was written");
        }
        info.nontrivial = value.size() > 1 && nd > 1;
    } else if (form == 2) {
        int n = s.draw(9);
        vector<double> data(n + 1), mask(n + 1), value;
        double fill = 7777;
        bool any = false;
        vector<const double*> where;
        for (int i = 0; i <= n; ++i) {
            data[i] = 100 + i;
            mask[i] = s.chance(1, 2) ? (s.chance(1, 3) ? 2.5 : 1) : 0;
            where.push_back(&data[i]);
            if (i < n) value.push_back(mask[i] ? fill : data[i]);
            any |= mask[i] != 0;
        }
        if (info.verbose) info.text += "masked, " + std::to_string(n) + " elements\n";
        iterate_history(s, info, Array::const_iterator(data.data(), mask.data(), &fill), where, value, "masked");
        iterate_history(s, info, Array::iterator(data.data(), mask.data(), &fill), where, value, "masked-mutable");
        info.nontrivial = any && n > 1;
    } else {
        int n = s.draw(9);
        vector<double> data(n + 1);
        vector<const double*> where;
        for (int i = 0; i <= n; ++i) {
            data[i] = 100 + i;
            where.push_back(&data[i]);
        }
        if (info.verbose) info.text += "contiguous, " + std::to_string(n) + " elements\n";
        iterate_history(s, info, Array::const_iterator(data.data()), where, vector<double>(data.begin(), data.begin() + n), "contiguous");
        info.nontrivial = n > 1;
    }
}

// ---- views of arrays ----------------------------------------------------------------------------
inline std::optional<ssize_t> bound(Src& s, int n) {
    if (s.chance(1, 4)) return std::nullopt;
    return s.range(-n - 2, n + 2);
}
inline vector<ssize_t> py_range(std::optional<ssize_t> a, std::optional<ssize_t> b, ssize_t step, ssize_t n) {
    // Python's definition by enumeration: the positions visited when walking from start towards stop
    vector<ssize_t> r;
    auto idx = [&](ssize_t v) { return v < 0 ? v + n : v; };
    if (step > 0) {
        ssize_t i = a ? std::max<ssize_t>(0, idx(*a)) : 0, e = b ? std::min(n, idx(*b)) : n;
        for (; i < e; i += step) r.push_back(i);
    } else {
        ssize_t i = a ? std::min<ssize_t>(n - 1, idx(*a)) : n - 1, e = b ? std::max<ssize_t>(-1, idx(*b)) : -1;
        for (; i > e; i += step) r.push_back(i);
    }
    return r;
}

inline void views(Src& s, CaseInfo& info) {
    Graph g;
    const bool dyn = s.chance(1, 3);
    int nd = dyn ? 1 : 1 + s.draw(3);
    vector<ssize_t> shape;
    ArrayNode* a;
    vector<double> data;
    State st;
    if (dyn) {
        int mx = 1 + s.draw(7), k = s.draw(mx + 1);
        shape = {k};
        SetNode* p = g.emplace_node<SetNode>(mx, 0, mx);
        a = p;
        for (int i = 0; i < k; ++i) data.push_back(i);
        for (int i = k - 1; i > 0; --i) std::swap(data[i], data[s.draw(i + 1)]);
    } else {
        ssize_t n = 1;
        for (int d = 0; d < nd; ++d) {
            shape.push_back(s.draw(5));
            n *= shape.back();
        }
        for (ssize_t i = 0; i < n; ++i) data.push_back(100 + i);
        a = g.emplace_node<ConstantNode>(data.data(), std::span<const ssize_t>(shape));
    }
    vector<BasicIndexingNode::slice_or_int> ix;
    vector<vector<ssize_t>> sel;
    std::ostringstream os;
    os << "view of " << (dyn ? "dynamic " : "") << str(shape);
    vector<ssize_t> vshape;
    for (int d = 0; d < nd; ++d) {
        if (!dyn && shape[d] > 0 && s.chance(1, 4)) {
            ssize_t i = s.range(-static_cast<int>(shape[d]), static_cast<int>(shape[d]) - 1);
            ix.push_back(i);
            sel.push_back({i < 0 ? i + shape[d] : i});
            os << " " << i;
        } else {
            auto b = bound(s, shape[d]), e = bound(s, shape[d]);
            ssize_t step = dyn ? 1 : 1 + s.draw(3);
            Slice sl(b, e, step);
            ix.push_back(sl);
            sel.push_back(py_range(b, e, step, shape[d]));
            vshape.push_back(sel.back().size());
            os << " " << sl;
        }
    }
    os << "\n";
    if (info.verbose) info.text += os.str();
    BasicIndexingNode* v;
    try {
        v = g.emplace_node<BasicIndexingNode>(a, ix);
    } catch (std::exception& e) {
        if (dyn) { ++info.refused; return; }  // forms that are not supported for dynamic arrays
        bad("view-refused", os.str() + e.what());
        return;
    }
    g.topological_sort();
    st = g.empty_state();
    if (dyn) dynamic_cast<SetNode*>(a)->initialize_state(st, data);
    g.initialize_state(st);
    vector<double> want;
    vector<size_t> c(nd, 0);
    bool empty = false;
    for (auto& x : sel) empty |= x.empty();
    while (!empty) {
        ssize_t off = 0;
        for (int d = 0; d < nd; ++d) off = off * shape[d] + sel[d][c[d]];
        want.push_back(data[off]);
        int d = nd - 1;
        for (; d >= 0; --d) {
            if (++c[d] < sel[d].size()) break;
            c[d] = 0;
        }
        if (d < 0) break;
    }
    auto vs = v->shape(st);
    if (vector<ssize_t>(vs.begin(), vs.end()) != vshape) bad("view-shape", os.str() + "has shape " + str(vector<ssize_t>(vs.begin(), vs.end())) + ", expected " + str(vshape));
    if (v->size(st) != static_cast<ssize_t>(want.size())) bad("view-size", os.str());
    auto view = v->view(st);
    vector<double> got;
    {
        ssize_t left = want.size() + 1;
        for (auto it = view.begin(); it != view.end() && left-- > 0; ++it) got.push_back(*it);
    }
    if (got != want) bad("view-iterate", os.str() + "visits " + str(Val{{static_cast<ssize_t>(got.size())}, got}) + ", expected " + str(Val{{static_cast<ssize_t>(want.size())}, want}));
    if (view.end() - view.begin() != static_cast<ssize_t>(want.size()) || view.size() != static_cast<ssize_t>(want.size())) bad("view-distance", os.str());
    for (size_t i = 0; i < want.size(); ++i)
        if (view[i] != want[i]) bad("view-index", os.str() + std::to_string(i));
    got.assign(want.size(), 0);
    {
        auto it = view.end();
        for (size_t i = want.size(); i-- > 0;) { --it; got[i] = *it; }
        if (!(it == view.begin())) bad("view-reverse", os.str());
    }
    if (got != want) bad("view-reverse", os.str());
    if (want.size()) {
        if (view.front() != want[0]) bad("view-front", os.str());
        auto mx = std::max_element(view.begin(), view.end());
        if (*mx != *std::max_element(want.begin(), want.end())) bad("view-algorithm", os.str());
        vector<double> copy(view.begin(), view.end());
        if (copy != want) bad("view-algorithm", os.str());
        double x = want[s.draw(want.size())];
        auto f = std::find(view.begin(), view.end(), x);
        if (f - view.begin() != std::find(want.begin(), want.end(), x) - want.begin()) bad("view-algorithm", os.str());
    }
    std::ostringstream p, q;
    p << view;
    q << "View{";
    for (size_t i = 0; i < want.size(); ++i) q << (i ? ", " : "") << want[i];
    q << "}";
    if (p.str() != q.str()) bad("view-print", os.str() + p.str());
    info.checks += 8 + want.size();
    info.nontrivial = want.size() > 1 && !v->contiguous();
}

// ---- slices -------------------------------------------------------------------------------------
inline ssize_t extreme(Src& s, int n) {
    switch (s.draw(6)) {
        case 0: return std::numeric_limits<ssize_t>::max() - s.draw(3);
        case 1: return std::numeric_limits<ssize_t>::lowest() + s.draw(3);
        default: return s.range(-2 * n - 3, 2 * n + 3);
    }
}
inline void slices(Src& s, CaseInfo& info) {
    const ssize_t n = s.chance(1, 20) ? 1000 + s.draw(5) : s.draw(9);
    const int small = std::min<ssize_t>(n, 12);
    std::optional<ssize_t> a, b, c;
    if (s.chance(3, 4)) a = extreme(s, small);
    if (s.chance(3, 4)) b = extreme(s, small);
    if (s.chance(3, 4)) {
        ssize_t st = s.chance(1, 12) ? std::numeric_limits<ssize_t>::max() - s.draw(2) : s.range(1, 5);
        c = s.chance(1, 2) ? -st : st;
    }
    std::ostringstream os;
    auto o = [&](std::optional<ssize_t> v) { return v ? std::to_string(*v) : string("None"); };
    os << "slice(" << o(a) << ", " << o(b) << ", " << o(c) << ") of length " << n;
    if (info.verbose) info.text += os.str() + "\n";
    Slice sl(a, b, c);
    const ssize_t step = c.value_or(1);
    Slice f = s.chance(1, 2) ? sl.fit(n) : sl.fit_at(n);
    // PySlice_AdjustIndices in unbounded integers
    auto adj = [&](std::optional<ssize_t> v, bool is_start) -> i128 {
        if (!v) return step < 0 ? (is_start ? n - 1 : -1) : (is_start ? 0 : n);
        i128 x = *v;
        if (x < 0) {
            x += n;
            if (x < 0) x = step < 0 ? -1 : 0;
        } else if (x >= n) x = step < 0 ? n - 1 : n;
        return x;
    };
    i128 ws = adj(a, true), we = adj(b, false);
    info.checks += 5;
    std::ostringstream got;
    got << os.str() << " gives " << f;
    if (f.start != ws || f.stop != we || f.step != step) bad("slice-fit", got.str());
    auto len = [](i128 x, i128 y, i128 st) -> i128 {
        if (st > 0) return y > x ? (y - x - 1) / st + 1 : 0;
        return x > y ? (x - y - 1) / -st + 1 : 0;
    };
    if (static_cast<i128>(f.size()) != len(ws, we, step)) bad("slice-size", got.str() + " of size " + std::to_string(f.size()));
    // and by enumeration
    {
        vector<ssize_t> visited;
        for (i128 i = f.start; step > 0 ? i < f.stop : i > f.stop; i += step) visited.push_back(static_cast<ssize_t>(i));
        std::optional<ssize_t> ca = a, cb = b;
        auto cl = [&](std::optional<ssize_t>& v) { if (v) v = std::max<ssize_t>(-2 * n - 10, std::min<ssize_t>(2 * n + 10, *v)); };
        cl(ca); cl(cb);
        ssize_t cs = std::max<ssize_t>(-(2 * n + 5), std::min<ssize_t>(2 * n + 5, step));
        if (visited != py_range(ca, cb, cs, n)) bad("slice-members", got.str());
        if (visited.size() != f.size()) bad("slice-size", got.str());
        info.nontrivial = visited.size() > 1;
    }
    // unfitted: the length of range(start, stop, step)
    i128 us = sl.start, ue = sl.stop;
    if (static_cast<i128>(sl.size()) != len(us, ue, step)) bad("slice-size", os.str() + " unfitted has size " + std::to_string(sl.size()));
    if (a && sl.start != *a) bad("slice-ctor", os.str());
    if (b && sl.stop != *b) bad("slice-ctor", os.str());
    if (!(sl == Slice(a, b, c)) || sl.empty() != (sl == Slice())) bad("slice-equal", os.str());
    for (int t = 0; t < 2; ++t) {
        bool threw = false;
        try {
            if (t) Slice(a, b, 0);
            else (void)sl.fit_at(-1 - static_cast<ssize_t>(s.draw(4)));
        } catch (std::invalid_argument&) {
            threw = true;
        }
        if (!threw) bad("slice-refuse", os.str());
    }
}

// ---- broadcasting ---------------------------------------------------------------------------------
inline void broadcasting(Src& s, CaseInfo& info) {
    auto shape = [&]() {
        vector<ssize_t> r(s.draw(5));
        for (auto& d : r) d = s.chance(1, 2) ? 1 : s.draw(4);
        return r;
    };
    vector<ssize_t> a = shape(), b = shape();
    if (s.chance(1, 2)) {  // compatible by construction
        for (size_t i = 1; i <= std::min(a.size(), b.size()); ++i)
            if (s.chance(1, 3)) a[a.size() - i] = 1;
            else if (s.chance(1, 2)) b[b.size() - i] = 1;
            else a[a.size() - i] = b[b.size() - i];
    }
    if (info.verbose) info.text += "broadcast " + str(a) + " with " + str(b) + "\n";
    // reference: every axis, counted from the right, is given by the operands that are not 1 there
    bool ok = true;
    vector<ssize_t> want(std::max(a.size(), b.size()));
    for (size_t i = 1; i <= want.size(); ++i) {
        ssize_t x = i <= a.size() ? a[a.size() - i] : 1, y = i <= b.size() ? b[b.size() - i] : 1;
        if (x != 1 && y != 1 && x != y) ok = false;
        want[want.size() - i] = x == 1 ? y : x;
    }
    for (int sw = 0; sw < 2; ++sw) {
        ++info.checks;
        try {
            vector<ssize_t> got = sw ? broadcast_shape(std::span<const ssize_t>(b), std::span<const ssize_t>(a))
                                     : broadcast_shape(std::span<const ssize_t>(a), std::span<const ssize_t>(b));
            if (!ok) bad("broadcast-accepts", str(a) + " with " + str(b) + " gives " + str(got));
            if (got != want) bad("broadcast", str(a) + " with " + str(b) + " gives " + str(got) + ", expected " + str(want));
        } catch (std::invalid_argument&) {
            if (ok) bad("broadcast-refuses", str(a) + " with " + str(b));
        }
    }
    info.nontrivial = ok && a != b && want.size() > 1;
}

// ---- flat and multi-dimensional indices ----------------------------------------------------------
inline void ravel(Src& s, CaseInfo& info) {
    int nd = s.draw(5);
    vector<ssize_t> shape(nd), strides(nd);
    ssize_t n = 1;
    for (int d = nd - 1; d >= 0; --d) {
        shape[d] = 1 + s.draw(4);
        strides[d] = n * sizeof(double);
        n *= shape[d];
    }
    if (info.verbose) info.text += "ravel " + str(shape) + "\n";
    vector<ssize_t> c(nd, 0);
    for (ssize_t k = 0; k < n; ++k) {
        info.checks += 2;
        auto m = unravel_index(std::span<const ssize_t>(strides), k);
        if (m != c) bad("unravel", "index " + std::to_string(k) + " of " + str(shape) + " gives " + str(m));
        ssize_t f = ravel_multi_index(std::span<const ssize_t>(strides), std::span<const ssize_t>(c));
        if (f != k) bad("ravel", "index " + str(c) + " of " + str(shape) + " gives " + std::to_string(f));
        for (int d = nd - 1; d >= 0; --d) {
            if (++c[d] < shape[d]) break;
            c[d] = 0;
        }
    }
    // fractions, as used to relate flat sizes to the length of the first axis
    for (int t = 0; t < 4; ++t) {
        ssize_t p = s.range(-30, 30), q = s.range(1, 30), r = s.range(-30, 30), u = s.range(1, 12);
        if (s.chance(1, 2)) q = -q;
        fraction x(p, q), y = x, z = x;
        y *= r;
        z /= u;
        auto same = [](const fraction& f, i128 a, i128 b) { return static_cast<i128>(f.numerator()) * b == static_cast<i128>(f.denominator()) * a && f.denominator() > 0 && std::gcd(f.numerator(), f.denominator()) == 1; };
        info.checks += 5;
        if (!same(x, p, q)) bad("fraction", "construction");
        if (!same(y, static_cast<i128>(p) * r, q)) bad("fraction", "multiplication");
        if (!same(z, p, static_cast<i128>(q) * u)) bad("fraction", "division");
        if (static_cast<ssize_t>(x) != p / q) bad("fraction", "conversion to integer");
        if ((x == r) != (p == r * q)) bad("fraction", "comparison");
        fraction w = x;
        w *= fraction(r, u);
        if (!same(w, static_cast<i128>(p) * r, static_cast<i128>(q) * u)) bad("fraction", "product of fractions");
    }
    info.nontrivial = nd > 1 && n > 2;
}

// ---- merging repeated updates --------------------------------------------------------------------
inline void dedup(Src& s, CaseInfo& info) {
    int n0 = s.draw(6);
    vector<double> before(n0);
    for (auto& v : before) v = s.draw(4);
    vector<double> cur = before;
    vector<Update> diff;
    int steps = s.draw(4) == 3 ? s.draw(120) : s.draw(16);  // sorting is done differently for long lists
    std::ostringstream os;
    for (int t = 0; t < steps; ++t) {
        int op = s.draw(5);
        if (op <= 2 && cur.size()) {
            size_t i = s.draw(cur.size());
            double v = s.draw(4);
            diff.emplace_back(static_cast<ssize_t>(i), cur[i], v);
            cur[i] = v;
        } else if (op == 3 && cur.size()) {
            diff.push_back(Update::removal(cur.size() - 1, cur.back()));
            cur.pop_back();
        } else if (op == 4) {
            cur.push_back(s.draw(4));
            diff.push_back(Update::placement(cur.size() - 1, cur.back()));
        } else continue;
        os << " " << diff.back();
    }
    if (info.verbose) info.text += "merge" + os.str() + "\n";
    const size_t given = diff.size();
    deduplicate_diff(diff);
    os << "  ->";
    for (auto& u : diff) os << " " << u;
    std::set<ssize_t> seen;
    vector<double> now = before;
    info.checks += 3;
    for (auto& u : diff) {
        if (!seen.insert(u.index).second) bad("dedup-repeated", "index " + std::to_string(u.index) + " appears twice:" + os.str());
        const ssize_t i = u.index, nb = before.size(), nc = cur.size();
        if (u.null() || i < 0 || (i >= nb && i >= nc)) bad("dedup-nothing", os.str());
        if (u.placed() != (i >= nb) || (!u.placed() && u.old != before[i])) bad("dedup-old", os.str());
        if (u.removed() != (i >= nc) || (!u.removed() && u.value != cur[i])) bad("dedup-value", os.str());
    }
    for (ssize_t i = 0; i < static_cast<ssize_t>(std::max(before.size(), cur.size())); ++i) {
        bool b = i < static_cast<ssize_t>(before.size()), c = i < static_cast<ssize_t>(cur.size());
        bool differs = b != c || (b && before[i] != cur[i]);
        if (differs && !seen.count(i)) bad("dedup-missing", "index " + std::to_string(i) + os.str());
    }
    info.nontrivial = given > diff.size() && diff.size() > 0;
}

inline void run(Src& s, CaseInfo& info) {
    switch (s.draw(8)) {
        case 0: case 1: info.feat["iterators"]++; iterators(s, info); break;
        case 2: case 3: info.feat["views"]++; views(s, info); break;
        case 4: info.feat["slices"]++; for (int i = 0; i < 8; ++i) slices(s, info); break;
        case 5: info.feat["broadcast"]++; for (int i = 0; i < 4; ++i) broadcasting(s, info); break;
        case 6: info.feat["ravel"]++; ravel(s, info); break;
        default: info.feat["dedup"]++; dedup(s, info); break;
    }
}
}  // namespace c07
