// States of variables against an ordered map and stacks of bounds.
#include "unit.hh"
#include <clingcon/solver.hh>
#include <memory>

using namespace Clingcon;

static Report rep;

// the function is not used by the library itself
template <class S, class = void> struct Reset {
    static constexpr bool value = false;
    static void call(S &, val_t, val_t) {}
};
template <class S> struct Reset<S, std::void_t<decltype(std::declval<S &>().reset(val_t{}, val_t{}))>> {
    static constexpr bool value = true;
    static void call(S &s, val_t a, val_t b) { s.reset(a, b); }
};

struct Pair {
    val_t lb, ub;
    std::vector<std::pair<level_t, val_t>> ls, us;
    std::map<val_t, lit_t> lits;
    var_t var{0};
    auto min() const -> val_t { return ls.empty() ? lb : ls.front().second; }
    auto max() const -> val_t { return us.empty() ? ub : us.front().second; }
};

static std::string hist;

static auto bad(char const *k, std::string const &w) -> bool {
    rep.viol(std::string("VarState/") + k, "VarState after " + hist + ": " + w);
    return false;
}

using Seq = std::vector<std::pair<val_t, lit_t>>;

struct Collect {
    Seq *seq;
    template <class A, class B, class L, class V, class I> auto operator()(A ib, B ie, L lit, V val, I inc) const -> int {
        int n = 0;
        for (; ib != ie; inc(ib)) {
            seq->emplace_back(val(ib), lit(ib));
            if (++n > 100000) { break; }
        }
        return n;
    }
};

static auto cmp(char const *name, val_t v, Seq const &got, Seq const &expect) -> bool {
    rep.count("traversals");
    rep.count("literals_traversed", got.size());
    if (got == expect) { return true; }
    return bad(name, std::string(name) + "(" + std::to_string(v) + ") gives " + std::to_string(got.size()) + " literals instead of " +
               std::to_string(expect.size()) + (got.empty() ? "" : " starting with value " + std::to_string(got.front().first)));
}

static auto query(VarState &s, Pair const &m, val_t v) -> bool {
    Seq lt, le, gt, ge, got;
    for (auto const &x : m.lits) {
        if (x.first > v) { gt.push_back(x); }
        if (x.first >= v) { ge.push_back(x); }
    }
    for (auto it = m.lits.rbegin(); it != m.lits.rend(); ++it) {
        if (it->first < v) { lt.push_back(*it); }
        if (it->first <= v) { le.push_back(*it); }
    }
    s.with_lt(v, Collect{&got});
    if (!cmp("with_lt", v, got, lt)) { return false; }
    got.clear();
    s.with_le(v, Collect{&got});
    if (!cmp("with_le", v, got, le)) { return false; }
    got.clear();
    s.with_gt(v, Collect{&got});
    if (!cmp("with_gt", v, got, gt)) { return false; }
    got.clear();
    s.with_ge(v, Collect{&got});
    if (!cmp("with_ge", v, got, ge)) { return false; }
    auto lit = [](Seq const &x) { return x.empty() ? 0 : x.front().second; };
    if (s.lit_lt(v) != lit(lt) || s.lit_le(v) != lit(le) || s.lit_gt(v) != lit(gt) || s.lit_ge(v) != lit(ge)) {
        return bad("lit", "wrong literal next to " + std::to_string(v));
    }
    auto ord = [](Seq const &x, VarState::OrderLiteralOpt const &o) {
        return x.empty() ? !o.has_value() : o.has_value() && o->first == x.front().second && o->second == x.front().first;
    };
    if (!ord(lt, s.order_lit_lt(v)) || !ord(le, s.order_lit_le(v)) || !ord(gt, s.order_lit_gt(v)) || !ord(ge, s.order_lit_ge(v))) {
        return bad("order_lit", "wrong order literal next to " + std::to_string(v));
    }
    if (s.lit_prev(v) != (lt.empty() ? -TRUE_LIT : lt.front().second) || s.lit_succ(v) != (gt.empty() ? TRUE_LIT : gt.front().second)) {
        return bad("lit_prev", "wrong neighbor of " + std::to_string(v));
    }
    if (v >= m.min() && v < m.max()) {
        auto it = m.lits.find(v);
        auto o = s.get_literal(v);
        if (s.has_literal(v) != (it != m.lits.end()) || o.has_value() != (it != m.lits.end()) || (o && *o != it->second)) {
            return bad("get_literal", "wrong literal of " + std::to_string(v));
        }
    }
    return true;
}

static auto compare(Rng &rng, VarState &s, Pair const &m, bool full) -> bool {
    rep.count("states");
    if (s.lower_bound() != m.lb || s.upper_bound() != m.ub || s.min_bound() != m.min() || s.max_bound() != m.max() ||
        s.is_assigned() != (m.lb == m.ub) || s.size() != m.max() - m.min() || s.var() != m.var) {
        return bad("bounds", "wrong bounds");
    }
    for (level_t l = 0; l < 8; ++l) {
        if (s.pushed_lower(l) != (!m.ls.empty() && m.ls.back().first == l) || s.pushed_upper(l) != (!m.us.empty() && m.us.back().first == l)) {
            return bad("pushed", "wrong levels");
        }
    }
    Seq got;
    s.with(Collect{&got});
    if (!cmp("with", 0, got, Seq(m.lits.begin(), m.lits.end()))) { return false; }
    if (full) {
        for (val_t v = m.min() - 2; v <= m.max() + 2; ++v) {
            if (v >= MIN_VAL - 1 && v <= MAX_VAL && !query(s, m, v)) { return false; }
        }
    }
    for (int i = 0; i < 3; ++i) {
        val_t v = 0;
        switch (rng() % 5) {
            case 0: v = static_cast<val_t>(pick(rng, MIN_VAL - 1, MAX_VAL)); break;
            case 1: v = rng() % 2 == 0 ? MIN_VAL - 1 : MAX_VAL; break;
            case 2: if (!m.lits.empty()) { v = std::next(m.lits.begin(), static_cast<long>(rng() % m.lits.size()))->first; } break;
            default: v = static_cast<val_t>(std::min<int64_t>(MAX_VAL, std::max<int64_t>(MIN_VAL - 1, pick(rng, static_cast<int64_t>(m.min()) - 3, static_cast<int64_t>(m.max()) + 3)))); break;
        }
        if (!query(s, m, v)) { return false; }
    }
    return true;
}

static void sequence(Rng &rng) {
    hist.clear();
    val_t size = 0;
    switch (rng() % 5) {
        case 0: size = static_cast<val_t>(pick(rng, 0, 4)); break;
        case 1: size = static_cast<val_t>(pick(rng, 5, 25)); break;
        case 2: size = static_cast<val_t>(pick(rng, 26, 120)); break;
        case 3: size = static_cast<val_t>(pick(rng, 200, 3000)); break;
        default: size = MAX_VAL - MIN_VAL; break;
    }
    val_t lo = MIN_VAL;
    switch (rng() % 4) {
        case 0: lo = static_cast<val_t>(std::min<int64_t>(MAX_VAL - size, pick(rng, -50, 50))); break;
        case 1: lo = MAX_VAL - size; break;
        case 2: lo = MIN_VAL; break;
        default: lo = static_cast<val_t>(pick(rng, MIN_VAL, MAX_VAL - size)); break;
    }
    size_t num = 3;
    std::vector<VarState> ss;
    std::vector<Pair> ms(num);
    ss.reserve(num);
    for (size_t i = 0; i < num; ++i) {
        ss.emplace_back(static_cast<var_t>(i), lo, lo + size);
        ms[i].lb = lo;
        ms[i].ub = lo + size;
        ms[i].var = static_cast<var_t>(i);
    }
    lit_t next = 2;
    level_t level = 0;
    hist = "[" + std::to_string(lo) + "," + std::to_string(lo + size) + "] ";
    int len = static_cast<int>(pick(rng, 5, 120));
    bool bounds = rng() % 3 != 0;
    for (int step = 0; step < len; ++step) {
        size_t i = rng() % 4 != 0 ? 0 : rng() % num;
        size_t j = rng() % num;
        auto &s = ss[i];
        auto &m = ms[i];
        std::string id = std::to_string(i);
        val_t v = 0;
        bool any = m.max() > m.min();
        if (any) {
            v = static_cast<val_t>(rng() % 8 == 0 ? (rng() % 2 == 0 ? m.min() : m.max() - 1) : rng() % 2 == 0 ? m.min() + pick(rng, 0, std::min<int64_t>(30, m.max() - m.min() - 1)) : pick(rng, m.min(), m.max() - 1));
        }
        auto op = rng() % 32;
        if (op < 9 && any) {
            lit_t l = next++ * (rng() % 2 == 0 ? 1 : -1);
            hist += id + ".set(" + std::to_string(v) + "," + std::to_string(l) + ") ";
            s.set_literal(v, l);
            m.lits[v] = l;
        } else if (op < 16 && any) {
            hist += id + ".get_or_add(" + std::to_string(v) + ") ";
            auto &l = s.get_or_add_literal(v);
            auto it = m.lits.find(v);
            if (l != (it == m.lits.end() ? 0 : it->second)) { bad("get_or_add_literal", "wrong literal"); return; }
            if (l == 0) {
                l = next++ * (rng() % 2 == 0 ? 1 : -1);
                m.lits[v] = l;
            }
        } else if (op < 19 && any) {
            if (rng() % 3 != 0 && !m.lits.empty()) {
                auto w = std::next(m.lits.begin(), static_cast<long>(rng() % m.lits.size()))->first;
                if (w >= m.min() && w < m.max()) { v = w; }
            }
            hist += id + ".unset(" + std::to_string(v) + ") ";
            s.unset_literal(v);
            m.lits.erase(v);
        } else if (op < 21) {
            hist += id + ":=" + std::to_string(j) + " ";
            if (i != j || rng() % 8 == 0) {
                VarState const &o = ss[j];
                s = o;
                m = Pair(ms[j]);
            }
        } else if (op == 21) {
            hist += id + ":=move " + std::to_string(j) + " ";
            if (i != j) {
                VarState tmp(ss[j]);
                s = std::move(tmp);
                m = ms[j];
                tmp = ss[j];
            }
        } else if (op == 22) {
            hist += id + ":=moved copy ";
            VarState a(s);
            VarState b(std::move(a));
            s = std::move(b);
        } else if (op == 23) {
            // growing a vector moves or copies the elements
            hist += "grow ";
            std::vector<VarState> tt;
            for (auto &x : ss) { tt.emplace_back(std::move(x)); }
            ss = std::move(tt);
        } else if (op < 29 && bounds) {
            // bounds follow the discipline of the solver: new levels are pushed once
            if (rng() % 3 == 0 && level < 6) {
                ++level;
                hist += "level " + std::to_string(level) + " ";
            }
            val_t d = m.ub - m.lb;
            val_t k = static_cast<val_t>(rng() % 3 == 0 ? pick(rng, 0, d) : pick(rng, 0, std::min<int64_t>(d, 5)));
            if (rng() % 2 == 0) {
                if (level > 0 && !s.pushed_lower(level)) {
                    s.push_lower(level);
                    m.ls.emplace_back(level, m.lb);
                }
                hist += id + ".lower(" + std::to_string(m.lb + k) + ") ";
                s.lower_bound(m.lb + k);
                m.lb += k;
            } else {
                if (level > 0 && !s.pushed_upper(level)) {
                    s.push_upper(level);
                    m.us.emplace_back(level, m.ub);
                }
                hist += id + ".upper(" + std::to_string(m.ub - k) + ") ";
                s.upper_bound(m.ub - k);
                m.ub -= k;
            }
        } else if (op < 31 && level > 0) {
            hist += "backtrack ";
            --level;
            for (size_t x = 0; x < num; ++x) {
                while (!ms[x].ls.empty() && ms[x].ls.back().first > level) {
                    ms[x].lb = ms[x].ls.back().second;
                    ms[x].ls.pop_back();
                    ss[x].pop_lower();
                }
                while (!ms[x].us.empty() && ms[x].us.back().first > level) {
                    ms[x].ub = ms[x].us.back().second;
                    ms[x].us.pop_back();
                    ss[x].pop_upper();
                }
            }
        } else if (op == 31 && Reset<VarState>::value && rng() % 3 == 0) {
            hist += id + ".reset ";
            Reset<VarState>::call(s, lo, lo + size);
            m.lb = lo;
            m.ub = lo + size;
            m.ls.clear();
            m.us.clear();
            m.lits.clear();
        } else {
            continue;
        }
        rep.count("operations");
        if (!compare(rng, ss[i], m, size < 200 && rng() % 8 == 0)) { return; }
    }
    for (size_t x = 0; x < num; ++x) {
        if (!compare(rng, ss[x], ms[x], size < 200)) { return; }
    }
    rep.count("sequences");
}

int main(int argc, char **argv) {
    Rng rng(strtoull(argv[1], nullptr, 10));
    int n = atoi(argv[2]);
    for (int i = 0; i < n / 8; ++i) { sequence(rng); }
    rep.done();
}
