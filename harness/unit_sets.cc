// Interval sets and vectors without duplicates against sets of values.
#include "unit.hh"
#include <clingcon/base.hh>
#include <clingcon/util.hh>
#include <limits>

using namespace Clingcon;

static Report rep;

// A set of integers is represented by the values lo..lo+width-1 that are contained.
template <class T> struct Model {
    T lo;
    int width;
    std::vector<bool> in;
    Model(T lo, int width) : lo{lo}, width{width}, in(width, false) {}
    auto at(int i) const -> T { return static_cast<T>(lo + i); }
    // positions 0..width denote points
    void add(int a, int b) {
        for (int i = a; i < b; ++i) { in[i] = true; }
    }
};

template <class T> static auto show(IntervalSet<T> const &s) -> std::string {
    std::ostringstream o;
    for (auto const &[a, b] : s) { o << "[" << a << "," << b << ")"; }
    return o.str();
}

template <class T> static auto compare(char const *ty, IntervalSet<T> &s, Model<T> const &m, std::string const &hist, bool full, bool complete = true) -> bool {
    auto bad = [&](std::string const &k, std::string const &w) {
        rep.viol("IntervalSet/" + k, std::string("IntervalSet<") + ty + "> after " + hist + ": " + w + "; set is " + show(s));
        return false;
    };
    rep.count("set_states");
    std::vector<std::pair<T, T>> runs;
    for (int i = 0; i < m.width; ++i) {
        if (m.in[i]) {
            if (i == 0 || !m.in[i - 1]) { runs.emplace_back(m.at(i), m.at(i)); }
            runs.back().second = static_cast<T>(m.lo + i + 1);
        }
    }
    // iteration gives intervals in order, not empty, and without overlap
    std::vector<std::pair<T, T>> got;
    for (auto const &[a, b] : s) { got.emplace_back(a, b); }
    for (size_t i = 0; i < got.size(); ++i) {
        if (!(got[i].first < got[i].second)) { return bad("iterate", "empty interval"); }
        if (i > 0 && got[i].first < got[i - 1].second) { return bad("iterate", "overlap"); }
    }
    std::vector<std::pair<T, T>> merged;
    for (auto &x : got) {
        if (!merged.empty() && merged.back().second == x.first) { merged.back().second = x.second; } else { merged.push_back(x); }
    }
    if (merged != runs) { return bad("iterate", "wrong values"); }
    std::vector<std::pair<T, T>> rev;
    for (auto it = s.rbegin(); it != s.rend(); ++it) { rev.emplace_back(it->first, it->second); }
    if (std::vector<std::pair<T, T>>(rev.rbegin(), rev.rend()) != got) { return bad("reverse", "reverse iteration differs"); }
    if (s.empty() != runs.empty()) { return bad("empty", "wrong emptiness"); }
    if (!full) { return true; }
    for (int i = 0; i < m.width; ++i) {
        if (s.contains(m.at(i)) != m.in[i]) { return bad("contains", "contains(" + std::to_string(m.at(i)) + ") is wrong"); }
    }
    for (int i = 0; i <= m.width; ++i) {
        bool any = false;
        bool allin = true;
        for (int j = i + 1; j <= m.width; ++j) {
            any = any || m.in[j - 1];
            allin = allin && m.in[j - 1];
            T a = static_cast<T>(m.lo + i);
            T b = static_cast<T>(m.lo + j);
            rep.count("set_queries", 2);
            if (s.intersects(a, b) != any) { return bad("intersects", "intersects(" + std::to_string(a) + ", " + std::to_string(b) + ") is wrong"); }
            if (s.contains(a, b) != allin) { return bad("contains2", "contains(" + std::to_string(a) + ", " + std::to_string(b) + ") is wrong"); }
            if (s.intersects(b, a) || s.intersects(a, a)) { return bad("intersects", "intersects with an empty interval"); }
        }
    }
    std::vector<T> vals;
    for (int i = 0; i < m.width; ++i) {
        if (m.in[i]) { vals.push_back(m.at(i)); }
    }
    for (size_t stop = 0; stop <= vals.size(); ++stop) {
        std::vector<T> seen;
        s.enumerate([&](T x) {
            seen.push_back(x);
            return seen.size() != stop;
        });
        size_t n = stop == 0 ? vals.size() : stop;
        if (seen != std::vector<T>(vals.begin(), vals.begin() + static_cast<long>(std::min(n, vals.size())))) { return bad("enumerate", "enumerate gives other values"); }
        if (!complete && stop > 1) { break; }
    }
    return true;
}

// all sequences of additions over a small domain
static void exhaustive(int w, int len) {
    std::vector<std::pair<int, int>> iv;
    for (int a = 0; a <= w; ++a) {
        for (int b = 0; b <= w; ++b) {
            if (a < b || (a + b) % 3 == 0) { iv.emplace_back(a, b); }
        }
    }
    std::vector<size_t> idx(len, 0);
    for (;;) {
        IntervalSet<val_t> s;
        Model<val_t> m(-3, w);
        std::string hist;
        for (auto i : idx) {
            s.add(iv[i].first - 3, iv[i].second - 3);
            m.add(iv[i].first, iv[i].second);
            hist += "add(" + std::to_string(iv[i].first - 3) + "," + std::to_string(iv[i].second - 3) + ") ";
        }
        rep.count("set_sequences");
        compare<val_t>("int32", s, m, hist, true);
        size_t k = 0;
        while (k < idx.size() && ++idx[k] == iv.size()) { idx[k++] = 0; }
        if (k == idx.size()) { break; }
    }
}

template <class T> static void random_sets(char const *ty, Rng &rng, int n) {
    std::vector<T> los{T(-10), T(0), std::numeric_limits<T>::min(), static_cast<T>(std::numeric_limits<T>::max() - 40)};
    for (int r = 0; r < n; ++r) {
        int w = static_cast<int>(pick(rng, 3, 40));
        T lo = los[rng() % los.size()];
        IntervalSet<T> s;
        IntervalSet<T> t;
        Model<T> m(lo, w);
        Model<T> k(lo, w);
        std::string hist;
        int len = static_cast<int>(pick(rng, 1, 30));
        for (int i = 0; i < len; ++i) {
            int a = static_cast<int>(pick(rng, 0, w));
            int b = static_cast<int>(rng() % 3 == 0 ? pick(rng, 0, w) : std::min<int64_t>(w, a + pick(rng, 0, 4)));
            auto op = rng() % 24;
            if (op < 15) {
                s.add(static_cast<T>(lo + a), static_cast<T>(lo + b));
                m.add(a, b);
                hist += "add(" + std::to_string(lo + a) + "," + std::to_string(lo + b) + ") ";
            } else if (op < 18) {
                t.add(static_cast<T>(lo + a), static_cast<T>(lo + b));
                k.add(a, b);
                hist += "other.add(" + std::to_string(lo + a) + "," + std::to_string(lo + b) + ") ";
            } else if (op < 20) {
                s.extend(t);
                for (int j = 0; j < w; ++j) { m.in[j] = m.in[j] || k.in[j]; }
                hist += "extend ";
            } else if (op == 20) {
                std::swap(s, t);
                std::swap(m.in, k.in);
                hist += "swap ";
            } else if (op == 21) {
                t = s;
                k.in = m.in;
                hist += "assign ";
            } else if (op == 22 && rng() % 2 == 0) {
                s.clear();
                m.in.assign(w, false);
                hist += "clear ";
            } else {
                IntervalSet<T> c(s);
                s = std::move(c);
            }
            if (!compare<T>(ty, s, m, hist, rng() % 6 == 0, false)) { break; }
        }
        rep.count("set_sequences");
        compare<T>(ty, s, m, hist, true);
        compare<T>(ty, t, k, "(other) " + hist, true);
    }
}

struct Elem {
    int id;
    bool flag_unique{false};
};

static void unique(Rng &rng, int n) {
    for (int r = 0; r < n; ++r) {
        std::vector<Elem> pool(static_cast<size_t>(pick(rng, 1, 12)));
        for (size_t i = 0; i < pool.size(); ++i) { pool[i].id = static_cast<int>(i); }
        UniqueVector<Elem *> v;
        std::set<int> m;
        std::string hist;
        auto bad = [&](char const *k, char const *w) { rep.viol(std::string("UniqueVector/") + k, std::string("UniqueVector after ") + hist + ": " + w); };
        for (int i = 0; i < 60; ++i) {
            auto op = rng() % 16;
            auto *e = &pool[rng() % pool.size()];
            if (op < 7) {
                hist += "append " + std::to_string(e->id) + " ";
                if (v.append(e) != m.insert(e->id).second) { bad("append", "append returns the wrong value"); }
            } else if (op < 9) {
                std::vector<Elem *> xs;
                size_t fresh = 0;
                hist += "extend ";
                for (size_t j = 0; j < rng() % 8; ++j) {
                    xs.push_back(&pool[rng() % pool.size()]);
                    hist += std::to_string(xs.back()->id) + ",";
                    fresh += m.insert(xs.back()->id).second ? 1 : 0;
                }
                hist += " ";
                if (v.extend(xs.begin(), xs.end()) != fresh) { bad("extend", "extend returns the wrong number of elements"); }
            } else if (op < 13) {
                if (!v.empty()) {
                    auto const &c = v;
                    auto it = c.begin() + static_cast<long>(rng() % v.size());
                    hist += "erase " + std::to_string((*it)->id) + " ";
                    m.erase((*it)->id);
                    v.erase(it);
                }
            } else if (op == 13 && rng() % 4 == 0) {
                hist += "clear ";
                v.clear();
                m.clear();
            }
            rep.count("vector_states");
            std::multiset<int> got;
            for (auto *x : v) { got.insert(x->id); }
            if (got != std::multiset<int>(m.begin(), m.end())) { bad("elements", "wrong elements"); break; }
            if (v.size() != m.size() || v.empty() != m.empty()) { bad("size", "wrong size"); break; }
            bool ok = true;
            for (auto &x : pool) { ok = ok && v.contains(&x) == (m.count(x.id) > 0); }
            if (!ok) { bad("contains", "wrong elements contained"); break; }
        }
        rep.count("vector_sequences");
    }
}

int main(int argc, char **argv) {
    Rng rng(strtoull(argv[1], nullptr, 10));
    int n = atoi(argv[2]);
    exhaustive(6, n >= 100000 ? 4 : 3);
    exhaustive(9, 2);
    random_sets<val_t>("int32", rng, n / 20);
    random_sets<sum_t>("int64", rng, n / 40);
    unique(rng, n / 10);
    rep.done();
}
