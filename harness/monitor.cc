// Monitor of the propagator: wraps the registration of clingcon's propagator and the functions it uses to talk to the
// solver, checks the state invariants at every callback, and records clauses together with the meaning of their
// literals. Linked with the driver; only the parts guarded by CLINGCON_VERIF need access to solver states.
#include <clingcon.h>
#include <clingo.hh>

#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#ifdef CLINGCON_VERIF
#include <clingcon/propagator.hh>
#endif

extern "C" {
bool __real_clingo_control_register_propagator(clingo_control_t *, clingo_propagator_t const *, void *, bool);
bool __real_clingo_propagate_init_add_clause(clingo_propagate_init_t *, clingo_literal_t const *, size_t, bool *);
bool __real_clingo_propagate_init_add_literal(clingo_propagate_init_t *, bool, clingo_literal_t *);
bool __real_clingo_propagate_init_add_weight_constraint(clingo_propagate_init_t *, clingo_literal_t,
                                                        clingo_weighted_literal_t const *, size_t, clingo_weight_t,
                                                        clingo_weight_constraint_type_t, bool, bool *);
bool __real_clingo_propagate_init_add_minimize(clingo_propagate_init_t *, clingo_literal_t, clingo_weight_t,
                                               clingo_weight_t);
bool __real_clingo_propagate_control_add_clause(clingo_propagate_control_t *, clingo_literal_t const *, size_t,
                                                clingo_clause_type_t, bool *);
bool __real_clingo_propagate_control_add_literal(clingo_propagate_control_t *, clingo_literal_t *);
bool __real_clingo_propagate_control_propagate(clingo_propagate_control_t *, bool *);
}

namespace {

using Lit = clingo_literal_t;

std::string esc(std::string const &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += static_cast<char>(c);
        else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else r += static_cast<char>(c);
    }
    return r + "\"";
}

constexpr unsigned MAXT = 64;

// counts since the last report
struct Counts {
    std::atomic<long> init_lits{0}, init_clauses{0}, init_wcs{0}, init_false{0}, ctl_clauses{0};
    std::atomic<long> ctl_lits[MAXT];
    std::atomic<long> props{0}, checks{0}, undos{0}, decides{0}, olits{0}, snapshots{0}, totals{0};
    Counts() { for (auto &x : ctl_lits) x = 0; }
} cnt;

std::mutex mtx;
std::vector<std::string> viols;
std::set<std::string> records;
size_t dropped = 0;
constexpr size_t MAXREC = 4000;

[[maybe_unused]] void viol(std::string s) {
    std::lock_guard<std::mutex> g(mtx);
    if (viols.size() < 10) viols.push_back(std::move(s));
}

thread_local bool failed = false; // a function asked to stop the current propagation

struct Thread {
    std::vector<std::pair<uint32_t, std::vector<std::pair<int, int>>>> levels; // bounds before entering the levels
    std::unordered_map<Lit, std::string> names;
};

struct Mon {
    clingo_propagator_t orig;
    void *data = nullptr;
    Thread threads[MAXT];
    std::unordered_map<Lit, std::string> atoms;
    bool heuristic = false;
};

std::mutex mons_mtx;
std::vector<std::unique_ptr<Mon>> mons;
thread_local Mon *current = nullptr; // propagator whose callback is running in this thread
thread_local unsigned current_thread = 0;
std::atomic<bool> record_enabled{false};

#ifdef CLINGCON_VERIF
using Clingcon::Propagator;
Propagator &prp(Mon &m) { return *static_cast<Propagator *>(m.data); }

std::string varname(Propagator &p, Clingcon::var_t v) {
    auto s = p.get_symbol(v);
    return s ? s->to_string() : "#" + std::to_string(v);
}

template <class F> void each_olit(Clingcon::VarState const &vs, F f) {
    int n = 0;
    auto o = vs.order_lit_ge(Clingcon::MIN_VAL - 2);
    while (o) {
        f(o->second, o->first);
        if (++n > 200000) break;
        o = vs.order_lit_gt(o->second);
    }
}

void learn_names(Mon &m, unsigned t) {
    auto &p = prp(m);
    if (t >= p.verif_solvers()) return;
    auto const &s = p.verif_solver(t);
    auto &names = m.threads[t].names;
    for (Clingcon::var_t v = 0; v < s.verif_num_variables(); ++v) {
        auto sym = p.get_symbol(v);
        if (!sym) continue;
        std::string n;
        each_olit(s.var_state(v), [&](int val, Lit l) {
            if (l == 1 || l == -1 || names.count(l)) return;
            if (n.empty()) n = sym->to_string();
            names[l] = "o:" + n + ":" + std::to_string(val);
        });
    }
}

std::string token(Mon &m, unsigned t, Lit l, bool &scanned) {
    if (l == 1) return "T";
    if (l == -1) return "F";
    auto find = [&](std::unordered_map<Lit, std::string> &mp) -> std::string {
        auto it = mp.find(l);
        if (it != mp.end()) return it->second;
        it = mp.find(-l);
        if (it != mp.end()) return "!" + it->second;
        return "";
    };
    auto r = find(m.atoms);
    if (!r.empty()) return r;
    r = find(m.threads[t].names);
    if (r.empty() && !scanned) {
        scanned = true;
        learn_names(m, t);
        r = find(m.threads[t].names);
    }
    return r.empty() ? "?" : r;
}

void add_record(std::string s) {
    std::lock_guard<std::mutex> g(mtx);
    if (records.size() < MAXREC) records.insert(std::move(s));
    else ++dropped;
}

void record_clause(Lit const *c, size_t n, char const *tag, bool bound) {
    if (!record_enabled || current == nullptr) return;
    bool scanned = false;
    std::ostringstream oss;
    oss << "[" << esc(tag) << ",";
    std::optional<Clingcon::sum_t> b;
    if (bound) b = prp(*current).verif_minimize_bound();
    if (b) oss << *b;
    else oss << "null";
    std::set<std::string> toks;
    for (size_t i = 0; i < n; ++i) toks.insert(token(*current, current_thread, c[i], scanned));
    for (auto &t : toks) oss << "," << esc(t);
    oss << "]";
    add_record(oss.str());
}

void check_bounds(Mon &m, unsigned t, Clingo::Assignment ass, char const *where) {
    auto &p = prp(m);
    auto const &s = p.verif_solver(t);
    auto fail = [&](Clingcon::var_t v, std::string const &what) {
        auto const &vs = s.var_state(v);
        std::ostringstream oss;
        oss << where << ": thread " << t << " level " << ass.decision_level() << " variable " << varname(p, v) << " ["
            << vs.lower_bound() << "," << vs.upper_bound() << "] in [" << vs.min_bound() << "," << vs.max_bound() << "]: " << what;
        each_olit(vs, [&](int val, Lit l) {
            oss << " " << val << "/" << l << "=" << (ass.is_true(l) ? "T" : ass.is_false(l) ? "F" : "?");
        });
        viol(oss.str());
    };
    for (Clingcon::var_t v = 0; v < s.verif_num_variables(); ++v) {
        auto const &vs = s.var_state(v);
        if (vs.lower_bound() > vs.upper_bound()) fail(v, "lower bound above upper bound");
        if (vs.lower_bound() < vs.min_bound() || vs.upper_bound() > vs.max_bound()) fail(v, "bounds outside of domain");
        bool lo = vs.lower_bound() == vs.min_bound(), up = vs.upper_bound() == vs.max_bound();
        each_olit(vs, [&](int val, Lit l) {
            ++cnt.olits;
            if (l == 0) { fail(v, "zero literal at " + std::to_string(val)); return; }
            bool tr = ass.is_true(l), fa = ass.is_false(l);
            if (tr && val == vs.upper_bound()) up = true;
            if (fa && val == vs.lower_bound() - 1) lo = true;
            if (l == 1 || l == -1) return; // facts that have not been integrated yet
            if (tr && vs.upper_bound() > val) fail(v, "true order literal at " + std::to_string(val) + " not reflected");
            if (fa && vs.lower_bound() <= val) fail(v, "false order literal at " + std::to_string(val) + " not reflected");
            // literals outside of the domain do not have to be assigned
            if (val < vs.min_bound() || val >= vs.max_bound()) return;
            if (val >= vs.upper_bound() && !tr) fail(v, "order literal at " + std::to_string(val) + " should be true");
            if (val < vs.lower_bound() && !fa) fail(v, "order literal at " + std::to_string(val) + " should be false");
        });
        if (!up) fail(v, "upper bound not supported by an order literal");
        if (!lo) fail(v, "lower bound not supported by an order literal");
    }
}

std::vector<std::pair<int, int>> bounds(Mon &m, unsigned t) {
    auto const &s = prp(m).verif_solver(t);
    std::vector<std::pair<int, int>> r;
    for (Clingcon::var_t v = 0; v < s.verif_num_variables(); ++v) {
        r.emplace_back(s.var_state(v).lower_bound(), s.var_state(v).upper_bound());
    }
    return r;
}
#endif

bool mon_init(clingo_propagate_init_t *init, void *data) {
    auto &m = *static_cast<Mon *>(data);
    current = &m;
    current_thread = 0;
#ifdef CLINGCON_VERIF
    for (auto &t : m.threads) {
        t.levels.clear();
        t.names.clear();
    }
    if (record_enabled) {
        m.atoms.clear();
        Clingo::PropagateInit i{init};
        for (auto a : i.symbolic_atoms()) {
            auto l = i.solver_literal(a.literal());
            if (l != 1 && l != -1) m.atoms.emplace(l, "a:" + a.symbol().to_string());
        }
    }
#endif
    long f0 = cnt.init_false;
    bool ok = m.orig.init(init, m.data);
    current = nullptr;
#ifdef CLINGCON_VERIF
    if (ok && cnt.init_false == f0) {
        Clingo::PropagateInit i{init};
        auto &p = prp(m);
        auto n = static_cast<size_t>(i.number_of_threads());
        if (p.verif_solvers() != n) {
            viol("init: " + std::to_string(p.verif_solvers()) + " solver states for " + std::to_string(n) + " threads");
        } else {
            auto const &a = p.verif_solver(0);
            for (size_t t = 1; t < n; ++t) {
                auto const &b = p.verif_solver(static_cast<uint32_t>(t));
                if (a.verif_num_variables() != b.verif_num_variables() || a.verif_num_constraints() != b.verif_num_constraints()) {
                    viol("init: different number of variables or constraints in thread " + std::to_string(t));
                    continue;
                }
                for (Clingcon::var_t v = 0; v < a.verif_num_variables(); ++v) {
                    auto const &x = a.var_state(v), &y = b.var_state(v);
                    std::map<int, Lit> lx, ly;
                    each_olit(x, [&](int val, Lit l) { lx[val] = l; });
                    each_olit(y, [&](int val, Lit l) { ly[val] = l; });
                    if (x.lower_bound() != y.lower_bound() || x.upper_bound() != y.upper_bound() || lx != ly ||
                        x.min_bound() != y.min_bound() || x.max_bound() != y.max_bound()) {
                        viol("init: state of variable " + varname(p, v) + " differs in thread " + std::to_string(t));
                    }
                }
            }
            if (a.verif_num_constraints() != p.verif_num_constraints()) {
                viol("init: " + std::to_string(p.verif_num_constraints()) + " constraints but " +
                     std::to_string(a.verif_num_constraints()) + " states");
            }
            for (Clingcon::var_t v = 0; v < a.verif_num_variables(); ++v) {
                auto const &x = a.var_state(v);
                int last = 0;
                bool first = true;
                each_olit(x, [&](int val, Lit) {
                    if (!first && val <= last) viol("init: order literals of " + varname(p, v) + " are not ordered");
                    first = false;
                    last = val;
                });
            }
        }
    }
#endif
    return ok;
}

bool mon_propagate(clingo_propagate_control_t *ctl, Lit const *ch, size_t n, void *data) {
    auto &m = *static_cast<Mon *>(data);
    auto t = clingo_propagate_control_thread_id(ctl);
    current = &m;
    current_thread = t;
    failed = false;
    ++cnt.props;
#ifdef CLINGCON_VERIF
    Clingo::PropagateControl c{ctl};
    auto dl = c.assignment().decision_level();
    auto &lv = m.threads[t].levels;
    if (t < prp(m).verif_solvers() && dl > 0 && (lv.empty() || lv.back().first < dl)) {
        lv.emplace_back(dl, bounds(m, t));
        ++cnt.snapshots;
    }
#endif
    bool ok = m.orig.propagate(ctl, ch, n, m.data);
    current = nullptr;
    return ok;
}

bool mon_check(clingo_propagate_control_t *ctl, void *data) {
    auto &m = *static_cast<Mon *>(data);
    auto t = clingo_propagate_control_thread_id(ctl);
    current = &m;
    current_thread = t;
    failed = false;
    ++cnt.checks;
#ifdef CLINGCON_VERIF
    Clingo::PropagateControl c{ctl};
    auto ass = c.assignment();
    auto size = ass.size();
    bool total = ass.is_total();
    check_bounds(m, t, ass, "check");
#endif
    bool ok = m.orig.check(ctl, m.data);
    current = nullptr;
#ifdef CLINGCON_VERIF
    if (ok && !failed) {
        auto const &s = prp(m).verif_solver(t);
        if (s.verif_pending()) viol("check: changes left after check without conflict");
        if (total && ass.is_total() && ass.size() == size) {
            ++cnt.totals;
            for (Clingcon::var_t v = 0; v < s.verif_num_variables(); ++v) {
                if (!s.var_state(v).is_assigned()) viol("check: variable " + varname(prp(m), v) + " not assigned in total assignment");
            }
        }
    }
#endif
    return ok;
}

void mon_undo(clingo_propagate_control_t const *ctl, Lit const *ch, size_t n, void *data) {
    auto &m = *static_cast<Mon *>(data);
    ++cnt.undos;
    m.orig.undo(ctl, ch, n, m.data);
#ifdef CLINGCON_VERIF
    auto t = clingo_propagate_control_thread_id(ctl);
    auto &lv = m.threads[t].levels;
    if (lv.empty()) {
        viol("undo: unexpected undo");
        return;
    }
    auto b = bounds(m, t);
    auto &old = lv.back().second;
    for (size_t v = 0; v < b.size() && v < old.size(); ++v) {
        if (b[v] != old[v]) {
            std::ostringstream oss;
            oss << "undo: thread " << t << " level " << lv.back().first << ": bounds of " << varname(prp(m), v) << " are ["
                << b[v].first << "," << b[v].second << "] but were [" << old[v].first << "," << old[v].second << "]";
            viol(oss.str());
        }
    }
    lv.pop_back();
#endif
}

bool mon_decide(clingo_id_t t, clingo_assignment_t const *a, Lit fb, void *data, Lit *res) {
    auto &m = *static_cast<Mon *>(data);
    ++cnt.decides;
    bool ok = m.orig.decide(t, a, fb, m.data, res);
    if (ok && *res != 0) {
        Clingo::Assignment ass{a};
        if (!ass.has_literal(*res) || ass.truth_value(*res) != Clingo::TruthValue::Free) {
            viol("decide: literal " + std::to_string(*res) + " is not free");
        }
    }
    return ok;
}

clingo_propagator_t mon_prop = {mon_init, mon_propagate, mon_undo, mon_check, nullptr};
clingo_propagator_t mon_prop_heu = {mon_init, mon_propagate, mon_undo, mon_check, mon_decide};

} // namespace

extern "C" {
bool __wrap_clingo_control_register_propagator(clingo_control_t *ctl, clingo_propagator_t const *p, void *data, bool seq) {
    auto m = std::make_unique<Mon>();
    m->orig = *p;
    m->data = data;
    auto *r = m.get();
    {
        std::lock_guard<std::mutex> g(mons_mtx);
        mons.push_back(std::move(m));
    }
    return __real_clingo_control_register_propagator(ctl, p->decide ? &mon_prop_heu : &mon_prop, r, seq);
}

bool __wrap_clingo_propagate_init_add_clause(clingo_propagate_init_t *i, Lit const *c, size_t n, bool *res) {
#ifdef CLINGCON_VERIF
    record_clause(c, n, "init", false);
#endif
    ++cnt.init_clauses;
    bool ok = __real_clingo_propagate_init_add_clause(i, c, n, res);
    if (ok && !*res) ++cnt.init_false;
    return ok;
}

bool __wrap_clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool freeze, Lit *l) {
    ++cnt.init_lits;
    return __real_clingo_propagate_init_add_literal(i, freeze, l);
}

bool __wrap_clingo_propagate_init_add_weight_constraint(clingo_propagate_init_t *i, Lit l, clingo_weighted_literal_t const *w,
                                                        size_t n, clingo_weight_t b, clingo_weight_constraint_type_t type,
                                                        bool eq, bool *res) {
    ++cnt.init_wcs;
#ifdef CLINGCON_VERIF
    if (record_enabled && current != nullptr && !eq) {
        bool sc = false;
        std::ostringstream oss;
        oss << "[\"wc\",null," << type << "," << b << "," << esc(token(*current, 0, l, sc));
        for (size_t k = 0; k < n; ++k) oss << "," << w[k].weight << "," << esc(token(*current, 0, w[k].literal, sc));
        oss << "]";
        add_record(oss.str());
    }
#endif
    bool ok = __real_clingo_propagate_init_add_weight_constraint(i, l, w, n, b, type, eq, res);
    if (ok && !*res) ++cnt.init_false;
    return ok;
}

bool __wrap_clingo_propagate_init_add_minimize(clingo_propagate_init_t *i, Lit l, clingo_weight_t w, clingo_weight_t p) {
#ifdef CLINGCON_VERIF
    if (record_enabled && current != nullptr) {
        bool sc = false;
        std::lock_guard<std::mutex> g(mtx);
        static long num = 0;
        records.insert("[\"min\"," + std::to_string(++num) + "," + std::to_string(w) + "," + std::to_string(p) + "," +
                       esc(token(*current, 0, l, sc)) + "]");
    }
#endif
    return __real_clingo_propagate_init_add_minimize(i, l, w, p);
}

bool __wrap_clingo_propagate_control_add_clause(clingo_propagate_control_t *c, Lit const *cl, size_t n, clingo_clause_type_t t, bool *res) {
#ifdef CLINGCON_VERIF
    record_clause(cl, n, t == clingo_clause_type_learnt ? "learnt" : t == clingo_clause_type_static ? "static" : "volatile", true);
#endif
    ++cnt.ctl_clauses;
    bool ok = __real_clingo_propagate_control_add_clause(c, cl, n, t, res);
    if (!ok || !*res) failed = true;
    return ok;
}

bool __wrap_clingo_propagate_control_add_literal(clingo_propagate_control_t *c, Lit *l) {
    ++cnt.ctl_lits[clingo_propagate_control_thread_id(c) % MAXT];
    return __real_clingo_propagate_control_add_literal(c, l);
}

bool __wrap_clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *res) {
    bool ok = __real_clingo_propagate_control_propagate(c, res);
    if (!ok || !*res) failed = true;
    return ok;
}
}

// Called by the driver.
void verif_record(bool on) { record_enabled = on; }

std::string verif_report(bool stats) {
    std::lock_guard<std::mutex> g(mtx);
    std::ostringstream oss;
    if (stats) {
        oss << ",\"api\":{\"init_lits\":" << cnt.init_lits.exchange(0) << ",\"init_clauses\":" << cnt.init_clauses.exchange(0)
            << ",\"init_wcs\":" << cnt.init_wcs.exchange(0) << ",\"init_false\":" << cnt.init_false.exchange(0)
            << ",\"ctl_clauses\":" << cnt.ctl_clauses.exchange(0) << ",\"ctl_lits\":[";
        for (unsigned i = 0; i < 16; ++i) oss << (i ? "," : "") << cnt.ctl_lits[i].exchange(0);
        oss << "]";
#ifdef CLINGCON_VERIF
        if (mons.size() == 1) oss << ",\"constraints\":" << prp(*mons.back()).verif_num_constraints();
#endif
        oss << "}";
        return oss.str();
    }
    oss << ",\"mon\":{\"props\":" << cnt.props.exchange(0) << ",\"checks\":" << cnt.checks.exchange(0) << ",\"undos\":"
        << cnt.undos.exchange(0) << ",\"decides\":" << cnt.decides.exchange(0) << ",\"olits\":" << cnt.olits.exchange(0)
        << ",\"snapshots\":" << cnt.snapshots.exchange(0) << ",\"totals\":" << cnt.totals.exchange(0) << ",\"dropped\":" << dropped
        << ",\"viols\":[";
    for (size_t i = 0; i < viols.size(); ++i) oss << (i ? "," : "") << esc(viols[i]);
    oss << "],\"recs\":[";
    bool sep = false;
    for (auto &r : records) {
        oss << (sep ? "," : "") << r;
        sep = true;
    }
    oss << "]}";
    viols.clear();
    records.clear();
    dropped = 0;
    return oss.str();
}
