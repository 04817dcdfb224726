// Simplification of sums against their values under assignments.
#include "unit.hh"
#include <clingcon/parsing.hh>

using namespace Clingcon;

static Report rep;

int main(int argc, char **argv) {
    Rng rng(strtoull(argv[1], nullptr, 10));
    int n = atoi(argv[2]);
    i128 const M = (static_cast<i128>(1) << 30) - 1;
    for (int r = 0; r < n * 4; ++r) {
        int nv = static_cast<int>(pick(rng, 1, 5));
        int nt = static_cast<int>(pick(rng, 0, 10));
        CoVarVec vec;
        std::map<var_t, i128> co;
        std::set<var_t> mentioned;
        i128 rhs = 0;
        std::string hist;
        bool big = rng() % 4 == 0;
        bool over = false; // some intermediate sum might not be representable
        i128 abs_sum = 0;
        std::map<var_t, i128> abs_co;
        for (int i = 0; i < nt; ++i) {
            var_t v = rng() % 7 == 0 ? INVALID_VAR : static_cast<var_t>(rng() % static_cast<uint64_t>(nv));
            auto c = static_cast<val_t>(big && rng() % 3 == 0 ? pick(rng, INT32_MIN, INT32_MAX) : big ? (rng() % 2 == 0 ? 1 : -1) * (M - pick(rng, -2, 2)) : pick(rng, -4, 4));
            vec.emplace_back(c, v);
            hist += std::to_string(c) + (is_valid_var(v) ? "*x" + std::to_string(v) : "") + " ";
            if (is_valid_var(v)) {
                co[v] += c;
                abs_co[v] += c < 0 ? -static_cast<i128>(c) : c;
                mentioned.insert(v);
                over = over || abs_co[v] > INT32_MAX;
            } else {
                rhs -= c;
                abs_sum += c < 0 ? -static_cast<i128>(c) : c;
                over = over || abs_sum > INT32_MAX;
            }
        }
        bool drop = rng() % 2 == 0;
        bool valid = rhs >= -M && rhs <= M;
        for (auto &x : co) { valid = valid && x.second >= -M && x.second <= M; }
        auto bad = [&](char const *k, std::string const &w) { rep.viol(std::string("simplify/") + k, "simplification of " + hist + (drop ? "(dropping zeros)" : "") + ": " + w); };
        try {
            auto res = vec;
            auto got = simplify(res, drop);
            rep.count("sums");
            if (!valid) { bad("accepted", "accepted despite values out of range"); continue; }
            if (got != rhs) { bad("rhs", "right hand side is " + std::to_string(got) + " instead of " + str(rhs)); continue; }
            std::map<var_t, i128> rest;
            bool ok = true;
            for (auto &x : res) { ok = ok && is_valid_var(x.second) && rest.emplace(x.second, x.first).second && (x.first != 0 || !drop); }
            if (!ok) { bad("terms", "unexpected term"); continue; }
            for (auto v : mentioned) {
                auto it = rest.find(v);
                ok = ok && (it == rest.end() ? co[v] == 0 && drop : it->second == co[v]);
            }
            if (!ok || rest.size() > mentioned.size()) { bad("coefficients", "wrong coefficients"); }
        } catch (std::runtime_error const &) {
            rep.count("sums_rejected");
            if (valid && !over) { bad("rejected", "rejected"); }
        }
    }
    rep.done();
}
