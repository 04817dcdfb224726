// Common parts of the programs that exercise primitives against independent models.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using i128 = __int128;

inline auto str(i128 x) -> std::string {
    if (x == 0) { return "0"; }
    bool neg = x < 0;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(x) : static_cast<unsigned __int128>(x);
    std::string s;
    for (; u != 0; u /= 10) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10))); }
    return neg ? "-" + s : s;
}

struct Report {
    std::map<std::string, uint64_t> counts;
    std::map<std::string, int> viols;
    void count(char const *k, uint64_t n = 1) { counts[k] += n; }
    void viol(std::string const &key, std::string const &what) {
        if (viols[key]++ < 2) {
            printf("VIOL %s\t%s\n", key.c_str(), what.c_str());
            fflush(stdout);
        }
        int n = 0;
        for (auto &x : viols) { n += x.second; }
        if (n > 200) { done(); exit(0); }
    }
    void done() {
        for (auto &x : counts) { printf("COUNT %s\t%llu\n", x.first.c_str(), static_cast<unsigned long long>(x.second)); }
        printf("END\n");
        fflush(stdout);
    }
};

using Rng = std::mt19937_64;

inline auto pick(Rng &r, int64_t a, int64_t b) -> int64_t {
    return a + static_cast<int64_t>(r() % static_cast<uint64_t>(b - a + 1));
}
