// Checked arithmetic, rounding and casts against 128 bit arithmetic of the compiler.
#include "unit.hh"
#include <clingcon/base.hh>
#include <clingcon/util.hh>

using namespace Clingcon;

static Report rep;

static auto wide(nsum_t x) -> i128 {
    auto lo = static_cast<uint64_t>(x);
    auto hi = static_cast<uint64_t>(x >> 64);
    return static_cast<i128>((static_cast<unsigned __int128>(hi) << 64) | lo);
}
template <class T> static auto wide(T x) -> i128 { return static_cast<i128>(x); }

template <class T> struct Make {
    static auto get(i128 x) -> T { return static_cast<T>(x); }
};
template <> struct Make<nsum_t> {
    static auto get(i128 x) -> nsum_t {
        auto u = static_cast<unsigned __int128>(x);
        nsum_t r = static_cast<uint64_t>(u >> 96);
        for (int s = 64; s >= 0; s -= 32) { r = (r << 32) | nsum_t(static_cast<uint32_t>(u >> s)); }
        return r;
    }
};

template <class T> struct Lim {
    static constexpr i128 lo = static_cast<i128>(std::numeric_limits<T>::min());
    static constexpr i128 hi = static_cast<i128>(std::numeric_limits<T>::max());
};
template <> struct Lim<nsum_t> {
    static constexpr i128 hi = static_cast<i128>(~static_cast<unsigned __int128>(0) >> 1);
    static constexpr i128 lo = -hi - 1;
};

template <class T> static auto values(Rng &rng, int extra) -> std::vector<i128> {
    std::set<i128> s;
    i128 lo = Lim<T>::lo;
    i128 hi = Lim<T>::hi;
    auto add = [&](i128 x) {
        if (x >= lo && x <= hi) { s.insert(x); }
    };
    int bits = static_cast<int>(sizeof(T)) * 8;
    for (int k = 0; k < bits - 1; ++k) {
        i128 p = static_cast<i128>(1) << k;
        for (int d : {-1, 0, 1}) {
            if ((k < 6 || k > bits - 6 || k % (bits / 8) == 0 || (k >= 29 && k <= 33)) || d == 0) {
                add(p + d);
                add(-(p + d));
            }
        }
    }
    for (int d = 0; d < 4; ++d) {
        add(hi - d);
        add(lo + d);
    }
    for (int m : {2, 3, 5, 7, 10}) {
        for (int d : {-1, 0, 1}) {
            add(hi / m + d);
            add(lo / m + d);
        }
    }
    for (int i = 0; i < extra; ++i) {
        auto u = (static_cast<unsigned __int128>(rng()) << 64) | rng();
        u >>= rng() % 127;
        add(static_cast<i128>(u) % (hi / 2 + 1));
        add(-(static_cast<i128>(u) % (hi / 2 + 1)));
    }
    return {s.begin(), s.end()};
}

// result of an operation or nothing if it throws
template <class F> static auto attempt(F f, i128 &res) -> bool {
    try {
        res = wide(f());
        return true;
    } catch (std::overflow_error const &) {
    } catch (std::underflow_error const &) {
    }
    return false;
}

template <class T, class F>
static void expect(char const *name, char const *ty, i128 a, i128 b, bool defined, i128 expected, F f, bool optional = false) {
    i128 got = 0;
    bool ok = attempt(f, got);
    rep.count(defined ? "exact" : "rejected");
    if (ok != defined && !(optional && !ok)) {
        rep.viol(std::string(name) + "/" + ty, std::string(name) + "<" + ty + ">(" + str(a) + ", " + str(b) + ")" +
                 (ok ? " returns " + str(got) + " but there is no result" : " is rejected but the result is " + str(expected)));
    } else if (ok && got != expected) {
        rep.viol(std::string(name) + "/" + ty, std::string(name) + "<" + ty + ">(" + str(a) + ", " + str(b) + ") returns " + str(got) +
                 " instead of " + str(expected));
    }
}

static auto fdiv(i128 a, i128 b) -> i128 {
    i128 q = a / b;
    if (a % b != 0 && ((a < 0) != (b < 0))) { --q; }
    return q;
}

static auto cdiv(i128 a, i128 b) -> i128 {
    i128 q = a / b;
    if (a % b != 0 && ((a < 0) == (b < 0))) { ++q; }
    return q;
}

template <class T> static void binary(char const *ty, i128 x, i128 y) {
    i128 lo = Lim<T>::lo;
    i128 hi = Lim<T>::hi;
    auto in = [&](i128 v) { return v >= lo && v <= hi; };
    T a = Make<T>::get(x);
    T b = Make<T>::get(y);
    i128 r = 0;
    bool o = __builtin_add_overflow(x, y, &r);
    expect<T>("safe_add", ty, x, y, !o && in(r), r, [&] { return safe_add<T>(a, b); });
    o = __builtin_sub_overflow(x, y, &r);
    expect<T>("safe_sub", ty, x, y, !o && in(r), r, [&] { return safe_sub<T>(a, b); });
    o = __builtin_mul_overflow(x, y, &r);
    expect<T>("safe_mul", ty, x, y, !o && in(r), r, [&] { return safe_mul<T>(a, b); });
    bool special = x == lo && y == -1;
    if (special || y == 0) {
        expect<T>("safe_div", ty, x, y, false, 0, [&] { return safe_div<T>(a, b); });
        // the remainder of the smallest number is zero but can be rejected, too
        expect<T>("safe_mod", ty, x, y, y != 0, 0, [&] { return safe_mod<T>(a, b); }, y != 0);
    } else {
        expect<T>("safe_div", ty, x, y, true, x / y, [&] { return safe_div<T>(a, b); });
        expect<T>("safe_mod", ty, x, y, true, x % y, [&] { return safe_mod<T>(a, b); });
        expect<T>("floordiv", ty, x, y, true, fdiv(x, y), [&] { return floordiv<T>(a, b); });
        expect<T>("ceildiv", ty, x, y, true, cdiv(x, y), [&] { return ceildiv<T>(a, b); });
    }
    if (y == 0) { expect<T>("safe_inv", ty, x, 0, x != lo, x == lo ? 0 : -x, [&] { return safe_inv<T>(a); }); }
}

template <class T> static void mid(char const *ty, i128 x, i128 y) {
    if (x <= y) {
        expect<T>("midpoint", ty, x, y, true, fdiv(x + y, 2), [&] { return midpoint<T>(Make<T>::get(x), Make<T>::get(y)); });
    }
}

template <class T, bool M> static void all(char const *ty, Rng &rng, int extra, int n) {
    auto vs = values<T>(rng, extra);
    for (auto x : vs) {
        for (auto y : vs) {
            binary<T>(ty, x, y);
            if constexpr (M) { mid<T>(ty, x, y); }
        }
    }
    // all pairs of small numbers
    for (int x = -40; x <= 40; ++x) {
        for (int y = -40; y <= 40; ++y) {
            binary<T>(ty, x, y);
            if constexpr (M) { mid<T>(ty, x, y); }
        }
    }
    // operands close to where an operation starts to overflow
    for (int i = 0; i < n; ++i) {
        i128 x = vs[rng() % vs.size()];
        auto u = (static_cast<unsigned __int128>(rng()) << 64) | rng();
        u >>= 1 + rng() % 127;
        i128 r = static_cast<i128>(u) % (Lim<T>::hi / 2 + 1) * (rng() % 2 == 0 ? 1 : -1);
        i128 y = r;
        i128 lim = rng() % 2 == 0 ? Lim<T>::hi : Lim<T>::lo;
        int k = static_cast<int>(rng() % 5) - 2;
        i128 t = 0;
        bool o = false;
        switch (rng() % 4) {
            case 0: if (r != 0 && r != -1) { x = lim / r; } o = __builtin_add_overflow(x, static_cast<i128>(k), &x); break;
            case 1: o = __builtin_sub_overflow(lim, r, &t) || __builtin_add_overflow(t, static_cast<i128>(k), &x); break;
            case 2: o = __builtin_add_overflow(lim, r, &t) || __builtin_add_overflow(t, static_cast<i128>(k), &x); break;
            default: break;
        }
        if (o || x < Lim<T>::lo || x > Lim<T>::hi) { continue; }
        binary<T>(ty, x, y);
        if constexpr (M) {
            mid<T>(ty, x, y);
            mid<T>(ty, y, x);
        }
    }
}

template <class T, class S> static void cast(char const *ty, Rng &rng) {
    std::set<i128> c;
    for (auto x : values<S>(rng, 20)) { c.insert(x); }
    for (auto x : values<T>(rng, 20)) {
        for (int d : {-1, 0, 1}) {
            if (x + d >= Lim<S>::lo && x + d <= Lim<S>::hi) { c.insert(x + d); }
        }
    }
    for (auto x : c) {
        expect<T>("safe_cast", ty, x, 0, x >= Lim<T>::lo && x <= Lim<T>::hi, x, [&] { return safe_cast<T, S>(Make<S>::get(x)); });
    }
}

template <class T> static void valid(char const *ty, Rng &rng) {
    std::set<i128> c;
    for (auto x : values<T>(rng, 100)) { c.insert(x); }
    i128 m = (static_cast<i128>(1) << 30) - 1;
    for (int d = -3; d <= 3; ++d) {
        c.insert(m + d);
        c.insert(-m + d);
    }
    for (auto x : c) {
        expect<T>("check_valid_value", ty, x, 0, x >= -m && x <= m, x, [&] { return check_valid_value<T>(Make<T>::get(x)); });
    }
}

int main(int argc, char **argv) {
    Rng rng(strtoull(argv[1], nullptr, 10));
    int n = atoi(argv[2]);
    std::string part = argc > 3 ? argv[3] : "";
    if (part.empty() || part == "int32") { all<int32_t, true>("int32", rng, 20, n); }
    if (part.empty() || part == "int64") { all<int64_t, true>("int64", rng, 20, n); }
    if (part.empty() || part == "int128") { all<nsum_t, false>("int128", rng, 20, n); }
    if (!part.empty() && part != "cast") {
        rep.done();
        return 0;
    }
    cast<int32_t, int64_t>("int32 from int64", rng);
    cast<int32_t, uint32_t>("int32 from uint32", rng);
    cast<int32_t, uint64_t>("int32 from uint64", rng);
    cast<int32_t, int32_t>("int32 from int32", rng);
    cast<int64_t, int32_t>("int64 from int32", rng);
    cast<int64_t, uint32_t>("int64 from uint32", rng);
    cast<int64_t, uint64_t>("int64 from uint64", rng);
    cast<uint32_t, int32_t>("uint32 from int32", rng);
    cast<uint32_t, int64_t>("uint32 from int64", rng);
    cast<uint32_t, uint64_t>("uint32 from uint64", rng);
    cast<uint64_t, int32_t>("uint64 from int32", rng);
    cast<uint64_t, int64_t>("uint64 from int64", rng);
    cast<uint64_t, uint32_t>("uint64 from uint32", rng);
    valid<int32_t>("int32", rng);
    valid<int64_t>("int64", rng);
    rep.done();
}
