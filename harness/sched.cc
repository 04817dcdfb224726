// Perturbs and records schedules: delays callbacks of the propagator and records how calls of solver threads interleave.
//
// VERIF_JITTER=<level>,<seed>: 0 record only, 1 yields, 2 short sleeps, 3 one thread is slow, 4 the first thread starts late,
// 5 all threads pause around every callback of checks and undos.
//
// Note: only relaxed atomics and thread specific data are used because everything else would hide data races.
#include <clingo.hh>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sched.h>
#include <string>
#include <thread>
#include <vector>

extern "C" bool __real_clingo_control_register_propagator(clingo_control_t *, clingo_propagator_t const *, void *, bool);

void verif_record(bool on);
std::string verif_report(bool stats);

namespace {

constexpr size_t LIMIT = 20000;

struct alignas(128) Thread {
    std::vector<uint32_t> log;
    uint64_t calls = 0;
    uint64_t rng = 0;
};

struct Prop {
    clingo_propagator_t prop;
    void *data;
};

Thread threads[64];
std::atomic<uint32_t> order{0};
std::atomic<uint32_t> others{0};
int level = 0;
uint64_t seed = 0;

uint64_t next(uint64_t &s) {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

void nap(unsigned us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }

void enter(clingo_id_t id, bool rare) {
    if (id >= 64) return;
    auto &t = threads[id];
    if (t.calls++ == 0 && t.rng == 0) t.rng = seed * 64 + id + 1;
    auto o = order.fetch_add(1, std::memory_order_relaxed);
    if (id != 0) others.fetch_add(1, std::memory_order_relaxed);
    if (t.log.size() < LIMIT) t.log.push_back(o);
    auto x = next(t.rng);
    switch (level) {
        case 1: {
            if (x % 3 == 0) sched_yield();
            break;
        }
        case 2: {
            if (x % 16 == 0) nap(x >> 32 & 127);
            break;
        }
        case 3: {
            if (id == seed % 4 && x % 4 == 0) nap(x >> 32 & 255);
            break;
        }
        case 4: {
            // wait until other threads did something but not for too long
            if (id == 0 && t.calls < 6) {
                auto n = others.load(std::memory_order_relaxed);
                for (int i = 0; i < 20 && others.load(std::memory_order_relaxed) < n + 8; ++i) nap(100);
            }
            break;
        }
        case 5: {
            if (rare && x % 2 == 0) nap(x >> 32 & 63);
            break;
        }
        default: {
            break;
        }
    }
}

bool init(clingo_propagate_init_t *init, void *data) {
    auto *p = static_cast<Prop *>(data);
    return p->prop.init(init, p->data);
}

bool propagate(clingo_propagate_control_t *ctl, clingo_literal_t const *changes, size_t size, void *data) {
    auto *p = static_cast<Prop *>(data);
    enter(clingo_propagate_control_thread_id(ctl), false);
    return p->prop.propagate(ctl, changes, size, p->data);
}

void undo(clingo_propagate_control_t const *ctl, clingo_literal_t const *changes, size_t size, void *data) {
    auto *p = static_cast<Prop *>(data);
    enter(clingo_propagate_control_thread_id(ctl), true);
    p->prop.undo(ctl, changes, size, p->data);
}

bool check(clingo_propagate_control_t *ctl, void *data) {
    auto *p = static_cast<Prop *>(data);
    enter(clingo_propagate_control_thread_id(ctl), true);
    return p->prop.check(ctl, p->data);
}

bool decide(clingo_id_t id, clingo_assignment_t const *ass, clingo_literal_t fallback, void *data, clingo_literal_t *decision) {
    auto *p = static_cast<Prop *>(data);
    enter(id, false);
    return p->prop.decide(id, ass, fallback, p->data, decision);
}

} // namespace

extern "C" bool __wrap_clingo_control_register_propagator(clingo_control_t *ctl, clingo_propagator_t const *prop, void *data,
                                                          bool sequential) {
    if (auto const *e = std::getenv("VERIF_JITTER")) {
        level = std::atoi(e);
        auto const *c = std::strchr(e, ',');
        seed = c != nullptr ? std::strtoull(c + 1, nullptr, 10) : 0;
    }
    // Note: never freed because the control uses it until it is destroyed
    auto *p = new Prop{*prop, data};
    clingo_propagator_t w{};
    if (prop->init != nullptr) w.init = init;
    if (prop->propagate != nullptr) w.propagate = propagate;
    if (prop->undo != nullptr) w.undo = undo;
    if (prop->check != nullptr) w.check = check;
    if (prop->decide != nullptr) w.decide = decide;
    return __real_clingo_control_register_propagator(ctl, &w, p, sequential);
}

void verif_record(bool) {}

// Called after each search; no solver thread is running.
std::string verif_report(bool) {
    std::vector<std::pair<uint32_t, unsigned char>> all;
    uint64_t calls = 0;
    unsigned active = 0;
    for (unsigned i = 0; i < 64; ++i) {
        for (auto o : threads[i].log) all.emplace_back(o, static_cast<unsigned char>(i));
        calls += threads[i].calls;
        if (threads[i].calls > 0) ++active;
        threads[i].log.clear();
        threads[i].calls = 0;
    }
    std::sort(all.begin(), all.end());
    uint64_t hash = 1469598103934665603ULL;
    size_t switches = 0;
    for (size_t i = 0; i < all.size(); ++i) {
        hash = (hash ^ all[i].second) * 1099511628211ULL;
        if (i > 0 && all[i].second != all[i - 1].second) ++switches;
    }
    order = 0;
    char buf[160];
    std::snprintf(buf, sizeof buf, ",\"sched\":[%llu,%u,%zu,\"%016llx\"]", static_cast<unsigned long long>(calls), active, switches,
                  static_cast<unsigned long long>(hash));
    return buf;
}
