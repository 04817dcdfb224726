// Makes symbol creation safe for concurrently used controls.
//
// clingo's symbol table is not protected against concurrent use (plain clingo crashes if symbols are created in
// several threads), so scripts that run concurrently have to serialize everything that creates symbols. Linked with
// --wrap, the functions below do this for clingcon's calls during search; the driver does it for its own operations.
#include <clingo.hh>
#include <mutex>

std::recursive_mutex &verif_serial() {
    static std::recursive_mutex m;
    return m;
}

using Guard = std::lock_guard<std::recursive_mutex>;

extern "C" {
void __real_clingo_symbol_create_number(int number, clingo_symbol_t *symbol);
void __real_clingo_symbol_create_supremum(clingo_symbol_t *symbol);
void __real_clingo_symbol_create_infimum(clingo_symbol_t *symbol);
bool __real_clingo_symbol_create_string(char const *string, clingo_symbol_t *symbol);
bool __real_clingo_symbol_create_id(char const *name, bool positive, clingo_symbol_t *symbol);
bool __real_clingo_symbol_create_function(char const *name, clingo_symbol_t const *arguments, size_t arguments_size,
                                          bool positive, clingo_symbol_t *symbol);
bool __real_clingo_add_string(char const *string, char const **result);
bool __real_clingo_parse_term(char const *string, clingo_logger_t logger, void *data, unsigned limit,
                              clingo_symbol_t *symbol);

void __wrap_clingo_symbol_create_number(int number, clingo_symbol_t *symbol) {
    Guard g{verif_serial()};
    __real_clingo_symbol_create_number(number, symbol);
}
void __wrap_clingo_symbol_create_supremum(clingo_symbol_t *symbol) {
    Guard g{verif_serial()};
    __real_clingo_symbol_create_supremum(symbol);
}
void __wrap_clingo_symbol_create_infimum(clingo_symbol_t *symbol) {
    Guard g{verif_serial()};
    __real_clingo_symbol_create_infimum(symbol);
}
bool __wrap_clingo_symbol_create_string(char const *string, clingo_symbol_t *symbol) {
    Guard g{verif_serial()};
    return __real_clingo_symbol_create_string(string, symbol);
}
bool __wrap_clingo_symbol_create_id(char const *name, bool positive, clingo_symbol_t *symbol) {
    Guard g{verif_serial()};
    return __real_clingo_symbol_create_id(name, positive, symbol);
}
bool __wrap_clingo_symbol_create_function(char const *name, clingo_symbol_t const *arguments, size_t arguments_size,
                                          bool positive, clingo_symbol_t *symbol) {
    Guard g{verif_serial()};
    return __real_clingo_symbol_create_function(name, arguments, arguments_size, positive, symbol);
}
bool __wrap_clingo_add_string(char const *string, char const **result) {
    Guard g{verif_serial()};
    return __real_clingo_add_string(string, result);
}
bool __wrap_clingo_parse_term(char const *string, clingo_logger_t logger, void *data, unsigned limit,
                              clingo_symbol_t *symbol) {
    Guard g{verif_serial()};
    return __real_clingo_parse_term(string, logger, data, limit, symbol);
}
}

// clasp registers the types of its statistics objects upon first use in a table shared by all controls without
// protecting it. Uses all of them once before scripts run concurrently.
static void walk(clingo_statistics_t const *stats, uint64_t key) {
    clingo_statistics_type_t type = 0;
    if (!clingo_statistics_type(stats, key, &type)) return;
    size_t n = 0;
    uint64_t sub = 0;
    if (type == clingo_statistics_type_array && clingo_statistics_array_size(stats, key, &n)) {
        for (size_t i = 0; i < n; ++i) {
            if (clingo_statistics_array_at(stats, key, i, &sub)) walk(stats, sub);
        }
    } else if (type == clingo_statistics_type_map && clingo_statistics_map_size(stats, key, &n)) {
        for (size_t i = 0; i < n; ++i) {
            char const *name = nullptr;
            if (clingo_statistics_map_subkey_name(stats, key, i, &name) &&
                clingo_statistics_map_at(stats, key, name, &sub)) {
                walk(stats, sub);
            }
        }
    } else {
        double value = 0;
        clingo_statistics_value_get(stats, key, &value);
    }
}

void verif_warmup() {
    static bool done = false;
    if (done) return;
    done = true;
    char const *args[] = {"--stats=2", "-t2", "0"};
    clingo_control_t *ctl = nullptr;
    if (!clingo_control_new(args, 3, nullptr, nullptr, 20, &ctl)) return;
    clingo_part_t part{"base", nullptr, 0};
    clingo_solve_handle_t *handle = nullptr;
    clingo_solve_result_bitset_t result = 0;
    clingo_statistics_t const *stats = nullptr;
    uint64_t root = 0;
    for (int i = 0; i < 2; ++i) {
        if (clingo_control_add(ctl, "base", nullptr, 0,
                               "{a;b;c;d}. :- a, b. #minimize{1@2,x:a; 1,y:b}. p:-q,a. q:-p. q:-b. r;s:-a. r:-s. s:-r.") &&
            clingo_control_ground(ctl, &part, 1, nullptr, nullptr) &&
            clingo_control_solve(ctl, 0, nullptr, 0, nullptr, nullptr, &handle)) {
            clingo_solve_handle_get(handle, &result);
            clingo_solve_handle_close(handle);
            if (clingo_control_statistics(ctl, &stats) && clingo_statistics_root(stats, &root)) walk(stats, root);
        }
    }
    clingo_control_free(ctl);
}
