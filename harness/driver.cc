// Job driver: runs scripted histories of clingcon C API calls and reports what was observed.
// Only the public C interface of clingcon (clingcon.h) and clingo is used here.
//
// Input (stdin or file): one command per line, arguments percent-encoded and separated by blanks.
// Output: one JSON object per line. Each job runs in a forked child, so that a crash, sanitizer
// report, abort or hang is attributed to exactly one job.
#include <clingcon.h>
#include <clingo.hh>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

using Args = std::vector<std::string>;

// Implemented by the monitor if it is linked.
__attribute__((weak)) void verif_record(bool on);
__attribute__((weak)) std::string verif_report(bool stats);
// Command line applications; implemented if they are linked.
__attribute__((weak)) int verif_opt_main(std::vector<std::pair<std::string, std::string>> const &conf, int argc, char **argv,
                                         std::string &report);
__attribute__((weak)) int verif_app_main(int argc, char **argv);
// Implemented if concurrent scripts have to be serialized outside of searches.
__attribute__((weak)) std::recursive_mutex &verif_serial();
// Prepares the process for scripts that run concurrently.
__attribute__((weak)) void verif_warmup();

static std::string esc(std::string const &s) {
    std::string r;
    r.reserve(s.size() + 2);
    r += '"';
    for (unsigned char c : s) {
        switch (c) {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            default:
                if (c < 0x20 || c >= 0x7f) {
                    char b[8];
                    std::snprintf(b, sizeof b, "\\u%04x", c);
                    r += b;
                } else {
                    r += static_cast<char>(c);
                }
        }
    }
    r += '"';
    return r;
}

static std::string dec(std::string const &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        } else {
            r += s[i];
        }
    }
    return r;
}

static Args split(std::string const &line) {
    Args r;
    std::istringstream iss(line);
    std::string t;
    while (iss >> t) {
        r.push_back(t == "%" ? std::string() : dec(t));
    }
    return r;
}

struct Out {
    int fd = 1;
    std::mutex m;
    void line(std::string s) {
        std::lock_guard<std::mutex> g(m);
        s += '\n';
        char const *p = s.data();
        size_t n = s.size();
        while (n > 0) {
            auto k = ::write(fd, p, n);
            if (k <= 0) {
                if (errno == EINTR) continue;
                _exit(97);
            }
            p += k;
            n -= k;
        }
    }
};
static Out out;

struct Theory {
    clingcon_theory_t *t = nullptr;
};

static std::string symstr(Clingo::Symbol s) { return s.to_string(); }

// Iterates the assignment as the documentation prescribes.
static std::string assignment(clingcon_theory_t *t, uint32_t thread) {
    std::ostringstream oss;
    oss << "[";
    size_t index;
    bool sep = false;
    int guard = 0;
    clingcon_assignment_begin(t, thread, &index);
    while (clingcon_assignment_next(t, thread, &index)) {
        if (++guard > 100000) {
            oss << (sep ? "," : "") << "[\"!runaway\",0,0,0]";
            break;
        }
        bool has = clingcon_assignment_has_value(t, thread, index);
        if (sep) oss << ",";
        sep = true;
        if (!has) {
            oss << "[\"!novalue\"," << index << ",0,0]";
            continue;
        }
        clingcon_value_t val;
        std::memset(&val, 0x5a, sizeof val);
        clingcon_assignment_get_value(t, thread, index, &val);
        clingo_symbol_t sym = clingcon_get_symbol(t, index);
        size_t back = 0;
        bool found = clingcon_lookup_symbol(t, sym, &back);
        oss << "[" << esc(symstr(Clingo::Symbol{sym})) << "," << val.int_number << ","
            << (val.type == clingcon_value_type_int ? 1 : 0) << "," << (found && back == index ? 1 : 0) << "]";
    }
    oss << "]";
    return oss.str();
}

static void stat_json(std::ostringstream &oss, Clingo::Statistics s) {
    switch (s.type()) {
        case Clingo::StatisticsType::Value: {
            double v = s.value();
            if (v != v) oss << "\"nan\"";
            else if (v > 1e300) oss << "1e300";
            else { oss.precision(17); oss << v; }
            break;
        }
        case Clingo::StatisticsType::Array: {
            oss << "[";
            for (size_t i = 0, n = s.size(); i < n; ++i) {
                if (i) oss << ",";
                stat_json(oss, s.at(i));
            }
            oss << "]";
            break;
        }
        case Clingo::StatisticsType::Map: {
            oss << "{";
            bool sep = false;
            for (auto key : s.keys()) {
                if (sep) oss << ",";
                sep = true;
                oss << esc(key) << ":";
                stat_json(oss, s[key]);
            }
            oss << "}";
            break;
        }
        default: oss << "null";
    }
}

struct Ctx {
    std::map<std::string, Theory> theories;
    std::map<std::string, std::unique_ptr<Clingo::Control>> controls;
    std::map<std::string, std::vector<std::pair<Clingo::Symbol, bool>>> assume;
    std::map<std::string, std::shared_ptr<std::vector<std::string>>> logs;
    std::mutex m;
};


struct Handler {
    std::vector<clingcon_theory_t *> ts;
    std::string jid;
    int op = 0;
    int64_t limit = -1, throwat = -1, maxout = 200000;
    bool quiet = false;
    bool stats = true;
    bool noassign = false;
    int delay_us = 0;
    std::atomic<int64_t> n{0};
    int finished = 0;
    int result = -1;

    void model(clingo_model_t *cm, bool &go) {
        for (auto *t : ts) {
            Clingo::Detail::handle_error(clingcon_on_model(t, cm));
        }
        Clingo::Model m{cm};
        ++n;
        if (!quiet && n <= maxout) {
            std::ostringstream oss;
            oss << "{\"j\":" << esc(jid) << ",\"o\":" << op << ",\"m\":{\"t\":" << m.thread_id()
                << ",\"n\":" << m.number() << ",\"p\":" << (m.optimality_proven() ? 1 : 0) << ",\"k\":"
                << static_cast<int>(m.type()) << ",\"c\":[";
            bool sep = false;
            for (auto c : m.cost()) {
                oss << (sep ? "," : "") << c;
                sep = true;
            }
            oss << "],\"a\":[";
            sep = false;
            auto syms = m.symbols(Clingo::ShowType::Atoms);
            std::sort(syms.begin(), syms.end());
            for (auto &s : syms) {
                oss << (sep ? "," : "") << esc(symstr(s));
                sep = true;
            }
            oss << "],\"th\":[";
            sep = false;
            auto th = m.symbols(Clingo::ShowType::Theory);
            std::sort(th.begin(), th.end());
            for (auto &s : th) {
                oss << (sep ? "," : "") << esc(symstr(s));
                sep = true;
            }
            oss << "],\"s\":[";
            sep = false;
            auto ss = m.symbols(Clingo::ShowType::Terms);
            std::sort(ss.begin(), ss.end());
            for (auto &s : ss) {
                oss << (sep ? "," : "") << esc(symstr(s));
                sep = true;
            }
            oss << "],\"v\":[";
            if (!noassign) {
                sep = false;
                for (auto *t : ts) {
                    oss << (sep ? "," : "") << assignment(t, m.thread_id());
                    sep = true;
                }
            }
            oss << "]}}";
            out.line(oss.str());
        }
        if (delay_us > 0) std::this_thread::sleep_for(std::chrono::microseconds(delay_us));
        if (throwat >= 0 && n >= throwat) throw std::runtime_error("callback failure injected by driver");
        go = !(limit >= 0 && n >= limit);
    }
    static bool event(clingo_solve_event_type_t type, void *ev, void *data, bool *go) {
        auto &self = *static_cast<Handler *>(data);
        try {
            *go = true;
            switch (type) {
                case clingo_solve_event_type_model: self.model(static_cast<clingo_model_t *>(ev), *go); break;
                case clingo_solve_event_type_statistics: {
                    if (!self.stats) break;
                    auto **st = static_cast<clingo_statistics_t **>(ev);
                    for (auto *t : self.ts) {
                        Clingo::Detail::handle_error(clingcon_on_statistics(t, st[0], st[1]));
                    }
                    break;
                }
                case clingo_solve_event_type_finish:
                    self.finished++;
                    self.result = *static_cast<clingo_solve_result_bitset_t *>(ev);
                    break;
                default: break;
            }
        } catch (...) {
            Clingo::Detail::handle_cxx_error();
            return false;
        }
        return true;
    }
};

struct Log {
    std::vector<std::string> msgs;
    std::mutex m;
    static void cb(clingo_warning_t, char const *msg, void *data) {
        auto *l = static_cast<Log *>(data);
        std::lock_guard<std::mutex> g(l->m);
        if (l->msgs.size() < 20) l->msgs.emplace_back(msg);
    }
};

struct Control {
    clingo_control_t *c = nullptr;
    std::unique_ptr<Log> log;
};

struct Env {
    std::mutex m;
    std::map<std::string, clingcon_theory_t *> theories;
    std::map<std::string, Control> controls;
    std::map<std::string, std::vector<std::pair<Clingo::Symbol, bool>>> assume;
};

static std::string slurp(std::string const &path) {
    std::ifstream f(path, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

static std::string scratch; // prefix for files of a job

// Operations of one (sequential) script.
class Runner {
  public:
    Runner(Env &env, std::string jid) : env_{env}, jid_{std::move(jid)} {}

    // returns false if the operation failed
    bool run(int op, Args const &a) {
        op_ = op;
        extra_.clear();
        try {
            std::unique_lock<std::recursive_mutex> lock;
            if (verif_serial != nullptr && a[0] != "solve" && a[0] != "sleep") {
                lock = std::unique_lock<std::recursive_mutex>{verif_serial()};
            }
            exec(a);
        } catch (std::exception const &e) {
            report(a[0], false, e.what());
            return false;
        }
        report(a[0], true, "");
        return true;
    }

  private:
    void report(std::string const &name, bool ok, std::string const &err) {
        std::string s = "{\"j\":" + esc(jid_) + ",\"o\":" + std::to_string(op_) + ",\"op\":" + esc(name) +
                        ",\"ok\":" + (ok ? "1" : "0");
        if (!ok) s += ",\"err\":" + esc(err);
        s += extra_;
        s += "}";
        out.line(s);
    }
    static void chk(bool x) { Clingo::Detail::handle_error(x); }
    clingcon_theory_t *th(std::string const &k) {
        std::lock_guard<std::mutex> g(env_.m);
        auto it = env_.theories.find(k);
        if (it == env_.theories.end()) throw std::logic_error("DRIVER no theory " + k);
        return it->second;
    }
    clingo_control_t *ctl(std::string const &k) {
        std::lock_guard<std::mutex> g(env_.m);
        auto it = env_.controls.find(k);
        if (it == env_.controls.end()) throw std::logic_error("DRIVER no control " + k);
        return it->second.c;
    }
    Log *log(std::string const &k) {
        std::lock_guard<std::mutex> g(env_.m);
        return env_.controls[k].log.get();
    }
    struct Build {
        clingo_program_builder_t *b;
        clingcon_theory_t *t;
        int n = 0;
        std::vector<std::string> *dump = nullptr;
    };
    static bool add_stm(clingo_ast_t *ast, void *data) {
        auto *b = static_cast<Build *>(data);
        b->n++;
        if (b->dump) {
            size_t sz = 0;
            if (!clingo_ast_to_string_size(ast, &sz)) return false;
            std::string s(sz, '\0');
            if (!clingo_ast_to_string(ast, &s[0], sz)) return false;
            s.resize(sz ? sz - 1 : 0);
            b->dump->push_back(s);
        }
        return clingo_program_builder_add(b->b, ast);
    }
    static bool rewrite_stm(clingo_ast_t *ast, void *data) {
        auto *b = static_cast<Build *>(data);
        return clingcon_rewrite_ast(b->t, ast, add_stm, data);
    }
    // Adds a program; with files == false, a string.
    void text(clingcon_theory_t *t, clingo_control_t *c, Log *lg, std::string const &prg, bool dump) {
        clingo_program_builder_t *b = nullptr;
        chk(clingo_program_builder_init(c, &b));
        Build data{b, t};
        std::vector<std::string> stms;
        if (dump) data.dump = &stms;
        chk(clingo_program_builder_begin(b));
        bool ok = clingo_ast_parse_string(prg.c_str(), rewrite_stm, &data, nullptr, Log::cb, lg, 20);
        int code = clingo_error_code();
        std::string msg = ok ? "" : (clingo_error_message() ? clingo_error_message() : "");
        bool ok2 = clingo_program_builder_end(b);
        if (dump) {
            extra_ += ",\"stms\":[";
            for (size_t i = 0; i < stms.size(); ++i) extra_ += (i ? "," : "") + esc(stms[i]);
            extra_ += "]";
        }
        if (!ok) throw std::runtime_error(msg.empty() ? "parse failed " + std::to_string(code) : msg);
        chk(ok2);
    }
    clingo_id_t conf_key(clingo_configuration_t *conf, std::string const &path) {
        clingo_id_t key;
        chk(clingo_configuration_root(conf, &key));
        std::istringstream iss(path);
        std::string part;
        while (std::getline(iss, part, '.')) {
            clingo_configuration_type_bitset_t type;
            chk(clingo_configuration_type(conf, key, &type));
            if (type & clingo_configuration_type_array && !part.empty() && isdigit(part[0])) {
                chk(clingo_configuration_array_at(conf, key, std::stoi(part), &key));
            } else {
                chk(clingo_configuration_map_at(conf, key, part.c_str(), &key));
            }
        }
        return key;
    }
    void solve(Args const &a) {
        // solve <theories,comma> <control> k=v...
        Handler h;
        h.jid = jid_;
        h.op = op_;
        {
            std::istringstream iss(a[1]);
            std::string k;
            while (std::getline(iss, k, ',')) h.ts.push_back(th(k));
        }
        auto *c = ctl(a[2]);
        unsigned mode = 0;
        long cancel_us = -1;
        long interrupt_models = -1;
        long cancel_models = 0;
        int yield_limit = -1;
        bool yield = false;
        for (size_t i = 3; i < a.size(); ++i) {
            auto p = a[i].find('=');
            auto k = a[i].substr(0, p);
            auto v = p == std::string::npos ? std::string("1") : a[i].substr(p + 1);
            if (k == "limit") h.limit = std::stoll(v);
            else if (k == "throw") h.throwat = std::stoll(v);
            else if (k == "quiet") h.quiet = std::stoi(v) != 0;
            else if (k == "nostats") h.stats = false;
            else if (k == "noassign") h.noassign = true;
            else if (k == "delay") h.delay_us = std::stoi(v);
            else if (k == "maxout") h.maxout = std::stoll(v);
            else if (k == "async") mode |= clingo_solve_mode_async;
            else if (k == "cancel") { cancel_us = std::stol(v); mode |= clingo_solve_mode_async; }
            else if (k == "cancelat") cancel_models = std::stol(v);
            else if (k == "interrupt") interrupt_models = std::stol(v);
            else if (k == "yield") { yield = true; mode |= clingo_solve_mode_yield; yield_limit = std::stoi(v); }
            else throw std::logic_error("DRIVER solve arg " + k);
        }
        std::vector<clingo_literal_t> lits;
        {
            std::unique_lock<std::mutex> g(env_.m);
            auto as = env_.assume[a[2]];
            g.unlock();
            clingo_symbolic_atoms_t const *atoms;
            chk(clingo_control_symbolic_atoms(c, &atoms));
            for (auto &[sym, sign] : as) {
                clingo_symbolic_atom_iterator_t it;
                chk(clingo_symbolic_atoms_find(atoms, sym.to_c(), &it));
                bool valid;
                chk(clingo_symbolic_atoms_is_valid(atoms, it, &valid));
                if (!valid) {
                    // an atom that does not exist is false
                    if (sign) lits.push_back(1), lits.push_back(-1);
                    continue;
                }
                clingo_literal_t l;
                chk(clingo_symbolic_atoms_literal(atoms, it, &l));
                lits.push_back(sign ? l : -l);
            }
        }
        std::atomic<bool> done{false};
        std::thread killer;
        if (interrupt_models >= 0) {
            killer = std::thread([&]() {
                while (!done && h.n < interrupt_models) std::this_thread::sleep_for(std::chrono::microseconds(50));
                if (!done) clingo_control_interrupt(c);
            });
        }
        clingo_solve_handle_t *hd = nullptr;
        bool ok = clingo_control_solve(c, mode, lits.data(), lits.size(), Handler::event, &h, &hd);
        std::string err;
        clingo_solve_result_bitset_t res = 0;
        auto seterr = [&]() {
            if (err.empty()) {
                err = clingo_error_message() ? clingo_error_message() : "unknown";
            }
        };
        if (!ok) {
            seterr();
        } else {
            if (yield) {
                int k = 0;
                for (;;) {
                    clingo_model_t const *m = nullptr;
                    if (!clingo_solve_handle_resume(hd)) { seterr(); break; }
                    if (!clingo_solve_handle_model(hd, &m)) { seterr(); break; }
                    if (!m) break;
                    if (yield_limit >= 0 && ++k >= yield_limit) break;
                }
            } else if (cancel_us >= 0) {
                bool fin = false;
                while (!fin && h.n < cancel_models) clingo_solve_handle_wait(hd, 5e-5, &fin);
                if (!fin) clingo_solve_handle_wait(hd, cancel_us / 1e6, &fin);
                if (!clingo_solve_handle_cancel(hd)) seterr();
            }
            if (!yield || yield_limit < 0) {
                if (!clingo_solve_handle_get(hd, &res)) seterr();
            }
            // Note: an interrupt must not hit a later search
            done = true;
            if (killer.joinable()) killer.join();
            if (!clingo_solve_handle_close(hd)) seterr();
        }
        done = true;
        if (killer.joinable()) killer.join();
        extra_ += ",\"n\":" + std::to_string(h.n.load()) + ",\"res\":" + std::to_string(res) +
                  ",\"fin\":" + std::to_string(h.finished) + ",\"finres\":" + std::to_string(h.result);
        if (verif_report != nullptr) extra_ += verif_report(false);
        {
            std::lock_guard<std::mutex> g(env_.m);
            env_.assume[a[2]].clear();
        }
        if (!err.empty()) throw std::runtime_error(err);
    }

    // app <opt|main> <number of pairs> <key> <value> ... <arguments>; arguments @x refer to files
    void app(Args const &a) {
        std::vector<std::pair<std::string, std::string>> conf;
        size_t n = std::stoul(a[2]), i = 3;
        for (; n > 0; --n, i += 2) conf.emplace_back(a.at(i), a.at(i + 1));
        std::vector<std::string> args{"clingcon"};
        for (; i < a.size(); ++i) args.push_back(a[i][0] == '@' ? scratch + a[i].substr(1) : a[i]);
        std::vector<char *> argv;
        for (auto &x : args) argv.push_back(&x[0]);
        argv.push_back(nullptr);
        int argc = static_cast<int>(args.size());
        std::fflush(nullptr);
        std::string so = scratch + "stdout", se = scratch + "stderr";
        int o1 = dup(1), o2 = dup(2);
        if (int f = ::open((scratch + "stdin").c_str(), O_RDONLY); f >= 0) {
            dup2(f, 0);
            close(f);
        }
        for (int fd : {1, 2}) {
            int f = ::open(fd == 1 ? so.c_str() : se.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
            dup2(f, fd);
            close(f);
        }
        std::string rep;
        int rc = a[1] == "opt" ? verif_opt_main(conf, argc, argv.data(), rep) : verif_app_main(argc, argv.data());
        std::fflush(nullptr);
        std::cout.flush();
        dup2(o1, 1);
        dup2(o2, 2);
        extra_ += ",\"rc\":" + std::to_string(rc) + ",\"out\":" + esc(slurp(so)) + ",\"errout\":" + esc(slurp(se).substr(0, 4000)) + rep;
    }

    void exec(Args const &a) {
        auto const &cmd = a[0];
        if (cmd == "new") {
            std::vector<char const *> args;
            for (size_t i = 2; i < a.size(); ++i) args.push_back(a[i].c_str());
            Control c;
            c.log = std::make_unique<Log>();
            chk(clingo_control_new(args.data(), args.size(), Log::cb, c.log.get(), 20, &c.c));
            std::lock_guard<std::mutex> g(env_.m);
            env_.controls[a[1]] = std::move(c);
        } else if (cmd == "theory") {
            clingcon_theory_t *t = nullptr;
            chk(clingcon_create(&t));
            std::lock_guard<std::mutex> g(env_.m);
            env_.theories[a[1]] = t;
        } else if (cmd == "conf") {
            chk(clingcon_configure(th(a[1]), a[2].c_str(), a[3].c_str()));
        } else if (cmd == "validate") {
            chk(clingcon_validate_options(th(a[1])));
        } else if (cmd == "reg") {
            chk(clingcon_register(th(a[1]), ctl(a[2])));
        } else if (cmd == "text" || cmd == "dump") {
            text(th(a[1]), ctl(a[2]), log(a[2]), a[3], cmd == "dump");
        } else if (cmd == "raw") {
            chk(clingo_control_add(ctl(a[1]), "base", nullptr, 0, a[2].c_str()));
        } else if (cmd == "load") {
            chk(clingo_control_load(ctl(a[1]), a[2].c_str()));
        } else if (cmd == "ground") {
            // ground <ctl> part[:int[:int...]] ...
            std::vector<std::vector<clingo_symbol_t>> params;
            std::vector<std::string> names;
            for (size_t i = 2; i < a.size(); ++i) {
                std::istringstream iss(a[i]);
                std::string p;
                std::getline(iss, p, ':');
                names.push_back(p);
                params.emplace_back();
                while (std::getline(iss, p, ':')) {
                    clingo_symbol_t s;
                    clingo_symbol_create_number(std::stoi(p), &s);
                    params.back().push_back(s);
                }
            }
            std::vector<clingo_part_t> parts;
            for (size_t i = 0; i < names.size(); ++i) {
                parts.push_back(clingo_part_t{names[i].c_str(), params[i].data(), params[i].size()});
            }
            chk(clingo_control_ground(ctl(a[1]), parts.data(), parts.size(), nullptr, nullptr));
        } else if (cmd == "prepare") {
            chk(clingcon_prepare(th(a[1]), ctl(a[2])));
        } else if (cmd == "ext") {
            auto sym = Clingo::parse_term(a[2].c_str());
            auto *c = ctl(a[1]);
            clingo_symbolic_atoms_t const *atoms;
            chk(clingo_control_symbolic_atoms(c, &atoms));
            clingo_symbolic_atom_iterator_t it;
            chk(clingo_symbolic_atoms_find(atoms, sym.to_c(), &it));
            bool valid;
            chk(clingo_symbolic_atoms_is_valid(atoms, it, &valid));
            if (valid) {
                clingo_literal_t l;
                chk(clingo_symbolic_atoms_literal(atoms, it, &l));
                if (a[3] == "r") chk(clingo_control_release_external(c, l));
                else
                    chk(clingo_control_assign_external(c, l,
                                                       a[3] == "t"   ? clingo_truth_value_true
                                                       : a[3] == "u" ? clingo_truth_value_free
                                                                     : clingo_truth_value_false));
            }
        } else if (cmd == "assume") {
            auto sym = Clingo::parse_term(a[2].c_str());
            std::lock_guard<std::mutex> g(env_.m);
            env_.assume[a[1]].emplace_back(sym, a[3] == "t");
        } else if (cmd == "cfg") {
            clingo_configuration_t *conf;
            chk(clingo_control_configuration(ctl(a[1]), &conf));
            chk(clingo_configuration_value_set(conf, conf_key(conf, a[2]), a[3].c_str()));
        } else if (cmd == "cfgget") {
            clingo_configuration_t *conf;
            chk(clingo_control_configuration(ctl(a[1]), &conf));
            auto k = conf_key(conf, a[2]);
            size_t sz;
            chk(clingo_configuration_value_get_size(conf, k, &sz));
            std::string v(sz, '\0');
            chk(clingo_configuration_value_get(conf, k, &v[0], sz));
            v.resize(sz - 1);
            extra_ += ",\"val\":" + esc(v);
        } else if (cmd == "solve") {
            solve(a);
        } else if (cmd == "stats") {
            clingo_statistics_t const *st;
            chk(clingo_control_statistics(ctl(a[1]), &st));
            uint64_t root;
            chk(clingo_statistics_root(st, &root));
            std::ostringstream oss;
            Clingo::Statistics s{st, root};
            oss << ",\"stats\":{\"user_step\":";
            bool ut = false;
            clingo_statistics_map_has_subkey(st, root, "user_step", &ut);
            if (ut) stat_json(oss, s["user_step"]); else oss << "null";
            clingo_statistics_map_has_subkey(st, root, "user_accu", &ut);
            oss << ",\"user_accu\":";
            if (ut) stat_json(oss, s["user_accu"]); else oss << "null";
            oss << ",\"summary\":";
            stat_json(oss, s["summary"]);
            oss << "}";
            extra_ += oss.str();
            if (verif_report != nullptr) extra_ += verif_report(true);
        } else if (cmd == "record") {
            if (verif_record == nullptr) throw std::logic_error("DRIVER no monitor");
            verif_record(true);
        } else if (cmd == "lookup") {
            auto sym = Clingo::parse_term(a[2].c_str());
            size_t idx = 0;
            bool f = clingcon_lookup_symbol(th(a[1]), sym.to_c(), &idx);
            extra_ += std::string(",\"found\":") + (f ? "1" : "0") + ",\"idx\":" + std::to_string(idx);
            if (f) {
                extra_ += ",\"sym\":" + esc(symstr(Clingo::Symbol{clingcon_get_symbol(th(a[1]), idx)}));
            }
        } else if (cmd == "assign") {
            extra_ += ",\"v\":" + assignment(th(a[1]), std::stoul(a[2]));
        } else if (cmd == "tatoms") {
            clingo_theory_atoms_t const *ta;
            chk(clingo_control_theory_atoms(ctl(a[1]), &ta));
            size_t n;
            chk(clingo_theory_atoms_size(ta, &n));
            extra_ += ",\"atoms\":[";
            for (size_t i = 0; i < n; ++i) {
                size_t sz;
                chk(clingo_theory_atoms_atom_to_string_size(ta, i, &sz));
                std::string s(sz, '\0');
                chk(clingo_theory_atoms_atom_to_string(ta, i, &s[0], sz));
                s.resize(sz - 1);
                extra_ += (i ? "," : "") + esc(s);
            }
            extra_ += "]";
        } else if (cmd == "version") {
            int x, y, z;
            clingcon_version(&x, &y, &z);
            extra_ += ",\"version\":[" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + "]";
        } else if (cmd == "delc") {
            std::unique_lock<std::mutex> g(env_.m);
            auto it = env_.controls.find(a[1]);
            if (it != env_.controls.end()) {
                auto *c = it->second.c;
                auto lg = std::move(it->second.log);
                env_.controls.erase(it);
                g.unlock();
                clingo_control_free(c);
            }
        } else if (cmd == "delt") {
            std::unique_lock<std::mutex> g(env_.m);
            auto it = env_.theories.find(a[1]);
            if (it != env_.theories.end()) {
                auto *t = it->second;
                env_.theories.erase(it);
                g.unlock();
                chk(clingcon_destroy(t));
            }
        } else if (cmd == "msgs") {
            auto *l = log(a[1]);
            if (l == nullptr) throw std::logic_error("DRIVER no control " + a[1]);
            std::lock_guard<std::mutex> g(l->m);
            extra_ += ",\"msgs\":[";
            for (size_t i = 0; i < l->msgs.size(); ++i) extra_ += (i ? "," : "") + esc(l->msgs[i]);
            extra_ += "]";
        } else if (cmd == "file") {
            std::ofstream f(scratch + a[1], std::ios::binary);
            f << a[2];
        } else if (cmd == "app") {
            app(a);
        } else if (cmd == "sleep") {
            std::this_thread::sleep_for(std::chrono::microseconds(std::stol(a[1])));
        } else {
            throw std::logic_error("DRIVER unknown command " + cmd);
        }
    }
    Env &env_;
    std::string jid_;
    int op_ = 0;
    std::string extra_;
};

struct Job {
    std::string id;
    int timeout = 30;
    bool stop_on_error = true;
    std::vector<Args> ops;
};

static int run_job(Job const &job) {
    Env env;
    // Blocks "spawn" ... "endspawn" run concurrently; "join" (or the end) waits for them.
    std::vector<std::thread> threads;
    bool failed = false;
    Runner main{env, job.id};
    for (size_t i = 0; i < job.ops.size(); ++i) {
        auto const &a = job.ops[i];
        if (a[0] == "spawn") {
            size_t j = i + 1;
            while (j < job.ops.size() && job.ops[j][0] != "endspawn") ++j;
            if (threads.empty() && verif_warmup != nullptr) verif_warmup();
            threads.emplace_back([&env, &job, i, j]() {
                Runner r{env, job.id};
                for (size_t k = i + 1; k < j; ++k) {
                    if (!r.run(static_cast<int>(k), job.ops[k]) && job.stop_on_error) break;
                }
            });
            i = j;
            continue;
        }
        if (a[0] == "join") {
            for (auto &t : threads) t.join();
            threads.clear();
            continue;
        }
        if (failed && job.stop_on_error && a[0] != "delc" && a[0] != "delt" && a[0] != "msgs") continue;
        if (!main.run(static_cast<int>(i), a)) failed = true;
    }
    for (auto &t : threads) t.join();
    for (auto &kv : env.controls) clingo_control_free(kv.second.c);
    for (auto &kv : env.theories) clingcon_destroy(kv.second);
    out.line("{\"j\":" + esc(job.id) + ",\"end\":1}");
    return 0;
}

static std::string slurp_tail(char const *path, size_t head, size_t tail) {
    std::ifstream f(path, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > head + tail) s = s.substr(0, head) + "\n...\n" + s.substr(s.size() - tail);
    return s;
}

int main(int argc, char **argv) {
    // usage: driver JOBFILE OUTFILE STDERRFILE [nofork]
    if (argc < 4) {
        std::fprintf(stderr, "usage: driver JOBS OUT ERR [nofork]\n");
        return 98;
    }
    std::ifstream in(argv[1]);
    if (!in) return 98;
    out.fd = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (out.fd < 0) return 98;
    bool nofork = argc > 4;
    scratch = std::string(argv[2]) + ".";
    std::vector<Job> jobs;
    std::string line;
    while (std::getline(in, line)) {
        auto a = split(line);
        if (a.empty()) continue;
        if (a[0] == "job") {
            jobs.emplace_back();
            jobs.back().id = a.at(1);
            jobs.back().timeout = std::stoi(a.at(2));
            jobs.back().stop_on_error = a.size() < 4 || a[3] != "continue";
        } else {
            jobs.back().ops.push_back(std::move(a));
        }
    }
    for (auto const &job : jobs) {
        if (nofork) {
            run_job(job);
            continue;
        }
        int efd = ::open(argv[3], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        for (auto const *x : {"stdin", "stdout", "stderr"}) ::unlink((scratch + x).c_str());
        pid_t pid = fork();
        if (pid < 0) return 98;
        if (pid == 0) {
            dup2(efd, 2);
            dup2(efd, 1);
            struct rlimit rl {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            int rc = 96;
            try {
                rc = run_job(job);
            } catch (std::exception const &e) {
                std::fprintf(stderr, "DRIVER exception: %s\n", e.what());
            }
            std::fflush(nullptr);
            std::exit(rc);
        }
        close(efd);
        auto t0 = std::chrono::steady_clock::now();
        int status = 0;
        bool timeout = false;
        int spins = 0;
        for (;;) {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) break;
            double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (!timeout && el > job.timeout) {
                timeout = true;
                kill(pid, SIGKILL);
            }
            std::this_thread::sleep_for(std::chrono::microseconds(++spins < 50 ? 200 : 2000));
        }
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        std::ostringstream oss;
        oss << "{\"j\":" << esc(job.id) << ",\"exit\":" << (WIFEXITED(status) ? WEXITSTATUS(status) : -1)
            << ",\"sig\":" << (WIFSIGNALED(status) ? WTERMSIG(status) : 0) << ",\"timeout\":" << (timeout ? 1 : 0)
            << ",\"wall\":" << el;
        auto err = slurp_tail(argv[3], 300000, 4000);
        if (!err.empty()) oss << ",\"stderr\":" << esc(err);
        oss << "}";
        out.line(oss.str());
    }
    return 0;
}
