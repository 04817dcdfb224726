// Application that takes clingcon's options from the command line, from the programming interface, or from both, and
// reports the configuration that is in effect (the solver configurations only with CLINGCON_VERIF).
#include <clingcon.h>
#include <clingo.hh>

#include <algorithm>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#ifdef CLINGCON_VERIF
#include <clingcon/propagator.hh>
#endif

extern "C" bool __real_clingo_control_register_propagator(clingo_control_t *, clingo_propagator_t const *, void *, bool);

namespace {

void *propagator = nullptr;
bool has_decide = false;

} // namespace

extern "C" bool __wrap_clingo_control_register_propagator(clingo_control_t *ctl, clingo_propagator_t const *p, void *data,
                                                          bool seq) {
    propagator = data;
    has_decide = p->decide != nullptr;
    return __real_clingo_control_register_propagator(ctl, p, data, seq);
}

namespace {

using Clingo::Detail::handle_error;
using Conf = std::vector<std::pair<std::string, std::string>>;

std::string esc(std::string const &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += static_cast<char>(c);
        else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else r += static_cast<char>(c);
    }
    return r + "\"";
}

class OptApp final : public Clingo::Application, private Clingo::SolveEventHandler {
  public:
    OptApp(Conf const &conf) : conf_{conf} { handle_error(clingcon_create(&theory_)); }
    ~OptApp() override { clingcon_destroy(theory_); }
    [[nodiscard]] auto program_name() const noexcept -> char const * override { return "clingcon"; }
    void register_options(Clingo::ClingoOptions &options) override {
        handle_error(clingcon_register_options(theory_, options.to_c()));
    }
    void validate_options() override {
        valid_ = false;
        handle_error(clingcon_validate_options(theory_));
        valid_ = true;
        for (auto const &[k, v] : conf_) {
            bool ok = clingcon_configure(theory_, k.c_str(), v.c_str());
            accepted_ += accepted_.empty() ? "" : ",";
            accepted_ += ok ? "1" : "0";
            if (!ok && (clingo_error_message() == nullptr || clingo_error_code() == clingo_error_success)) accepted_ += ",-1";
        }
    }
    auto on_model(Clingo::Model &model) -> bool override {
        handle_error(clingcon_on_model(theory_, model.to_c()));
        std::ostringstream oss;
        oss << "{\"c\":[";
        bool sep = false;
        for (auto c : model.cost()) oss << (sep ? "," : "") << c, sep = true;
        oss << "],\"s\":[";
        sep = false;
        auto syms = model.symbols(Clingo::ShowType::Atoms | Clingo::ShowType::Theory);
        std::sort(syms.begin(), syms.end());
        for (auto &s : syms) oss << (sep ? "," : "") << esc(s.to_string()), sep = true;
        oss << "]}";
        models_ += (models_.empty() ? "" : ",") + oss.str();
        return true;
    }
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
        handle_error(clingcon_on_statistics(theory_, step.to_c(), accu.to_c()));
    }
    static auto rewrite_(clingo_ast_t *stm, void *data) -> bool {
        auto *self = static_cast<std::pair<clingcon_theory_t *, clingo_program_builder_t *> *>(data);
        return clingcon_rewrite_ast(self->first, stm, add_, data);
    }
    static auto add_(clingo_ast_t *stm, void *data) -> bool {
        auto *self = static_cast<std::pair<clingcon_theory_t *, clingo_program_builder_t *> *>(data);
        size_t n = 0;
        if (clingo_ast_to_string_size(stm, &n)) {
            std::string s(n, '\0');
            if (clingo_ast_to_string(stm, &s[0], n)) {
                s.resize(n - 1);
                stms() += (stms().empty() ? "" : ",") + esc(s);
            }
        }
        return clingo_program_builder_add(self->second, stm);
    }
    static std::string &stms() {
        static std::string s;
        return s;
    }
    void main(Clingo::Control &control, Clingo::StringSpan files) override {
        handle_error(clingcon_register(theory_, control.to_c()));
        registered_ = true;
        Clingo::AST::with_builder(control, [&](Clingo::AST::ProgramBuilder &builder) {
            std::pair<clingcon_theory_t *, clingo_program_builder_t *> data{theory_, builder.to_c()};
            handle_error(clingo_ast_parse_files(files.begin(), files.size(), rewrite_, &data, control.to_c(), nullptr, nullptr, 0));
        });
        control.ground({{"base", {}}});
        handle_error(clingcon_prepare(theory_, control.to_c()));
        auto res = control.solve(Clingo::SymbolicLiteralSpan{}, this, false, false).get();
        result_ = res.is_satisfiable() ? 1 : res.is_unsatisfiable() ? 2 : 0;
        observe();
    }
    void observe() {
        std::ostringstream oss;
        oss << ",\"decide\":" << has_decide;
#ifdef CLINGCON_VERIF
        auto &p = *static_cast<Clingcon::Propagator *>(propagator);
        auto &c = p.config();
        oss << ",\"config\":{\"sort-constraints\":" << c.sort_constraints << ",\"translate-clauses\":[" << c.clause_limit << ","
            << c.clause_limit_total << "],\"literals-only\":" << c.literals_only << ",\"translate-pb\":" << c.weight_constraint_ratio
            << ",\"translate-distinct\":" << c.distinct_limit << ",\"translate-opt\":" << c.translate_minimize
            << ",\"add-order-clauses\":" << c.add_order_clauses << ",\"min-int\":" << c.min_int << ",\"max-int\":" << c.max_int
            << ",\"check-solution\":" << c.check_solution << ",\"check-state\":" << c.check_state << "},\"threads\":[";
        for (size_t i = 0; i < p.verif_solvers(); ++i) {
            auto const &s = p.verif_solver(i).config();
            oss << (i ? "," : "") << "{\"order-heuristic\":" << static_cast<int>(s.heuristic) << ",\"sign-value\":" << s.sign_value
                << ",\"refine-reasons\":" << s.refine_reasons << ",\"refine-introduce\":" << s.refine_introduce
                << ",\"propagate-chain\":" << s.propagate_chain << ",\"split-all\":" << s.split_all << "}";
        }
        oss << "]";
#endif
        state_ = oss.str();
    }
    std::string report() {
        return std::string(",\"valid\":") + (valid_ ? "1" : "0") + ",\"registered\":" + (registered_ ? "1" : "0") + ",\"accepted\":[" +
               accepted_ + "],\"res\":" + std::to_string(result_) + ",\"models\":[" + models_ + "],\"stms\":[" + stms() + "]" + state_;
    }

  private:
    Conf const &conf_;
    clingcon_theory_t *theory_{nullptr};
    std::string accepted_, models_, state_;
    bool valid_ = false, registered_ = false;
    int result_ = -1;
};

} // namespace

int verif_opt_main(Conf const &conf, int argc, char **argv, std::string &report) {
    int rc = -1;
    OptApp app{conf};
    rc = Clingo::clingo_main(app, {argv + 1, static_cast<size_t>(argc - 1)});
    report = app.report();
    return rc;
}
