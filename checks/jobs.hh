// Everything the library does to or reports about a design, as named jobs with a textual result.
#pragma once
#include "dual.hh"
#include "event.hh"
#include "formal.hh"
#include "graph.hh"
#include "hash.hh"
#include "kitchen.hh"
using namespace kratos;
// ---- passes
using Act = std::function<std::string(kratos::Generator &)>;
struct Job { std::string name; std::vector<std::string> before; Act act; };
static std::string emitted(Generator &t) { dual::Emit e; return dual::join(dual::text(t, e)); }
static std::string state(Generator &t) {
    // everything observable about the design without changing it
    std::string r;
    std::function<void(Generator *)> go = [&](Generator *g) {
        r += "generator " + g->instance_name + " " + g->name + "\n";
        for (auto &[n, v] : g->vars()) r += " var " + n + " " + std::to_string(v->width()) + " sources " + std::to_string(v->sources().size()) + " sinks " + std::to_string(v->sinks().size()) + " " + v->before_var_str() + v->after_var_str() + "\n";
        r += " statements " + std::to_string(g->stmts_count()) + "\n";
        if (!g->external() && !g->is_cloned()) r += SystemVerilogCodeGen(g, SystemVerilogCodeGenOptions{}).str() + "\n";
        for (auto &k : g->get_child_generators()) go(k.get());
    };
    go(&t);
    return r;
}
static std::vector<Job> jobs() {
    std::vector<Job> r;
    auto pass = [&](const std::string &n, std::vector<std::string> before = {}) {
        r.push_back({n, before, [n](Generator &t) { dual::run_pass(t, n); return state(t); }});
    };
    const std::vector<std::string> prep{"realize_fsm", "zero_out_stubs", "decouple_generator_ports", "fix_assignment_type"};
    for (auto *n : {"realize_fsm", "zero_out_stubs", "remove_fanout_one_wires", "transform_if_to_case", "fix_assignment_type", "merge_const_port_assignment", "remove_unused_vars", "change_port_bundle_struct", "insert_verilator_public", "zero_generator_inputs", "decouple_generator_ports", "merge_if_block", "merge_wire_assignments", "propagate_scope_variable", "remove_pass_through_modules"})
        pass(n);
    pass("insert_pipeline_stages");
    for (auto *n : {"check_function_return", "sort_stmts", "sort_initial_stmts", "check_inferred_latch", "check_flip_flop_always_ff", "create_module_instantiation", "create_interface_instantiation", "hash_generators_parallel", "remove_unused_stmts", "verify_assignments", "verify_generator_connectivity", "check_mixed_assignment", "check_multiple_driver", "check_combinational_loop", "check_always_sensitivity", "check_active_high", "check_non_synthesizable_content", "remove_assertion", "change_property_into_stmt", "remove_event_stmts", "lift_genvar_instances", "auto_insert_clock_enable", "auto_insert_sync_reset", "ssa_transform_fix", "port_legality_fix", "dead_code_elimination", "inject_assertion_fail", "infer_property_clocking", "inline_instance"})
        pass(n, prep);
    auto all = prep;
    for (auto *n : {"hash_generators_sequential", "uniquify_generators", "create_module_instantiation", "create_interface_instantiation"}) all.push_back(n);
    r.push_back({"generate_verilog", all, [](Generator &t) { return emitted(t); }});
    r.push_back({"remove_async_reset", prep, [](Generator &t) { remove_async_reset(&t); return state(t); }});
    r.push_back({"hash values", prep, [](Generator &t) {
        hash_generators_context(t.context(), &t, HashStrategy::ParallelHash);
        std::string r;
        std::function<void(Generator *)> go = [&](Generator *g) { r += g->instance_name + " " + std::to_string(t.context()->has_hash(g) ? t.context()->get_hash(g) : 0) + "\n"; for (auto &k : g->get_child_generators()) go(k.get()); };
        go(&t);
        return r; }});
    r.push_back({"extract_interface_info", prep, [](Generator &t) { std::string r; for (auto &[n, s] : extract_interface_info(&t)) r += s; return r; }});
    r.push_back({"extract_struct_info", prep, [](Generator &t) { std::string r; for (auto &[n, s] : extract_struct_info(&t)) r += s; return r; }});
    r.push_back({"extract_enum_info", prep, [](Generator &t) { std::string r; for (auto &[n, s] : extract_enum_info(&t)) r += s; return r; }});
    r.push_back({"compute_enable_condition", prep, [](Generator &t) { auto m = compute_enable_condition(&t); std::string r = std::to_string(m.size()); std::set<std::string> l; for (auto &[k, v] : m) l.insert(v); for (auto &s : l) r += s + "\n"; return r; }});
    r.push_back({"tracked generators", all, [](Generator &t) { t.context()->set_track_generated(true); auto s = emitted(t); std::set<std::string> n; std::function<void(Generator *)> go = [&](Generator *g) { if (t.context()->is_generated_tracked(g)) n.insert(g->handle_name()); for (auto &k : g->get_child_generators()) go(k.get()); }; go(&t); for (auto &x : n) s += x + "\n"; return s; }});
    return r;
}
static void design(kitchen::Design &d, const std::vector<int> &kinds, int shape) {
    using namespace kitchen;
    d.sh = shared(d.ctx);
    std::vector<Unit> us;
    int n = 0;
    for (int k : kinds) { us.push_back(unit(d.ctx, d.sh, std::string("m_") + (shape == 2 ? kind_name[k] : std::to_string(n)), k, n)); n++; }
    if (shape == 3) {
        // two levels: pairs of units below a module of their own
        std::vector<Unit> mids;
        for (size_t i = 0; i < us.size(); i += 2) mids.push_back(parent(d, "mid" + std::to_string(i), i + 1 < us.size() ? std::vector<Unit>{us[i], us[i + 1]} : std::vector<Unit>{us[i]}, 1));
        d.top = parent(d, "top", mids, 0).g;
    } else d.top = parent(d, "top", us, shape == 1).g;
    d.units = us;
}
// runs the job in the given schedule; an exception is part of the result
static std::string outcome(const Job &j, Generator &t) {
    try { return j.act(t); }
    catch (mc::Skip &) { throw; }
    catch (mc::Violation &) { throw; }
    catch (std::exception &e) { return std::string("exception: ") + e.what(); }
}
static bool prepare(const Job &j, Generator &t) {
    try { dual::run_passes(t, j.before); }
    catch (std::exception &) { return false; }
    return true;
}
