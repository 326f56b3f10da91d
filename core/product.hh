// Lock-step exploration of two RTL machines over all inputs and all reachable states.
#pragma once
#include "rtl.hh"
namespace rtl {
struct POpt {
    std::vector<std::string> clocks;              // inputs toggled one at a time (clocks, async resets)
    uint64_t max_states = 200000;
    std::map<std::string, std::vector<u128>> alphabet;   // values of a data input (default: all)
    std::vector<std::string> outputs;             // compared outputs (default: every output of the reference)
    bool check_ports = true;
    bool check_sign = true;
    std::map<std::string, u128> tie;              // inputs of the DUT or reference held constant
    bool unique = true;                           // report unique-case violations of the DUT
    bool both_fills = true;
    std::string valid;                            // reference signal; states in which it is 0 are not compared
    // called in every state; returns a message when an extra invariant fails
    std::function<std::string(Sim &ref, Sim &dut)> extra;
};
struct PRes {
    bool ok = true, capped = false;
    std::string msg;
    uint64_t states = 0, trans = 0;
    std::set<u128> outcomes;      // distinct output vectors (hash), to show the run is not vacuous
};
std::string compare_ports(const Design &a, const Design &b, bool sign = true);
PRes product(const Design &ref, const Design &dut, const POpt &opt = {});
}  // namespace rtl
