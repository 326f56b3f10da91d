// Exhaustive choice-tree exploration, sharded over worker processes.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
namespace mc {
struct Violation { std::string key, msg; };
struct Skip {};      // the rest of this branch is not part of the family

class Ctx {
public:
    bool thorough = false;
    // one of 0..n-1; every combination of answers is explored
    int choose(int n, const char *what = "");
    bool flip(const char *what = "") { return choose(2, what) == 1; }
    template <class T> const T &pick(const std::vector<T> &v, const char *what = "") { return v[choose((int)v.size(), what)]; }
    [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }
    [[noreturn]] void skip() { throw Skip{}; }
    void states(uint64_t n) { n_states += n; }
    void trans(uint64_t n) { n_trans += n; }
    void trace() { n_traces++; }               // one execution of the real code compared with the model
    void count(const std::string &name, uint64_t n = 1) { cnt[name] += n; }
    void outcome(uint64_t h) { outs.push_back(h); }   // distinct observed results
    void capped() { n_capped++; }
    void sample(const std::string &s) { samples.push_back(s); }   // kept for a few cases
    uint64_t n_states = 0, n_trans = 0, n_traces = 0, n_capped = 0;
    std::map<std::string, uint64_t> cnt;
    std::vector<uint64_t> outs;
    std::vector<std::string> samples;
    void flush();
    bool want_sample() const;
    bool replaying = false;
    std::string log;                           // printed on replay
    // internal
    std::vector<std::pair<int, int>> path;     // (choice, alternatives)
    std::vector<int> prefix;
    std::vector<std::string> whats;
    size_t pos = 0;
    int claim_depth = 5;
    std::function<bool(const std::vector<std::pair<int, int>> &)> claim;
    bool claimed = false;
};
struct Family { std::string name; std::function<void(Ctx &)> run; int claim_depth = 4; };
// runs every family, writes evidence, prints VIOLATION / KNOWN-FINDING lines; returns the exit code
int run(const std::string &property, const std::vector<Family> &fams, int argc, char **argv,
        const std::string &level = "model_checking", const std::vector<std::string> &assumptions = {});
uint64_t hash_str(const std::string &s);
}  // namespace mc
