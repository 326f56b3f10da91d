#include "mc.hh"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
namespace mc {
uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h ^ (h >> 33); }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

constexpr int MAXW = 16, NCLAIM = 1 << 20, NOUT = 1 << 14, NCNT = 48, NVIOL = 64;
struct Slot { std::atomic<int> n; int ch[256], alt[256]; std::atomic<double> beat; std::atomic<uint64_t> cases; std::atomic<int> busy; };
struct Viol { char key[256]; char msg[6000]; int fam; int n; int ch[256]; };
struct Shared {
    std::atomic<uint64_t> cases, states, trans, traces, skipped;
    std::atomic<uint32_t> capped;
    std::atomic<uint8_t> claim[NCLAIM];
    std::atomic<uint8_t> out[NOUT];
    std::atomic<uint32_t> nviol, stop;
    Viol viol[NVIOL];
    char cname[NCNT][64];
    std::atomic<uint64_t> cval[NCNT];
    std::atomic<uint32_t> ncnt, lock;
    std::atomic<uint32_t> nsample;
    char sample[12][1500];
    Slot slot[MAXW];
};
static Shared *sh;
static bool g_collect = true;

int Ctx::choose(int n, const char *what) {
    if (n <= 0) throw Skip{};
    int c;
    if (pos < prefix.size()) {
        c = prefix[pos];
        if (c >= n) throw std::logic_error("replay diverged: choice " + std::to_string(c) + " of " + std::to_string(n) + " at " + std::to_string(pos) + " " + what);
    } else c = 0;
    path.emplace_back(c, n);
    if (replaying) whats.push_back(what);
    pos++;
    if (path.size() > 250) throw std::logic_error("choice path too long");
    if (!claimed && (int)path.size() == claim_depth && claim) {
        claimed = true;
        if (!claim(path)) throw Skip{};
    }
    return c;
}
static void bump(const char *name, uint64_t n) {
    uint32_t k = sh->ncnt.load();
    for (uint32_t i = 0; i < k; i++) if (!strcmp(sh->cname[i], name)) { sh->cval[i] += n; return; }
    while (sh->lock.exchange(1)) {}
    k = sh->ncnt.load();
    uint32_t i = 0;
    for (; i < k; i++) if (!strcmp(sh->cname[i], name)) break;
    if (i == k && k < NCNT) { strncpy(sh->cname[k], name, 63); sh->ncnt = k + 1; }
    sh->lock = 0;
    if (i < NCNT) sh->cval[i] += n;
}
void Ctx::flush() {
    sh->states += n_states; sh->trans += n_trans; sh->traces += n_traces; sh->capped += n_capped;
    for (auto &x : cnt) bump(x.first.c_str(), x.second);
    for (auto h : outs) sh->out[(h ^ (h >> 17)) % NOUT] = 1;
    for (auto &s : samples) { uint32_t k = sh->nsample.fetch_add(1); if (k < 12) strncpy(sh->sample[k], s.c_str(), 1499); }
}
bool Ctx::want_sample() const { if (!g_collect) return replaying; uint32_t k = sh->nsample.load(); if (k >= 12) return false; return (sh->cases.load() >= (uint64_t)k * 97); }
static std::string jesc(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void record(const std::string &key, const std::string &msg, int fam, const std::vector<int> &ch) {
    // one record per key
    while (sh->lock.exchange(1)) {}
    uint32_t n = sh->nviol.load();
    bool dup = false;
    for (uint32_t i = 0; i < n; i++) if (key == sh->viol[i].key) dup = true;
    if (!dup && n < NVIOL) {
        auto &v = sh->viol[n];
        strncpy(v.key, key.c_str(), 255);
        strncpy(v.msg, msg.c_str(), 5999);
        v.fam = fam;
        v.n = std::min<int>((int)ch.size(), 256);
        for (int i = 0; i < v.n; i++) v.ch[i] = ch[i];
        sh->nviol = n + 1;
    }
    sh->lock = 0;
}
struct Opts { bool thorough = false; int workers = 8; double limit = 700; double case_limit = 40; int recycle = 1500; uint32_t max_viol = 6; };

// next prefix in depth-first order, empty when done
static bool advance(std::vector<std::pair<int, int>> &p) {
    while (!p.empty() && p.back().first + 1 >= p.back().second) p.pop_back();
    if (p.empty()) return false;
    p.back().first++;
    return true;
}
static void one(const std::vector<Family> &fams, Ctx &c, std::string &key, std::string &msg, bool &viol, bool &skipped) {
    viol = skipped = false;
    int f = -1;
    try {
        f = c.choose((int)fams.size(), "family");
        fams[f].run(c);
    } catch (Violation &v) { viol = true; key = v.key; msg = v.msg; }
    catch (Skip &) { skipped = true; }
    catch (std::exception &e) { viol = true; key = (f >= 0 ? fams[f].name : std::string("?")) + ":exception"; msg = std::string("unexpected exception: ") + e.what(); }
}
static void worker(int id, const std::vector<Family> &fams, const Opts &o, std::vector<std::pair<int, int>> start, bool resume) {
    auto &sl = sh->slot[id];
    std::vector<std::pair<int, int>> p = std::move(start);
    if (resume) { if (!advance(p)) _exit(0); }
    int done = 0;
    for (;;) {
        if (sh->stop) _exit(0);
        Ctx c;
        c.thorough = o.thorough;
        for (auto &x : p) c.prefix.push_back(x.first);
        // publish
        sl.beat = now();
        sl.busy = 1;
        bool owner = true;
        c.claim_depth = 2;
        // depth of the claim depends on the family (the first choice)
        int fam = p.empty() ? 0 : p[0].first;
        c.claim_depth = 1 + std::max(1, fams[fam].claim_depth);
        // Work sharing: a claimed prefix belongs to one worker; the claim index is the prefix's hash.
        c.claim = [&](const std::vector<std::pair<int, int>> &pp) {
            // all cases under one prefix are consecutive in this worker's order
            std::string k;
            for (auto &x : pp) { k += (char)(x.first & 255); k += (char)(x.first >> 8); }
            static std::string mine;
            static bool mine_ok = false;
            if (k == mine) return owner = mine_ok;
            mine = k;
            // exact ownership by hashing the prefix: (collisions only affect balance, both cases are run by the owner)
            uint64_t h = hash_str(k);
            mine_ok = (h % (uint64_t)o.workers) == (uint64_t)id;
            return owner = mine_ok;
        };
        // record the path for crash reports as it grows: cheap copy before the run
        sl.n = (int)std::min<size_t>(p.size(), 256);
        for (size_t i = 0; i < p.size() && i < 256; i++) { sl.ch[i] = p[i].first; sl.alt[i] = p[i].second; }
        std::string key, msg;
        bool viol, skipped;
        // keep the live path visible to the parent
        struct Live { Ctx &c; Slot &s; } live{c, sl};
        (void)live;
        one(fams, c, key, msg, viol, skipped);
        bool count = owner;
        if (!c.claimed && !skipped) {   // short path: owned by hash of the whole vector
            std::string k;
            for (auto &x : c.path) k += (char)x.first;
            count = (hash_str(k) % (uint64_t)o.workers) == (uint64_t)id;
        }
        if (viol && count) {
            std::vector<int> ch;
            for (auto &x : c.path) ch.push_back(x.first);
            record(key, msg, c.path.empty() ? 0 : c.path[0].first, ch);
        }
        if (count) { if (skipped) sh->skipped++; else sh->cases++; c.flush(); }
        sl.busy = 0;
        p = c.path;
        if (!advance(p)) _exit(0);
        if (++done >= o.recycle && !(skipped && !owner)) {
            // a fresh process keeps memory and library-global state bounded
            sl.n = (int)p.size();
            for (size_t i = 0; i < p.size(); i++) { sl.ch[i] = p[i].first; sl.alt[i] = p[i].second; }
            _exit(77);
        }
    }
}
static std::string status_text(int st) {
    if (WIFSIGNALED(st)) return std::string("killed by signal ") + strsignal(WTERMSIG(st));
    return "exit status " + std::to_string(WEXITSTATUS(st));
}
// runs one case in a child; returns key/msg
static bool replay_one(const std::vector<Family> &fams, const std::vector<int> &ch, bool thorough, double limit, std::string &key, std::string &msg, bool verbose, std::string *log = nullptr) {
    int fd[2];
    if (pipe(fd)) return false;
    pid_t pid = fork();
    if (!pid) {
        close(fd[0]);
        g_collect = false;
        struct rlimit rl { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        Ctx c;
        c.thorough = thorough;
        c.replaying = true;
        c.prefix = ch;
        bool v, s;
        std::string k, m;
        one(fams, c, k, m, v, s);
        std::string out = std::string(v ? "V" : "O") + k + "\n" + m + "\x01" + c.log;
        if (verbose) { out += "choices:"; for (size_t i = 0; i < c.path.size(); i++) out += " " + (i < c.whats.size() ? c.whats[i] : "") + "=" + std::to_string(c.path[i].first) + "/" + std::to_string(c.path[i].second); out += "\n"; }
        size_t off = 0;
        while (off < out.size()) { ssize_t w = write(fd[1], out.data() + off, out.size() - off); if (w <= 0) break; off += w; }
        _exit(0);
    }
    close(fd[1]);
    std::string out;
    double t0 = now();
    bool timeout = false;
    for (;;) {
        pollfd pf{fd[0], POLLIN, 0};
        int r = poll(&pf, 1, 200);
        if (r > 0) { char b[4096]; ssize_t k = read(fd[0], b, sizeof b); if (k <= 0) break; out.append(b, k); }
        else if (now() - t0 > limit) { kill(pid, SIGKILL); timeout = true; break; }
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (timeout) { key = "hang"; msg = "the case does not end within " + std::to_string((int)limit) + " s"; return true; }
    if (WIFSIGNALED(st) || out.empty()) { key = "crash"; msg = "the process died: " + status_text(st); return true; }
    auto nl = out.find('\n'), sep = out.find('\x01');
    key = out.substr(1, nl - 1);
    msg = out.substr(nl + 1, sep - nl - 1);
    if (log) *log = out.substr(sep + 1);
    return out[0] == 'V';
}
static std::vector<std::pair<std::string, std::string>> known(const std::string &prop) {
    // known_findings.txt: lines "property=<id> key=<key> | <description>"
    std::vector<std::pair<std::string, std::string>> r;
    std::ifstream f("known_findings.txt");
    std::string l;
    while (std::getline(f, l)) {
        if (l.rfind("known: property=" + prop + " ", 0) != 0) continue;
        auto k = l.find("key="), b = l.find(" | ");
        if (k == std::string::npos || b == std::string::npos) continue;
        r.emplace_back(l.substr(k + 4, b - k - 4), l.substr(b + 3));
    }
    return r;
}
int run(const std::string &prop, const std::vector<Family> &fams, int argc, char **argv, const std::string &level, const std::vector<std::string> &assumptions) {
    Opts o;
    const char *tier = getenv("VERIF_TIER");
    o.thorough = tier && std::string(tier) == "thorough";
    if (o.thorough) { o.limit = 6 * 3600; }
    if (const char *w = getenv("MC_WORKERS")) o.workers = atoi(w);
    if (const char *w = getenv("MC_LIMIT")) o.limit = atof(w);
    if (const char *w = getenv("MC_MAXVIOL")) o.max_viol = atoi(w);
    std::string only;
    const char *fam_only = getenv("MC_FAMILY");
    std::vector<Family> fs;
    for (auto &f : fams) if (!fam_only || f.name == fam_only) fs.push_back(f);
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    if (argc > 2 && std::string(argv[1]) == "--replay") {
        std::ifstream f(argv[2]);
        std::string l;
        std::vector<int> ch;
        std::string famname;
        while (std::getline(f, l)) {
            if (l.rfind("family: ", 0) == 0) famname = l.substr(8);
            if (l.rfind("tier: ", 0) == 0) o.thorough = l.substr(6) == "thorough";
            if (l.rfind("choices:", 0) == 0) { std::istringstream is(l.substr(8)); int x; while (is >> x) ch.push_back(x); }
        }
        std::vector<Family> one_fam;
        for (auto &x : fams) if (x.name == famname) one_fam.push_back(x);
        if (one_fam.empty() || ch.empty()) { fprintf(stderr, "bad replay file\n"); return 3; }
        ch[0] = 0;
        std::string key, msg, log;
        bool v = replay_one(one_fam, ch, o.thorough, 300, key, msg, true, &log);
        printf("%s\n", log.c_str());
        printf("%s key=%s\n%s\n", v ? "VIOLATED" : "HOLDS", key.c_str(), msg.c_str());
        return v ? 1 : 0;
    }
    double t0 = now();
    std::vector<pid_t> pids(o.workers, -1);
    std::vector<bool> fin(o.workers, false);
    auto spawn = [&](int i, std::vector<std::pair<int, int>> start, bool resume) {
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            struct rlimit rl { 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            rlimit as{(rlim_t)12 << 30, (rlim_t)12 << 30};
            setrlimit(RLIMIT_AS, &as);
            worker(i, fs, o, start, resume);
            _exit(0);
        }
        pids[i] = p;
    };
    for (int i = 0; i < o.workers; i++) spawn(i, {}, false);
    bool timed_out = false;
    int live = o.workers;
    auto kn = known(prop);
    auto is_known = [&](const std::string &k) { for (auto &x : kn) if (x.first == k) return true; return false; };
    int crashes = 0, retries = 0;
    while (live) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int i = (int)(std::find(pids.begin(), pids.end(), p) - pids.begin());
            if (i >= o.workers) continue;
            auto &sl = sh->slot[i];
            std::vector<std::pair<int, int>> path;
            for (int k = 0; k < sl.n; k++) path.emplace_back(sl.ch[k], sl.alt[k]);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { fin[i] = true; live--; pids[i] = -1; }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) spawn(i, path, false);
            else {
                // died inside a case: that case is a violation; learn its full path by replaying alone
                std::vector<int> ch;
                for (auto &x : path) ch.push_back(x.first);
                std::string key, msg;
                bool v = replay_one(fs, ch, o.thorough, o.case_limit * 3, key, msg, false);
                std::string fam = fs[path.empty() ? 0 : path[0].first].name;
                if (v) record(fam + ":" + (key == "crash" || key == "hang" ? key : key), msg + " (worker " + status_text(st) + ")", path.empty() ? 0 : path[0].first, ch);
                else if (++retries <= 20) { sl.busy = 0; spawn(i, path, false); continue; }   // ended from outside: again
                else record(fam + ":unstable-crash", "worker died (" + status_text(st) + ") but the case alone passes", path.empty() ? 0 : path[0].first, ch);
                if (++crashes > 200) { sh->stop = 1; }
                // continue after this case; unknown deeper choices of it are skipped
                sl.busy = 0;
                if (path.empty()) { fin[i] = true; live--; pids[i] = -1; } else spawn(i, path, true);
            }
            continue;
        }
        double t = now();
        for (int i = 0; i < o.workers; i++) if (pids[i] > 0 && sh->slot[i].busy && t - sh->slot[i].beat > o.case_limit) kill(pids[i], SIGKILL);
        uint32_t fresh = 0;
        for (uint32_t k = 0; k < sh->nviol; k++) fresh += !is_known(sh->viol[k].key);
        if (fresh >= o.max_viol) sh->stop = 1;
        if (t - t0 > o.limit) { timed_out = true; sh->stop = 1; }
        usleep(5000);
    }
    // report
    mkdir("replay", 0777);
    int fresh = 0;
    std::set<std::string> known_seen;
    std::string viol_json;
    for (uint32_t k = 0; k < sh->nviol; k++) {
        auto &v = sh->viol[k];
        std::vector<int> ch(v.ch, v.ch + v.n);
        std::string key, msg;
        bool again = replay_one(fs, ch, o.thorough, o.case_limit * 3, key, msg, false);
        if (is_known(v.key)) { known_seen.insert(v.key); continue; }
        fresh++;
        std::string path = "replay/" + prop + "-" + std::to_string(fresh) + ".txt";
        std::ofstream f(path);
        f << "property: " << prop << "\nfamily: " << fs[v.fam].name << "\ntier: " << (o.thorough ? "thorough" : "quick") << "\nkey: " << v.key << "\nchoices:";
        for (int x : ch) f << " " << x;
        f << "\nreplayed: " << (again ? "same verdict" : "NOT REPRODUCED when run alone") << "\n" << v.msg << "\n";
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        std::string m = v.msg;
        printf("  key=%s%s\n", v.key, again ? "" : " (NOT REPRODUCED when run alone)");
        if (m.size() > 1500) m.resize(1500);
        for (size_t a = 0; a < m.size();) { auto e = m.find('\n', a); if (e == std::string::npos) e = m.size(); printf("  | %s\n", m.substr(a, e - a).c_str()); a = e + 1; }
    }
    for (auto &x : kn) if (known_seen.count(x.first)) printf("KNOWN-FINDING: property=%s %s [key=%s]\n", prop.c_str(), x.second.c_str(), x.first.c_str());
        else printf("note: listed finding not observed in this run: %s\n", x.first.c_str());
    uint64_t outc = 0;
    for (int i = 0; i < NOUT; i++) outc += sh->out[i];
    double wall = now() - t0;
    bool exhaustive = !timed_out && !fresh && !sh->capped && !sh->stop;
    std::ostringstream js;
    js << "{\"property\":" << jesc(prop) << ",\"tier\":\"" << (o.thorough ? "thorough" : "quick") << "\",\"seed\":" << (getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1)
       << ",\"level\":" << jesc(level) << ",\"coverage\":{\"states\":" << sh->states.load() << ",\"transitions\":" << sh->trans.load()
       << ",\"traces_validated_against_impl\":" << sh->traces.load() << ",\"programs_explored\":" << sh->cases.load()
       << ",\"outcome_hash_buckets_hit\":" << outc << ",\"bounded_searches_capped\":" << sh->capped.load() << ",\"time_limit_hit\":" << (timed_out ? "true" : "false")
       << ",\"exhaustive\":" << (exhaustive ? "true" : "false") << ",\"families\":[";
    for (size_t i = 0; i < fs.size(); i++) js << (i ? "," : "") << jesc(fs[i].name);
    js << "]";
    for (uint32_t i = 0; i < sh->ncnt; i++) js << "," << jesc(std::string("n_") + sh->cname[i]) << ":" << sh->cval[i].load();
    js << ",\"samples\":[";
    for (uint32_t i = 0; i < std::min<uint32_t>(12, sh->nsample); i++) js << (i ? "," : "") << jesc(sh->sample[i]);
    js << "]},\"assumptions\":[";
    for (size_t i = 0; i < assumptions.size(); i++) js << (i ? "," : "") << jesc(assumptions[i]);
    js << "],\"wall_s\":" << wall << ",\"violations\":" << fresh << "}\n";
    if (!fam_only) { mkdir("evidence", 0777); std::ofstream("evidence/" + prop + ".json") << js.str(); }
    printf("%s: programs=%llu states=%llu transitions=%llu traces=%llu outcomes=%llu capped=%u%s wall=%.1fs violations=%d\n", prop.c_str(), (unsigned long long)sh->cases.load(), (unsigned long long)sh->states.load(),
           (unsigned long long)sh->trans.load(), (unsigned long long)sh->traces.load(), (unsigned long long)outc, sh->capped.load(), timed_out ? " TIME LIMIT HIT" : "", wall, fresh);
    for (uint32_t i = 0; i < sh->ncnt; i++) printf("  %s: %llu\n", sh->cname[i], (unsigned long long)sh->cval[i].load());
    if (fam_only) for (uint32_t i = 0; i < std::min<uint32_t>(12, sh->nsample); i++) printf("  sample: %s\n", sh->sample[i]);
    return fresh ? 1 : 0;
}
}  // namespace mc
