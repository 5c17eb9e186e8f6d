// Property-based testing core used by all checks in /verif.
//
// A case is a pure function of a sequence of choices (uint64). Random search
// draws the choices from a deterministic generator seeded from VERIF_SEED;
// a failing sequence is shrunk by deleting and minimising choices, each
// candidate being run in a child process, and written to a replay file.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

typedef uint64_t u64;
typedef int64_t i64;

inline u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline u64 hash_bytes(const std::string& s, u64 h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h);
}

struct Failure { std::string key, msg; };
struct Discard {};

class Src {
public:
    std::vector<u64> rec;
    Src(u64 seed) : m_state(seed), m_replay(nullptr) {}
    Src(const std::vector<u64>& r) : m_state(0), m_replay(&r) {}
    // uniform in [0, max]
    u64 draw(u64 max) {
        u64 v;
        if (m_replay) {
            v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
            ++m_pos;
            if (v > max) v = max;
        } else {
            m_state += 0x9e3779b97f4a7c15ULL;
            u64 z = mix(m_state);
            v = (max == ~0ULL) ? z : (u64)(((unsigned __int128)z * ((unsigned __int128)max + 1)) >> 64);
        }
        rec.push_back(v);
        return v;
    }
private:
    u64 m_state;
    const std::vector<u64>* m_replay;
    size_t m_pos = 0;
};

// State visible to the parent process for the case a worker is running.
struct Slot {
    std::atomic<u64> seq;          // increments with every case
    std::atomic<int> scenario;
    std::atomic<u64> index;
    std::atomic<u64> done;
    std::atomic<u64> nontrivial_raw;
    char key[128];                  // finding key to use when the process dies
    char msg[6000];
};

class Ctx {
public:
    Src& s;
    std::string scratch;            // private directory for this process
    std::ostringstream desc;        // human readable description of the case
    bool is_nontrivial = false;
    std::map<std::string, u64> labels;
    Slot* slot = nullptr;
    bool thorough = false;

    Ctx(Src& src) : s(src) {}

    // ---- choices; everything shrinks towards the first/lowest alternative
    u64 upto(u64 max) { return s.draw(max); }
    i64 range(i64 lo, i64 hi) { return (i64)((u64)lo + s.draw((u64)hi - (u64)lo)); }
    bool chance(unsigned percent) { return s.draw(99) >= 100 - percent; } // shrinks to false
    template <class T> const T& pick(const std::vector<T>& v) { return v[s.draw(v.size() - 1)]; }
    size_t weighted(std::initializer_list<unsigned> w) {
        u64 total = 0; for (unsigned x : w) total += x;
        u64 v = s.draw(total - 1); size_t i = 0;
        for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
        return i - 1;
    }
    // list length with a continuation choice per element so that deleting
    // choices removes elements: while (c.more(...)) generate_element();
    bool more(unsigned percent) { return chance(percent > 97 ? 97 : percent); }

    // ---- bookkeeping
    void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
    void label(const std::string& l) { labels[l]++; }
    void label_if(bool b, const std::string& l) { if (b) labels[l]++; }
    void crash_key(const std::string& k) { if (slot) { strncpy(slot->key, k.c_str(), sizeof(slot->key) - 1); } }
    [[noreturn]] void fail(const std::string& msg, const std::string& key = "") { throw Failure{key, msg}; }
    void check(bool ok, const std::string& msg, const std::string& key = "") { if (!ok) fail(msg, key); }
    template <class A, class B> void eq(const A& got, const B& want, const std::string& what, const std::string& key = "") {
        if (!(got == want)) { std::ostringstream o; o << what << ": got " << got << ", expected " << want; fail(o.str(), key); }
    }
    std::string path(const std::string& name) const { return scratch + "/" + name; }
};

struct Scenario {
    std::string name;
    std::function<void(Ctx&)> fn;
    u64 quick, thorough;
    bool fork_each;                 // run every case in its own child
};

inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
inline std::string& rule() { static std::string r; return r; }
inline std::vector<std::string>& assumptions() { static std::vector<std::string> r; return r; }
inline std::function<void()>& worker_init() { static std::function<void()> f; return f; }
struct Reg {
    Reg(const char* name, u64 quick, u64 thorough, std::function<void(Ctx&)> fn, bool fork_each = false) {
        scenarios().push_back(Scenario{name, fn, quick, thorough, fork_each});
    }
};
struct RegRule { RegRule(const char* r) { rule() = r; } };
struct RegAssume { RegAssume(const char* r) { assumptions().push_back(r); } };

#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
// SCENARIO(name, quick cases, thorough cases) { ... uses Ctx& c ... }
#define SCENARIO(name, q, t) \
    static void PBT_CAT(scn_, name)(pbt::Ctx& c); \
    static pbt::Reg PBT_CAT(reg_, name)(#name, q, t, PBT_CAT(scn_, name)); \
    static void PBT_CAT(scn_, name)([[maybe_unused]] pbt::Ctx& c)
#define SCENARIO_FORK(name, q, t) \
    static void PBT_CAT(scn_, name)(pbt::Ctx& c); \
    static pbt::Reg PBT_CAT(reg_, name)(#name, q, t, PBT_CAT(scn_, name), true); \
    static void PBT_CAT(scn_, name)([[maybe_unused]] pbt::Ctx& c)
#define RULE(text) static pbt::RegRule PBT_CAT(rule_, __LINE__)(text)
#define ASSUME(text) static pbt::RegAssume PBT_CAT(assume_, __LINE__)(text)

inline std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[16]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

// printable rendering of arbitrary text
inline std::string show(const std::string& s, size_t max = 60) {
    std::string o = "'";
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = s[i];
        if (c < 0x20 || c >= 0x7f || c == '\\') { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c;
    }
    o += "'";
    if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
    return o;
}

enum Outcome { OK = 0, FAILED = 3, CRASHED = 4, HUNG = 5, DISCARDED = 6 };

struct Result { Outcome out = OK; std::string key, msg; };

struct Runner {
    std::string property, tier = "quick", evidence, replay_dir = ".", replay_file, known_file;
    u64 seed = 1; int jobs = 8; double scale = 1.0; int hang_s = 40; int budget_s = 600;
    std::string only;
    std::set<std::string> known;           // keys of known findings of this property
    std::map<std::string, std::string> known_text;
    std::set<std::string> known_seen;
    std::string scratch_root;
    pid_t main_pid = 0;

    void load_known() {
        std::ifstream f(known_file); std::string l;
        while (std::getline(f, l)) {
            // KNOWN property=<id> key=<key> <what fails>
            std::istringstream i(l); std::string w, p, k;
            if (!(i >> w >> p >> k) || w != "KNOWN" || p != "property=" + property || k.compare(0, 4, "key=")) continue;
            std::string rest; std::getline(i, rest);
            known.insert(k.substr(4)); known_text[k.substr(4)] = rest;
        }
    }

    std::string make_scratch(const std::string& name) {
        std::string d = scratch_root + "/" + name;
        std::error_code ec; std::filesystem::remove_all(d, ec);
        std::filesystem::create_directories(d);
        return d;
    }

    // run one case in this process
    static Result run_here(const Scenario& sc, Src& src, Ctx& c) {
        Result r;
        try { sc.fn(c); }
        catch (const Failure& f) { r.out = FAILED; r.key = f.key; r.msg = f.msg; }
        catch (const Discard&) { r.out = DISCARDED; }
        catch (const std::exception& e) { r.out = FAILED; r.key = "exception"; r.msg = std::string("unexpected exception: ") + e.what(); }
        catch (...) { r.out = FAILED; r.key = "exception"; r.msg = "unexpected exception of unknown type"; }
        return r;
    }

    static void child_setup(const std::string& errfile) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGPIPE, SIG_IGN);
        if (!errfile.empty()) {
            int fd = ::open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (fd >= 0) { dup2(fd, 2); ::close(fd); }
        }
        int nul = ::open("/dev/null", O_RDWR);
        if (nul >= 0) { dup2(nul, 0); dup2(nul, 1); if (nul > 2) ::close(nul); }
    }

    static std::string tail_of(const std::string& file) {
        std::ifstream f(file); std::stringstream b; b << f.rdbuf(); std::string s = b.str();
        // prefer the sanitizer or assertion headline
        for (const char* k : {"ERROR: AddressSanitizer", "runtime error:", "Assertion", "CHECK failed", "ERROR: LeakSanitizer", "terminate called"}) {
            size_t p = s.find(k);
            if (p != std::string::npos) { size_t b0 = s.rfind('\n', p); b0 = b0 == std::string::npos ? 0 : b0 + 1; return s.substr(b0, 500); }
        }
        return s.size() > 300 ? s.substr(s.size() - 300) : s;
    }

    static std::string describe_status(int st) {
        std::ostringstream o;
        if (WIFSIGNALED(st)) o << "process died with signal " << WTERMSIG(st); else o << "process exited with status " << WEXITSTATUS(st);
        return o.str();
    }

    // run one case in a child, given recorded choices
    Result run_isolated(const Scenario& sc, const std::vector<u64>& choices, std::string* desc = nullptr, std::vector<u64>* consumed = nullptr) {
        Slot* slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void*)slot, 0, sizeof(Slot));
        std::string dir = make_scratch("iso");
        std::string err = scratch_root + "/iso.err", out = scratch_root + "/iso.out";
        unlink(out.c_str());
        std::cout.flush();
        pid_t p = fork();
        if (p == 0) {
            setpgid(0, 0);
            child_setup(err);
            if (worker_init()) worker_init()();
            Src src(choices); Ctx c(src); c.scratch = dir; c.slot = slot; c.thorough = tier == "thorough";
            Result r = run_here(sc, src, c);
            std::ofstream f(out);
            f << (int)r.out << " " << src.rec.size() << " " << r.key.size() << " " << r.msg.size();
            for (u64 v : src.rec) f << " " << v;
            f << "\n" << r.key << r.msg << c.desc.str(); f.close();
            _exit(0);
        }
        setpgid(p, p);
        int st = 0; bool hung = !wait_for(p, st, hang_s);
        kill(-p, SIGKILL);
        Result r;
        std::ifstream f(out); int oc; 
        if (hung) { r.out = HUNG; r.key = *slot->key ? slot->key : "hang"; r.msg = "case did not finish within " + std::to_string(hang_s) + " s"; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && (f >> oc)) {
            size_t n = 0, kl = 0, ml = 0; f >> n >> kl >> ml; std::vector<u64> rec(n); for (auto& v : rec) f >> v;
            f.ignore(1);
            std::string rest((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            r.out = (Outcome)oc; r.key = rest.substr(0, kl); r.msg = rest.substr(std::min(kl, rest.size()), ml);
            if (desc) *desc = rest.substr(std::min(kl + ml, rest.size()));
            if (consumed) *consumed = rec;
        } else {
            r.out = CRASHED; r.key = *slot->key ? slot->key : "crash"; r.msg = describe_status(st) + ": " + tail_of(err);
        }
        munmap(slot, sizeof(Slot));
        return r;
    }

    static bool wait_for(pid_t p, int& st, double secs) {
        auto t0 = std::chrono::steady_clock::now();
        useconds_t us = 200;
        while (true) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) return true;
            if (r < 0 && errno != EINTR) { st = 0; return true; }
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) {
                kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); return false;
            }
            usleep(us); if (us < 20000) us += us / 4;
        }
    }

    static bool bad(const Result& r) { return r.out == FAILED || r.out == CRASHED || r.out == HUNG; }
    bool is_known(const Result& r) { return bad(r) && !r.key.empty() && known.count(r.key); }

    std::vector<u64> shrink(const Scenario& sc, std::vector<u64> best, const Result& r0, double secs) {
        auto t0 = std::chrono::steady_clock::now();
        auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs; };
        int saved_hang = hang_s; if (r0.out == HUNG) hang_s = std::min(hang_s, 10); 
        auto attempt = [&](const std::vector<u64>& cand) {
            if (over()) return false;
            std::vector<u64> used;
            Result r = run_isolated(sc, cand, nullptr, &used);
            if (bad(r) && !is_known(r) && (r.out == r0.out)) {
                if (!used.empty() && used.size() <= cand.size() ) best = used; else best = cand;
                return true;
            }
            return false;
        };
        bool progress = true;
        while (progress && !over()) {
            progress = false;
            // whole blocks to their simplest value
            for (size_t len = best.size() / 2; len >= 4 && !over(); len /= 2)
                for (size_t i = 0; i < best.size() && !over(); i += len) {
                    std::vector<u64> cand = best; bool changed = false;
                    for (size_t k = i; k < std::min(i + len, cand.size()); ++k) { changed |= cand[k] != 0; cand[k] = 0; }
                    if (changed && attempt(cand)) progress = true;
                }
            for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && !over(); len /= 2) {
                for (size_t i = best.size() >= len ? best.size() - len + 1 : 0; i-- > 0 && !over();) {
                    if (i + len > best.size()) continue;
                    std::vector<u64> cand(best.begin(), best.begin() + i);
                    cand.insert(cand.end(), best.begin() + i + len, best.end());
                    if (attempt(cand)) { progress = true; if (i > best.size()) i = best.size(); }
                    if (len > 8 && i >= len / 2) i -= len / 2; 
                }
            }
            for (size_t i = 0; i < best.size() && !over(); ++i) {
                if (best[i] == 0) continue;
                std::vector<u64> cand = best; cand[i] = 0;
                if (attempt(cand)) { progress = true; continue; }
                u64 lo = 0; int steps = 0;
                while (i < best.size() && best[i] > lo + 1 && steps++ < 12 && !over()) {
                    cand = best; u64 mid = lo + (best[i] - lo) / 2; cand[i] = mid;
                    if (attempt(cand)) progress = true; else lo = mid;
                }
            }
        }
        hang_s = saved_hang;
        return best;
    }

    std::string write_replay(const Scenario& sc, const std::vector<u64>& ch, const Result& r, const std::string& desc) {
        std::filesystem::create_directories(replay_dir);
        std::ostringstream name; name << replay_dir << "/" << property << "-" << sc.name << "-seed" << seed << ".replay";
        std::ofstream f(name.str());
        f << "property " << property << "\nscenario " << sc.name << "\nchoices";
        for (u64 v : ch) f << " " << v;
        f << "\nkey " << r.key << "\n# " << r.msg << "\n";
        std::istringstream i(desc); std::string l; while (std::getline(i, l)) f << "# " << l << "\n";
        return name.str();
    }

    int replay() {
        std::ifstream f(replay_file); std::string l, scn; std::vector<u64> ch;
        while (std::getline(f, l)) {
            std::istringstream i(l); std::string w; i >> w;
            if (w == "scenario") i >> scn; else if (w == "choices") { u64 v; while (i >> v) ch.push_back(v); }
        }
        for (auto& sc : scenarios()) if (sc.name == scn) {
            std::string d; Result r = run_isolated(sc, ch, &d);
            std::cout << d << "\noutcome " << r.out << " key=" << r.key << "\n" << r.msg << "\n";
            if (bad(r)) { std::cout << "VIOLATION property=" << property << " replay=" << replay_file << "\n"; return 1; }
            return 0;
        }
        std::cerr << "no scenario " << scn << "\n"; return 1;
    }

    u64 case_seed(const Scenario& sc, u64 i) const { return mix(mix(seed * 0x9e37 + hash_bytes(sc.name)) + i * 0x1234567ULL); }
    u64 count(const Scenario& sc) const { u64 n = tier == "thorough" ? sc.thorough : sc.quick; u64 m = (u64)(n * scale); return n && !m ? 1 : m; }

    int run() {
        auto t0 = std::chrono::steady_clock::now();
        auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
        // work list: (scenario, index), interleaved so that every scenario gets its share early
        std::vector<std::pair<int, u64>> work;
        u64 maxn = 0; auto& S = scenarios();
        for (auto& s : S) if (only.empty() || s.name == only) maxn = std::max(maxn, count(s));
        std::vector<u64> taken(S.size(), 0);
        for (u64 k = 1; k <= maxn; ++k)
            for (size_t j = 0; j < S.size(); ++j) {
                if (!only.empty() && S[j].name != only) continue;
                u64 n = count(S[j]); u64 want = (u64)((unsigned __int128)n * k / maxn);
                while (taken[j] < want) work.push_back({(int)j, taken[j]++});
            }
        Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void*)slots, 0, sizeof(Slot) * jobs);
        auto* cursor = (std::atomic<u64>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        auto* stop = cursor + 1; auto* timed_out = cursor + 2;
        struct W { pid_t pid = 0; u64 last_seq = 0; double last_change = 0; int gen = 0; };
        std::vector<W> w(jobs);
        auto part = [&](int i, int g) { return scratch_root + "/part." + std::to_string(i) + "." + std::to_string(g); };
        auto errf = [&](int i) { return scratch_root + "/w" + std::to_string(i) + ".err"; };
        auto start = [&](int i) {
            std::cout.flush();
            w[i].gen++;
            std::string dir = make_scratch("w" + std::to_string(i));
            pid_t p = fork();
            if (p == 0) {
                setpgid(0, 0);
                child_setup(errf(i));
                if (worker_init()) worker_init()();
                _exit(worker(work, cursor, stop, timed_out, &slots[i], dir, part(i, w[i].gen), t0));
            }
            setpgid(p, p);
            w[i].pid = p; w[i].last_change = elapsed(); w[i].last_seq = slots[i].seq;
        };
        struct Found { int sc; u64 idx; Result r; };
        std::vector<Found> found;
        int violations = 0, flaky = 0; std::string vline;
        // search phases: a phase ends when the work is done or a failure was seen;
        // if that failure turns out not to be reproducible the search goes on
        while (true) {
        found.clear(); *stop = 0;
        for (int i = 0; i < jobs; ++i) { slots[i].scenario = -1; start(i); }
        int live = jobs;
        while (live > 0) {
            bool any = false;
            for (int i = 0; i < jobs; ++i) {
                if (!w[i].pid) continue;
                int st; pid_t r = waitpid(w[i].pid, &st, WNOHANG);
                if (r == w[i].pid) {
                    any = true;
                    kill(-w[i].pid, SIGKILL);
                    w[i].pid = 0;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --live; continue; }
                    Result res;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == FAILED) { res.out = FAILED; res.key = slots[i].key; res.msg = slots[i].msg; }
                    else { res.out = CRASHED; res.key = *slots[i].key ? slots[i].key : "crash"; res.msg = describe_status(st) + ": " + tail_of(errf(i)); }
                    if (is_known(res)) known_seen.insert(res.key);
                    else { found.push_back({slots[i].scenario, slots[i].index, res}); *stop = 1; }
                    if (!*stop) start(i); else --live;
                } else {
                    u64 q = slots[i].seq;
                    if (q != w[i].last_seq) { w[i].last_seq = q; w[i].last_change = elapsed(); }
                    else if (elapsed() - w[i].last_change > hang_s && slots[i].scenario >= 0) {
                        kill(-w[i].pid, SIGKILL); kill(w[i].pid, SIGKILL); waitpid(w[i].pid, &st, 0); w[i].pid = 0; any = true;
                        Result res; res.out = HUNG; res.key = *slots[i].key ? slots[i].key : "hang"; res.msg = "case did not finish within " + std::to_string(hang_s) + " s";
                        if (is_known(res)) known_seen.insert(res.key); else { found.push_back({slots[i].scenario, slots[i].index, res}); *stop = 1; }
                        if (!*stop) start(i); else --live;
                    }
                }
            }
            if (!any) usleep(5000);
        }
        // deterministic choice among several failures
        std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return std::make_pair(a.sc, a.idx) < std::make_pair(b.sc, b.idx); });
        for (auto& fd : found) {
            if (fd.sc < 0) { std::cout << "worker failed outside a case: " << fd.r.msg << "\n"; ++flaky; continue; }
            auto& sc = S[fd.sc];
            std::cout << "candidate failure in " << sc.name << " #" << fd.idx << ": " << fd.r.msg.substr(0, 600) << "\n";
            std::vector<u64> ch;
            // obtain the choices by replaying the seed in a child
            ch = record(sc, fd.idx);
            Result r = run_isolated(sc, ch);
            if (!bad(r)) { // maybe state dependent: try twice more
                for (int k = 0; k < (fd.r.out == HUNG ? 1 : 2) && !bad(r); ++k) r = run_isolated(sc, ch);
            }
            if (!bad(r)) { std::cout << "  not reproducible in isolation, ignored as flaky\n"; ++flaky; continue; }
            if (is_known(r)) { known_seen.insert(r.key); continue; }
            ch = shrink(sc, ch, r, 45);
            std::string desc; int rep = 0; Result last = r;
            for (int k = 0; k < 3 && !(rep && last.out == HUNG); ++k) { std::string d; Result q = run_isolated(sc, ch, &d); if (bad(q) && !is_known(q)) { ++rep; last = q; desc = d; } }
            if (!rep) { ch = record(sc, fd.idx); for (int k = 0; k < 3; ++k) { Result q = run_isolated(sc, ch, &desc); if (bad(q)) { ++rep; last = q; } } }
            if (!rep) { std::cout << "  not reproducible, ignored as flaky\n"; ++flaky; continue; }
            std::string file = write_replay(sc, ch, last, desc);
            std::cout << desc << "\n" << last.msg << "\n(reproduced " << rep << "/3)\n";
            vline = "VIOLATION property=" + property + " replay=" + file;
            std::cout << vline << std::endl;
            ++violations;
            break;
        }
        if (violations || found.empty() || flaky > 20) break;
        }
        // collect statistics
        u64 evals = 0, discarded = 0; for (int i = 0; i < jobs; ++i) evals += slots[i].done;
        std::set<u64> nontriv; std::map<std::string, u64> labels, per; std::map<std::string, std::vector<std::string>> samples;
        for (int i = 0; i < jobs; ++i) for (int g = 1; g <= w[i].gen; ++g) {
            std::ifstream f(part(i, g)); std::string l;
            while (std::getline(f, l)) {
                std::istringstream s(l); char t; s >> t;
                if (t == 'E') continue;
                else if (t == 'D') { u64 n; s >> n; discarded += n; }
                else if (t == 'H') { u64 h; while (s >> h) nontriv.insert(h); }
                else if (t == 'L') { u64 n; s >> n; s.ignore(1); std::string k; std::getline(s, k); labels[k] += n; }
                else if (t == 'P') { u64 n; std::string k; s >> n >> k; per[k] += n; }
                else if (t == 'K') { std::string k; s >> k; known_seen.insert(k); }
                else if (t == 'S') { std::string k; s >> k; s.ignore(1); std::string rest; std::getline(s, rest); if (samples[k].size() < 2) samples[k].push_back(rest); }
            }
        }
        for (auto& k : known_seen) std::cout << "KNOWN-FINDING: property=" << property << known_text[k] << " [" << k << "]\n";
        double wall = elapsed();
        if (!evidence.empty()) {
            std::filesystem::create_directories(std::filesystem::path(evidence).parent_path());
            std::ofstream f(evidence);
            f << "{\n \"property\": " << json_str(property) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed
              << ",\n \"level\": \"" << (getenv("VERIF_LEVEL") ? getenv("VERIF_LEVEL") : "exploration") << "\",\n \"coverage\": {\n  \"evaluations\": " << evals
              << ",\n  \"distinct_nontrivial\": " << nontriv.size() << ",\n  \"rule\": " << json_str(rule()) << ",\n  \"samples\": [";
            bool first = true;
            for (auto& s : samples) for (auto& x : s.second) { f << (first ? "" : ",") << "\n   " << json_str(s.first + ": " + x); first = false; }
            f << "\n  ],\n  \"cases_per_scenario\": {"; first = true;
            for (auto& p : per) { f << (first ? "" : ", ") << json_str(p.first) << ": " << p.second; first = false; }
            f << "},\n  \"classes\": {"; first = true;
            for (auto& p : labels) { f << (first ? "" : ", ") << json_str(p.first) << ": " << p.second; first = false; }
            f << "},\n  \"discarded\": " << discarded << ",\n  \"stopped_by_time_budget\": " << (*timed_out ? "true" : "false") << ",\n  \"unreproducible_failures\": " << flaky << "\n },\n \"assumptions\": [";
            first = true; for (auto& a : assumptions()) { f << (first ? "" : ", ") << json_str(a); first = false; }
            f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
        }
        std::cout << property << " " << tier << " seed=" << seed << ": " << evals << " cases, " << nontriv.size() << " distinct non-trivial, " << violations << " violations, " << wall << " s\n";
        if (violations) std::cout << vline << std::endl;
        return violations ? 1 : 0;
    }

    // choices of case idx: the generator is re-run in a child writing each choice to shared memory
    std::vector<u64> record(const Scenario& sc, u64 idx) {
        size_t cap = 8u << 20; 
        u64* buf = (u64*)mmap(nullptr, cap * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pid_t p = fork();
        if (p == 0) {
            setpgid(0, 0);
            child_setup(scratch_root + "/rec.err");
            if (worker_init()) worker_init()();
            struct RecSrc : Src { using Src::Src; };
            Src src(case_seed(sc, idx)); Ctx c(src); c.scratch = make_scratch("rec"); c.thorough = tier == "thorough";
            Slot* sl = (Slot*)calloc(1, sizeof(Slot)); c.slot = sl;
            recording() = &src.rec; 
            shared_buf() = buf; shared_cap() = cap;
            std::set_terminate([] { dump_recording(); _exit(9); });
            for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTERM}) signal(s, [](int) { dump_recording(); _exit(9); });
            alarm(hang_s + 5);
            run_here(sc, src, c); dump_recording();
            _exit(0);
        }
        setpgid(p, p);
        int st; wait_for(p, st, hang_s + 20);
        kill(-p, SIGKILL);
        std::vector<u64> v(buf + 1, buf + 1 + buf[0]);
        munmap(buf, cap * 8 + 8);
        return v;
    }
    static std::vector<u64>*& recording() { static std::vector<u64>* p; return p; }
    static u64*& shared_buf() { static u64* p; return p; }
    static size_t& shared_cap() { static size_t n; return n; }
public:
    static void dump_recording() {
        if (!recording() || !shared_buf()) return;
        size_t n = std::min(recording()->size(), shared_cap() - 1);
        memcpy(shared_buf() + 1, recording()->data(), n * 8); shared_buf()[0] = n;
    }

    int worker(const std::vector<std::pair<int, u64>>& work, std::atomic<u64>* cursor, std::atomic<u64>* stop, std::atomic<u64>* timed_out, Slot* slot,
               const std::string& dir, const std::string& part, std::chrono::steady_clock::time_point t0) {
        auto& S = scenarios();
        u64 evals = 0, disc = 0; std::set<u64> nt; std::map<std::string, u64> labels, per; std::set<std::string> ks; std::map<std::string, std::vector<std::string>> samples;
        auto flush = [&] {
            std::ofstream f(part);
            f << "E " << evals << "\nD " << disc << "\nH"; for (u64 h : nt) f << " " << h; f << "\n";
            for (auto& l : labels) f << "L " << l.second << " " << l.first << "\n";
            for (auto& l : per) f << "P " << l.second << " " << l.first << "\n";
            for (auto& k : ks) f << "K " << k << "\n";
            for (auto& s : samples) for (auto& x : s.second) f << "S " << s.first << " " << x << "\n";
        };
        while (!*stop) {
            u64 k = cursor->fetch_add(1);
            if (k >= work.size()) break;
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s) { *timed_out = 1; break; }
            const Scenario& sc = S[work[k].first]; u64 idx = work[k].second;
            slot->scenario = work[k].first; slot->index = idx; slot->key[0] = 0; slot->seq++;
            Src src(case_seed(sc, idx)); Ctx c(src); c.scratch = dir; c.slot = slot; c.thorough = tier == "thorough";
            Result r;
            if (sc.fork_each) {
                int fd[2]; if (pipe(fd)) _exit(8);
                pid_t p = fork();
                if (p == 0) {
                    setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
                    ::close(fd[0]);
                    Result q = run_here(sc, src, c);
                    std::ostringstream o; o << (int)q.out << "\n" << (c.is_nontrivial ? 1 : 0) << "\n" << hash_bytes(c.desc.str()) << "\n" << c.labels.size() << "\n";
                    for (auto& l : c.labels) o << l.second << " " << l.first << "\n";
                    std::string d = c.desc.str().substr(0, 1500); for (auto& ch : d) if (ch == '\n') ch = ';';
                    o << d << "\n" << q.key << "\n" << q.msg; std::string s = o.str();
                    size_t off = 0; while (off < s.size()) { ssize_t n = ::write(fd[1], s.data() + off, s.size() - off); if (n <= 0) break; off += n; }
                    _exit(0);
                }
                ::close(fd[1]);
                std::string s; char b[4096]; ssize_t n;
                auto c0 = std::chrono::steady_clock::now();
                // the pipe may be inherited by stray grandchildren: bounded by the parent's hang detection
                while ((n = ::read(fd[0], b, sizeof b)) > 0) s.append(b, n);
                ::close(fd[0]);
                (void)c0;
                int st; waitpid(p, &st, 0); kill(-p, SIGKILL);
                std::istringstream in(s); int oc, ntv; u64 h; size_t nl;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && (in >> oc >> ntv >> h >> nl)) {
                    std::string l; for (size_t q = 0; q < nl; ++q) { u64 cnt; in >> cnt; in.ignore(1); std::getline(in, l); c.labels[l] += cnt; if (q + 1 == nl) break; }
                    if (nl == 0) in.ignore(1);
                    std::string d; std::getline(in, d); c.desc << d; c.is_nontrivial = ntv;
                    std::getline(in, r.key); std::string m((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); r.msg = m; r.out = (Outcome)oc;
                } else { flush(); if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } _exit(WEXITSTATUS(st) ? (WEXITSTATUS(st) == FAILED ? 98 : WEXITSTATUS(st)) : 97); }
            } else r = run_here(sc, src, c);
            ++evals; slot->done++; per[sc.name]++;
            if (bad(r)) {
                if (is_known(r)) { ks.insert(r.key); continue; }
                strncpy(slot->key, r.key.c_str(), sizeof(slot->key) - 1); strncpy(slot->msg, r.msg.c_str(), sizeof(slot->msg) - 1);
                flush(); return FAILED;
            }
            if (r.out == DISCARDED) { ++disc; continue; }
            for (auto& l : c.labels) labels[l.first] += l.second;
            if (c.is_nontrivial) {
                nt.insert(hash_bytes(sc.name + "|" + c.desc.str()));
                if (samples[sc.name].size() < 1) { std::string d = c.desc.str().substr(0, 900); for (auto& ch : d) if (ch == '\n') ch = ';'; samples[sc.name].push_back(d); }
            }
        }
        slot->scenario = -1;
        flush();
        return 0;
    }

    int main(int argc, char** argv) {
        main_pid = getpid();
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--property") property = v; else if (a == "--tier") tier = v; else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
            else if (a == "--evidence") evidence = v; else if (a == "--replay-dir") replay_dir = v; else if (a == "--replay") replay_file = v;
            else if (a == "--known") known_file = v; else if (a == "--jobs") jobs = atoi(v.c_str()); else if (a == "--scale") scale = atof(v.c_str());
            else if (a == "--only") only = v; else if (a == "--budget") budget_s = atoi(v.c_str()); else if (a == "--scratch") scratch_root = v;
            else if (a == "--hang") hang_s = atoi(v.c_str());
            else { std::cerr << "bad option " << a << "\n"; return 2; }
        }
        if (scratch_root.empty()) { char t[] = "/tmp/verif-XXXXXX"; scratch_root = mkdtemp(t); }
        setenv("TZ", "XVT-5:45XVS,M3.5.0,M10.5.0/3", 1); tzset(); // far from UTC, with summer time: nothing may depend on it
        load_known();
        int rc = replay_file.empty() ? run() : replay();
        std::error_code ec; std::filesystem::remove_all(scratch_root, ec);
        return rc;
    }
};

} // namespace pbt

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
extern "C" __attribute__((visibility("default"))) const char* __asan_default_options() {
#ifdef PBT_DETECT_LEAKS
    return "detect_leaks=1:allocator_may_return_null=1:quarantine_size_mb=8:exitcode=99:handle_abort=0:malloc_context_size=8";
#else
    return "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=8:exitcode=99:handle_abort=0:malloc_context_size=8";
#endif
}
extern "C" __attribute__((visibility("default"))) const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }
#endif

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) {
#if !defined(__SANITIZE_ADDRESS__)
    mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 2000000000);
#else
    __sanitizer_set_death_callback(pbt::Runner::dump_recording);
#endif
    pbt::Runner r;
    return r.main(argc, argv);
}
#endif

#endif
