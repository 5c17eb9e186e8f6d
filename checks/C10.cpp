// A file that could not be written completely is always reported.
// LIBS: pbf xml dl
// FLAGS: -rdynamic
// TOOLS: osmium_convert
// LEVEL: fault_enumeration
#include "io.hpp"
#include "tool.hpp"
#include <dlfcn.h>
#include <sys/uio.h>
using namespace model;

RULE("a case counts as non-trivial if a fault was injected into at least one write that the writer made; distinct by description of stream, options and faults");
ASSUME("SIGPIPE is ignored, so that a broken pipe shows up as an error of write()");

// ------------------------------------------------------------ faults on write()
namespace faults {
struct Action { int kind; size_t arg; }; // 1 fail with errno arg, 2 transfer at most arg bytes, 3 EINTR
static std::map<size_t, Action> plan; static size_t count = 0, hard = 0, soft = 0; static int target_dev_valid = 0; static bool on = false; static long long room = -1, used = 0; static int close_error = 0; static std::set<int> written;
static void reset() { plan.clear(); count = hard = soft = 0; room = -1; used = 0; close_error = 0; }
static ssize_t apply(int fd, const void* buf, size_t n, ssize_t (*real)(int, const void*, size_t)) {
    if (!on || fd <= 2) return real(fd, buf, n);
    size_t i = count++; written.insert(fd);
    auto it = plan.find(i);
    if (it != plan.end()) {
        if (it->second.kind == 1) { ++hard; errno = (int)it->second.arg; return -1; }
        if (it->second.kind == 3) { ++soft; errno = EINTR; return -1; }
        if (it->second.kind == 2 && n > it->second.arg) { ++soft; n = it->second.arg ? it->second.arg : 1; }
    }
    if (room >= 0) { // a disk with limited room
        if (used >= room) { ++hard; errno = ENOSPC; return -1; }
        if (used + (long long)n > room) { n = room - used; ++soft; }
    }
    ssize_t r = real(fd, buf, n); if (r > 0) used += r; return r;
}
}
typedef ssize_t (*write_t)(int, const void*, size_t);
extern "C" ssize_t write(int fd, const void* buf, size_t n) { static write_t real = (write_t)dlsym(RTLD_NEXT, "write"); return faults::apply(fd, buf, n, real); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int cnt) { // not used today; give it the same treatment
    ssize_t total = 0; for (int i = 0; i < cnt; ++i) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return total ? total : r; total += r; if ((size_t)r < v[i].iov_len) break; } return total;
}
extern "C" ssize_t pwrite(int fd, const void* buf, size_t n, off_t) { return write(fd, buf, n); }

extern "C" int close(int fd) { typedef int (*close_t)(int); static close_t real = (close_t)dlsym(RTLD_NEXT, "close"); int r = real(fd); if (faults::on && faults::close_error && faults::written.erase(fd) && r == 0) { ++(faults::close_error == EINTR ? faults::soft : faults::hard); errno = faults::close_error; return -1; } return r; }

static Data stream(Ctx& c, bool many) {
    Data d; 
    if (!many) { GenOpts g; g.xml_text = true; g.history = c.chance(30); g.sub_more = 35; g.more = 70; d = gen_data(c, g); for (auto& o : d.objs) if (o.version > 2147483647u) o.version = 1; return d; }
    Bulk b{c.upto(~0ULL)}; size_t n = 3000 + c.upto(9000); for (size_t i = 0; i < n; ++i) d.objs.push_back(bulk_obj(b, i < n / 2 ? 0 : i < n * 3 / 4 ? 1 : 2, i + 1, 400, 3)); return d;
}
struct Outcome { bool reported = false; std::string how; std::string bytes; size_t writes = 0, hard = 0, soft = 0; };
static Outcome attempt(Ctx& c, const std::string& p, const Data& d, const WOpts& w, bool generic) {
    Outcome o; unlink(p.c_str()); size_t fds = count_fds(); faults::count = faults::hard = faults::soft = 0; faults::used = 0; faults::written.clear();
    faults::on = true;
    try {
        if (generic) { Osmium::OSMFile file = mkfile(p, w.type, w.enc); Osmium::Output::Handler h(file); feed(h, d, w.multi()); } else write_file(p, d, w);
    } catch (const std::exception& e) { o.reported = true; o.how = e.what(); } catch (...) { o.reported = true; o.how = "exception"; }
    faults::on = false;
    o.writes = faults::count; o.hard = faults::hard; o.soft = faults::soft; o.bytes = slurp(p);
    c.eq(count_fds(), fds, "open file descriptors afterwards");
    return o;
}
static const std::vector<int>& errnos() { static const std::vector<int> e = {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE, EAGAIN, EBADF}; return e; }
static std::string ename(int e) { return strerror(e); }

// every single write of a run fails once
static void enumerate(Ctx& c, bool many) {
    WOpts w = gen_wopts(c, c.weighted({50, 50})); Data d = stream(c, many); bool generic = c.chance(30); if (generic && w.enc == PBF) { WOpts n; n.type = w.type; n.enc = PBF; w = n; }
    std::string p = c.path("out"); describe(c, w); if (many) c.desc << d.objs.size() << " bulk objects"; else describe(c, d, 8);
    faults::reset(); Outcome ref = attempt(c, p, d, w, generic); c.check(!ref.reported, "writing without faults fails: " + ref.how); size_t n = ref.writes; c.check(n > 0, "no writes seen");
    c.desc << " all " << n << " writes"; int e = c.pick(errnos());
    size_t step = n > 60 ? n / 60 : 1, first = step > 1 ? c.upto(step - 1) : 0; std::vector<size_t> at; for (size_t i = first; i < n; i += step) at.push_back(i); at.push_back(n - 1); if (n > 1) at.push_back(n - 2);
    c.desc << " with " << ename(e);
    for (size_t i : at) {
        faults::reset(); faults::plan[i] = {1, (size_t)e}; Outcome o = attempt(c, p, d, w, generic);
        if (o.hard) c.nontrivial(); c.label("failing write");
        c.check(o.hard == 0 || o.reported, "write " + std::to_string(i) + " of " + std::to_string(n) + " failed with " + ename(e) + " and nothing was reported");
        c.check(o.reported || o.bytes == ref.bytes, "no failure reported, but the file is not complete");
        faults::reset(); faults::plan[i] = {c.chance(70) ? 2 : 3, c.upto(20)}; o = attempt(c, p, d, w, generic); c.label("short or interrupted write");
        c.check(!o.reported, "write " + std::to_string(i) + " of " + std::to_string(n) + (faults::plan[i].kind == 3 ? " was interrupted" : " transferred only a part") + " and was reported as a failure: " + o.how);
        c.check(o.bytes == ref.bytes, "write " + std::to_string(i) + " of " + std::to_string(n) + (faults::plan[i].kind == 3 ? " was interrupted" : " transferred only a part") + " and the file differs (" + std::to_string(o.bytes.size()) + " of " + std::to_string(ref.bytes.size()) + " bytes)");
    }
    unlink(p.c_str());
}
SCENARIO(every_write_small, 60, 2500) { enumerate(c, false); }
SCENARIO(every_write_large, 10, 200) { enumerate(c, true); }

SCENARIO(fault_sequences, 500, 25000) {
    bool many = c.chance(12); WOpts w = gen_wopts(c, c.weighted({50, 50})); Data d = stream(c, many); std::string p = c.path("out"); describe(c, w); if (many) c.desc << d.objs.size() << " bulk objects"; else describe(c, d, 8);
    faults::reset(); Outcome ref = attempt(c, p, d, w, false); c.check(!ref.reported, "writing without faults fails: " + ref.how);
    faults::reset(); c.desc << " faults:"; bool mayfail = c.chance(50);
    // continuing short writes makes more writes than the reference run has
    while (c.more(80)) { size_t i = c.upto(ref.writes * 2 + 4); int k = mayfail ? 1 + c.upto(2) : 2 + c.upto(1); size_t a = k == 1 ? c.pick(errnos()) : 1 + c.upto(c.chance(50) ? 3 : 3000); faults::plan[i] = {k, a}; c.desc << " " << i << (k == 1 ? " " + ename(a) : k == 2 ? " short " + std::to_string(a) : " interrupted"); }
    Outcome o = attempt(c, p, d, w, false); c.nontrivial(o.hard || o.soft); c.label(o.hard ? "hard fault" : o.soft ? "soft faults only" : "no fault reached");
    if (o.hard) c.check(o.reported, "a write failed and nothing was reported");
    else { c.check(!o.reported, "only short and interrupted writes, but a failure was reported: " + o.how); c.check(o.bytes == ref.bytes, "file differs after short and interrupted writes: " + std::to_string(o.bytes.size()) + " of " + std::to_string(ref.bytes.size()) + " bytes"); }
    unlink(p.c_str());
}
// a remote file system may say only at the end that data could not be stored
SCENARIO(failing_close, 200, 8000) {
    bool many = c.chance(12); WOpts w = gen_wopts(c, c.weighted({50, 50})); Data d = stream(c, many); bool generic = c.chance(30); if (generic && w.enc == PBF) { WOpts n; n.type = w.type; n.enc = PBF; w = n; } std::string p = c.path("out"); describe(c, w); if (many) c.desc << d.objs.size() << " bulk objects"; else describe(c, d, 8);
    faults::reset(); Outcome ref = attempt(c, p, d, w, generic); c.check(!ref.reported, "writing without faults fails: " + ref.how);
    int e = c.chance(20) ? EINTR : c.pick(std::vector<int>{ENOSPC, EIO, EDQUOT}); c.desc << " close: " << ename(e); faults::reset(); faults::close_error = e; Outcome o = attempt(c, p, d, w, generic); faults::reset(); c.nontrivial();
    c.check(o.hard + o.soft > 0, "the file written was not closed"); if (o.hard) c.check(o.reported, "closing the file failed with " + ename(e) + " and nothing was reported"); else c.check(!o.reported && o.bytes == ref.bytes, "closing was interrupted and a failure was reported: " + o.how);
    unlink(p.c_str());
}
SCENARIO(disk_full, 300, 15000) {
    bool many = c.chance(15); WOpts w = gen_wopts(c, c.weighted({50, 50})); Data d = stream(c, many); std::string p = c.path("out"); describe(c, w); if (many) c.desc << d.objs.size() << " bulk objects"; else describe(c, d, 8);
    faults::reset(); Outcome ref = attempt(c, p, d, w, false); c.check(!ref.reported, "writing without faults fails: " + ref.how);
    for (int k = 0; k < 4; ++k) {
        long long room = c.chance(40) ? (long long)ref.bytes.size() - (long long)c.upto(std::min<size_t>(ref.bytes.size(), 40)) : (long long)c.upto(ref.bytes.size());
        faults::reset(); faults::room = room; c.desc << " room for " << room << " of " << ref.bytes.size();
        Outcome o = attempt(c, p, d, w, false); bool fits = room >= (long long)ref.bytes.size(); c.nontrivial(); c.label(fits ? "fits exactly" : "disk full");
        if (fits) { c.check(!o.reported, "the file fits, but a failure was reported: " + o.how); c.check(o.bytes == ref.bytes, "file differs"); }
        else c.check(o.reported, "only " + std::to_string(room) + " of " + std::to_string(ref.bytes.size()) + " bytes could be written and nothing was reported");
    }
    unlink(p.c_str());
}
// the real thing: size limit of the process, all encodings
SCENARIO_FORK(size_limit, 120, 4000) {
    signal(SIGXFSZ, SIG_IGN); faults::reset();
    int enc = c.upto(3); WOpts w = gen_wopts(c, enc); bool many = c.chance(40); Data d = stream(c, many); std::string p = c.path("out"); describe(c, w); if (many) c.desc << d.objs.size() << " bulk objects"; else describe(c, d, 8);
    faults::reset(); Outcome ref = attempt(c, p, d, w, false); c.check(!ref.reported, "writing without faults fails: " + ref.how);
    size_t full = ref.bytes.size(), lim = c.chance(40) ? full - c.upto(std::min<size_t>(full, 30)) : c.upto(full); c.desc << " limit " << lim << " of " << full;
    struct rlimit rl = {lim, RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &rl); Outcome o = attempt(c, p, d, w, false); rl.rlim_cur = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &rl);
    c.nontrivial(); c.label(lim < full ? "limit hit" : "limit just enough");
    if (lim < full) c.check(o.reported, "only " + std::to_string(lim) + " of " + std::to_string(full) + " bytes could be written and nothing was reported");
    else { c.check(!o.reported, "the file fits, but a failure was reported: " + o.how); c.check(o.bytes == ref.bytes || enc == GZ, "file differs"); }
    if (!o.reported && enc == GZ) { Capture cap; read_file(p, w.type, enc, cap); c.eq(cap.objs.size(), d.objs.size(), "objects"); }
}
// a compression program that fails: at once, after some input, after all of it, by a signal, or that does not exist
SCENARIO_FORK(failing_compressor, 100, 3000) {
    signal(SIGPIPE, SIG_IGN); faults::reset();
    int enc = c.chance(50) ? GZ : BZ2; WOpts w = gen_wopts(c, enc); bool many = c.chance(40); Data d = stream(c, many); std::string p = c.path("out"), bin = c.path("bin"); describe(c, w); if (many) c.desc << d.objs.size() << " bulk objects"; else describe(c, d, 8);
    mkdir(bin.c_str(), 0700); std::string prog = bin + "/" + (enc == GZ ? "gzip" : "bzip2"), real = enc == GZ ? "/usr/bin/gzip" : "/usr/bin/bzip2"; if (access(real.c_str(), X_OK)) real = real.substr(4);
    int how = c.upto(6); int st = c.pick(std::vector<int>{1, 2, 127, 255});
    static const char* what[] = {"fails at once", "fails after some input", "fails after all input", "killed by a signal at the end", "does not exist", "not executable", "fails after writing everything"};
    c.desc << " program " << what[how] << " status " << st; c.label(what[how]); unlink(prog.c_str());
    std::string sc = "#!/bin/sh\nPATH=/usr/bin:/bin\n";
    switch (how) {
        case 0: sc += "exit " + std::to_string(st) + "\n"; break;
        case 1: sc += "head -c " + std::to_string(1 + c.upto(500)) + " >/dev/null\nexit " + std::to_string(st) + "\n"; break;
        case 2: sc += "cat >/dev/null\nexit " + std::to_string(st) + "\n"; break;
        case 3: sc += "cat >/dev/null\nkill -9 $$\n"; break;
        case 6: sc += real + "\nexit " + std::to_string(st) + "\n"; break;
    }
    if (how != 4) { spit(prog, sc); chmod(prog.c_str(), how == 5 ? 0644 : 0755); }
    setenv("PATH", bin.c_str(), 1);

    Outcome o = attempt(c, p, d, w, c.chance(30)); c.nontrivial();
    c.check(o.reported, std::string("compression program ") + what[how] + " and nothing was reported");
    setenv("PATH", "/usr/local/bin:/usr/bin:/bin", 1); Outcome ok = attempt(c, p, d, w, false); c.check(!ok.reported, "afterwards writing fails: " + ok.how);
    Capture cap; read_file(p, w.type, enc, cap); c.eq(cap.objs.size(), d.objs.size(), "objects written afterwards");
}
// outputs that take nothing
SCENARIO_FORK(dev_full, 60, 1500) {
    signal(SIGPIPE, SIG_IGN); faults::reset();
    int enc = c.upto(3); WOpts w = gen_wopts(c, enc); bool many = c.chance(40); Data d = stream(c, many); describe(c, w); if (many) c.desc << d.objs.size() << " bulk objects"; else describe(c, d, 8);
    bool reported = false; try { write_file("/dev/full", d, w); } catch (...) { reported = true; } c.nontrivial(); c.check(reported, "writing to a full device was not reported");
}
SCENARIO(tool_reports, 40, 800) {
    Data d = stream(c, c.chance(40)); WOpts w; w.enc = c.upto(1); std::string in = c.path(w.enc == PBF ? "in.osm.pbf" : "in.osm"); write_file(in, d, w); static const std::vector<std::string> F = {"pbf", "osm", "osm.gz", "osm.bz2"}; int to = c.upto(3);
    c.desc << d.objs.size() << " objects from " << F[w.enc] << " to " << F[to]; std::string link = c.path("full." + F[to]); unlink(link.c_str()); if (symlink("/dev/full", link.c_str())) throw pbt::Discard();
    auto r = tool::run("osmium_convert", {in, link}); c.nontrivial(); c.check(r.status != 0, "the convert tool reports success on a full device");
    if (to < 2) { r = tool::run("osmium_convert", {"-t", F[to], in}, "", "/dev/full"); c.check(r.status != 0, "the convert tool reports success with standard output on a full device"); }
    std::string out = c.path("ok." + F[to]); r = tool::run("osmium_convert", {in, out}); c.eq(r.status, 0, "status of the convert tool"); Capture cap; read_file(out, OSM, to, cap); c.eq(cap.objs.size(), d.objs.size(), "objects converted"); unlink(link.c_str());
}
