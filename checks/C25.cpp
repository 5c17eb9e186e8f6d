// Opening and closing files leaks nothing and reports failures.
// LIBS: pbf xml dl
// FLAGS: -rdynamic
#include "io.hpp"
#include <dlfcn.h>
using namespace model;
using Osmium::OSMFile;

RULE("a case counts as non-trivial if at least two files were open at the same time, a file was opened again while open, or an operation had to fail; distinct by description");
ASSUME("SIGPIPE is ignored; a file that is closed before everything was read from its decompression program may or may not report that");
ASSUME("compressed data is not combined with standard input, standard output or URLs");

// ------------------------------------------------------------ faults of system calls
namespace faults { static int fail_pipe = 0, fail_fork = 0, interrupt_wait = 0; static int hit_pipe = 0, hit_fork = 0, hit_wait = 0; static void reset() { fail_pipe = fail_fork = interrupt_wait = hit_pipe = hit_fork = hit_wait = 0; } }
extern "C" int pipe(int fd[2]) noexcept { static auto real = (int (*)(int*))dlsym(RTLD_NEXT, "pipe"); if (faults::fail_pipe) { ++faults::hit_pipe; errno = faults::fail_pipe; return -1; } return real(fd); }
extern "C" int pipe2(int fd[2], int fl) noexcept { static auto real = (int (*)(int*, int))dlsym(RTLD_NEXT, "pipe2"); if (faults::fail_pipe) { ++faults::hit_pipe; errno = faults::fail_pipe; return -1; } return real(fd, fl); }
extern "C" pid_t fork() noexcept { static auto real = (pid_t (*)())dlsym(RTLD_NEXT, "fork"); if (faults::fail_fork) { ++faults::hit_fork; errno = faults::fail_fork; return -1; } return real(); }
extern "C" pid_t waitpid(pid_t p, int* st, int o) { static auto real = (pid_t (*)(pid_t, int*, int))dlsym(RTLD_NEXT, "waitpid"); if (faults::interrupt_wait > 0) { --faults::interrupt_wait; ++faults::hit_wait; errno = EINTR; return -1; } return real(p, st, o); }

// ------------------------------------------------------------ files to work with
struct World {
    Ctx& c; std::string dir, small, big; int out_no = 0, in_no = 0;
    explicit World(Ctx& c) : c(c), dir(c.scratch) {
        small = "small file\n"; Bulk b{7}; for (int i = 0; i < 40000; ++i) { uint64_t v = b.next(); big.append((char*)&v, 8); }
    }
    std::string content(int k) const { return k == 0 ? small : k == 1 ? big : std::string(); } // 2: empty
    // file with content k in the given encoding
    std::string input(int k, int enc) {
        std::string n = c.path("in" + std::to_string(k) + "-" + std::to_string(in_no++)); spit(n, content(k));
        if (enc == GZ || enc == BZ2) { std::string z = n + (enc == GZ ? ".gz" : ".bz2"); if (system(((enc == GZ ? "gzip -c " : "bzip2 -c ") + n + " > " + z).c_str())) throw pbt::Discard(); return z; }
        return n;
    }
    // the same file under a relative name, which may look like an option of a program or begin like a URL
    std::string relative(const std::string& f, bool dash) {
        if (dash && c.chance(25)) { std::string n = c.pick(std::vector<std::string>{"http", "https", "http_x"}); if (chdir(dir.c_str()) || rename(f.c_str(), (dir + "/" + n).c_str())) throw pbt::Discard(); c.label("name like a URL"); return n; }
        std::string n = (dash ? std::string("-") : std::string()) + std::filesystem::path(f).filename().string(); if (chdir(dir.c_str()) || (dash && rename(f.c_str(), (dir + "/" + n).c_str()))) throw pbt::Discard(); if (dash) c.label("name with a dash"); return n;
    }
    std::string unpack(const std::string& f, int enc) {
        if (enc != GZ && enc != BZ2) return slurp(f);
        std::string t = c.path("unpacked"); unlink(t.c_str()); int r = system(((enc == GZ ? "/usr/bin/gzip -dc " : "/usr/bin/bzip2 -dc ") + f + " > " + t + " 2>/dev/null").c_str()); if (r) return "<not a compressed file>"; return slurp(t);
    }
    // a program found first by children started from now on; in a directory of its own, because earlier children may still be looking for theirs
    void program(const std::string& name, const std::string& body) {
        std::string d = c.path("bin" + std::to_string(in_no++)), p = d + "/" + name; mkdir(d.c_str(), 0700); spit(p, "#!/bin/sh\nPATH=/usr/bin:/bin\n" + body + "\n"); chmod(p.c_str(), 0755); setenv("PATH", (d + ":/usr/local/bin:/usr/bin:/bin").c_str(), 1);
    }
    void usual_programs() { setenv("PATH", "/usr/local/bin:/usr/bin:/bin", 1); }
};
static const char* progs[4][2] = {{"", ""}, {"", ""}, {"zcat", "gzip"}, {"bzcat", "bzip2"}};

struct Slot {
    std::unique_ptr<OSMFile> f; int enc = PBF, type = OSM; std::string name;
    int mode = 0;                    // 0 closed, 1 reading, 2 writing
    int end = 0;                     // closing: 0 must succeed, 1 must fail, 2 either
    bool std_stream = false; std::string data; size_t pos = 0; bool eof = false; std::string out; 
};
static std::string read_some(int fd, size_t n) { std::string s(n, 0); size_t got = 0; while (got < n) { ssize_t r = ::read(fd, &s[got], n - got); if (r <= 0) break; got += r; } s.resize(got); return s; }
static bool any_child() { siginfo_t i; memset(&i, 0, sizeof i); return !(waitid(P_ALL, 0, &i, WEXITED | WNOHANG | WNOWAIT) < 0 && errno == ECHILD); }

static void history(Ctx& c, bool with_std, bool with_faults) {
    faults::reset(); signal(SIGPIPE, SIG_IGN); World w(c); c.crash_key("");
    w.usual_programs();
    // the program may have other files open, and any standard stream closed
    std::vector<int> dummies; if (c.chance(40)) { size_t n = c.pick(std::vector<size_t>{1, 20, 24, 25, 26, 27, 28, 29, 30, 31, 40, 70}); c.desc << n << " other files; "; for (size_t i = 0; i < n; ++i) dummies.push_back(open("/dev/null", O_RDONLY)); c.label("many open files"); }
    std::string std_in = c.path("stdin"), std_out = c.path("stdout"); bool in_used = false, out_used = false;
    spit(std_in, w.small); { int i = open(std_in.c_str(), O_RDONLY), o = open(std_out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(i, 0); dup2(o, 1); close(i); close(o); }
    if (!with_std && c.chance(25)) { int m = c.upto(7); for (int i = 0; i < 3; ++i) if (m >> i & 1) close(i); c.desc << "standard streams closed: " << m << "; "; c.label_if(m, "standard streams closed"); }
    size_t base = count_fds(); std::vector<Slot> s(4); bool trouble = false; size_t most = 0;

    auto open_count = [&] { size_t n = 0; for (auto& x : s) n += x.mode && !x.std_stream; return n; };
    auto kids = [&] { bool k = false; for (auto& x : s) k |= x.mode && x.enc >= GZ; for (auto& x : s) k |= x.mode == 1 && x.name.find("://") != x.name.npos; return k; };
    auto account = [&](const std::string& after) {
        for (size_t i = 0; i < s.size(); ++i) if (s[i].f) {
            auto& x = s[i]; c.check((x.f->fd() >= 0) == (x.mode != 0), "after " + after + " file " + std::to_string(i) + (x.mode ? " has no descriptor" : " still has a descriptor"));
            c.check(x.f->filename() == x.name && x.f->encoding() == fenc(x.enc) && x.f->type() == ftype(x.type), "after " + after + " file " + std::to_string(i) + " has other settings");
            for (size_t j = 0; j < i; ++j) if (s[j].mode && x.mode) c.check(s[j].f->fd() != x.f->fd(), "after " + after + " two files share descriptor " + std::to_string(x.f->fd()));
        }
        c.eq(count_fds(), base + open_count(), "open file descriptors after " + after); most = std::max(most, open_count());
        if (!kids()) c.check(!any_child(), "a child process is left after " + after);
    };
    // what has to hold once the file was closed without complaint
    auto closed = [&](Slot& x, bool failed, const std::string& err, bool named, const std::string& after) {
        c.check(!(x.end == 0 && failed), after + " reports a failure (" + err + ")");
        c.check(!(x.end == 1 && !failed), after + " does not report that the compression program failed");
        if (failed) { c.check(named, after + " reports a failure with another file name"); trouble = true; c.label("failure on closing"); }
        if (x.mode == 2 && x.end == 0) { std::string got = w.unpack(x.std_stream ? std_out : x.name, x.enc); c.check(got == x.out, after + ": " + std::to_string(x.out.size()) + " bytes were written, the file holds " + std::to_string(got.size()) + " (or others)"); }
        if (x.std_stream && x.mode) { --base; }
        x.mode = 0; x.std_stream = false; x.eof = false; x.data.clear(); x.out.clear(); x.pos = 0; x.end = 0;
    };
    // runs op, which first closes the file
    auto closing = [&](Slot& x, const std::string& what, const std::function<void()>& op) {
        bool failed = false, named = true; std::string err, name = x.name; bool fault = with_faults && c.chance(25);
        if (fault) { faults::interrupt_wait = 1 + c.upto(2); c.desc << " (waiting is interrupted)"; c.label("interrupted wait"); }
        try { op(); } catch (const OSMFile::IOError& e) { failed = true; err = e.what(); named = e.filename() == name; } catch (const std::exception& e) { failed = true; named = false; err = e.what(); }
        faults::reset(); closed(x, failed, err, named, what); return !failed;
    };
    size_t ops = 0;
    while (c.more(94)) {
        size_t i = c.upto(s.size() - 1); Slot& x = s[i]; ++ops; std::string me = "[" + std::to_string(i) + "]";
        if (!x.f) { x.enc = c.upto(3); x.type = c.upto(2); x.name = "nothing"; x.f.reset(new OSMFile("nothing")); x.f->type(ftype(x.type)).encoding(fenc(x.enc)); c.desc << " new" << me; account("creating"); continue; }
        switch (c.weighted({30, 30, 14, 8, 10, 18, 6})) {
            case 0: { // open for reading
                if (x.mode) { c.nontrivial(); c.label("opened while open"); if (!closing(x, "closing a file before opening it again", [&] { OSMFile tmp(*x.f); *x.f = tmp; })) { account("a failed assignment"); break; } }
                x.enc = c.upto(3); x.type = c.upto(2); int how = c.weighted({50, 12, 10, 8, 8, with_std ? 20u : 0u, 12}); int k = c.weighted({50, 30, 20}); int end = 0; std::string err; bool cannot = false, remote = false; x.std_stream = false; x.data = w.content(k);
                bool comp = x.enc >= GZ;
                switch (how) {
                    case 0: x.name = w.input(k, x.enc); if (c.chance(25)) x.name = w.relative(x.name, c.chance(60)); break;
                    case 1: x.name = c.path(c.chance(50) ? "does not exist" : "no dir/x"); cannot = true; break;
                    case 2: if (comp) { x.name = w.input(1, x.enc); if (truncate(x.name.c_str(), 1 + c.upto(3000))) throw pbt::Discard(); x.data = "?"; end = 1; c.label("damaged input"); } else x.name = w.input(k, x.enc); break;
                    case 3: if (comp) { x.name = w.input(0, PBF); end = 1; x.data = "?"; } else { x.name = w.input(0, PBF) + "/x"; cannot = true; } break;
                    case 4: if (comp) { int h = c.upto(3); w.program(progs[x.enc][0], h == 0 ? "exit 3" : h == 1 ? "echo data; exit 1" : h == 2 ? "kill -9 $$" : "printf x; exec cat /nonexistent"); x.name = w.input(k, x.enc); x.data = "?"; end = 1; c.label("failing decompression program"); } else { x.name = c.path("loop"); unlink(x.name.c_str()); if (symlink("loop", x.name.c_str())) throw pbt::Discard(); cannot = true; } break;
                    case 5: if (in_used || comp) x.name = w.input(k, x.enc); else { x.name = ""; x.std_stream = true; in_used = true; x.data = w.small; c.label("standard input"); } break;
                    default: if (comp) x.name = w.input(k, x.enc); else { remote = true; x.name = (c.chance(50) ? "http://" : "https://") + std::string("127.0.0.1/") + (c.chance(50) ? "a b?c=d&e" : "x.osm"); bool bad = c.chance(30); spit(c.path("remote"), x.data); w.program("curl", "printf %s \"$*\" > '" + c.path("args") + "'\n" + (bad ? "exit 7" : "exec cat '" + c.path("remote") + "'")); if (bad) { end = 1; x.data = "?"; } c.label("URL"); } break;
                }
                if (cannot && comp) { end = 1; x.data = "?"; cannot = false; }
                x.f->filename(x.name).type(ftype(x.type)).encoding(fenc(x.enc)); c.desc << " read" << me << " " << (remote ? x.name : std::filesystem::path(x.name).filename().string()) << (x.enc == GZ ? " gz" : x.enc == BZ2 ? " bz2" : ""); 
                int fault = with_faults && (comp || remote) && c.chance(30) ? 1 + c.upto(1) : 0; if (fault == 1) faults::fail_pipe = EMFILE; if (fault == 2) faults::fail_fork = EAGAIN; if (fault) c.desc << (fault == 1 ? " (no pipe)" : " (no process)");
                bool failed = false, sys = false; std::string fn; try { x.f->open_for_input(); } catch (const OSMFile::IOError& e) { failed = true; fn = e.filename(); c.check(e.system_errno() != 0, "no error number for a file that cannot be opened"); } catch (const OSMFile::SystemError& e) { failed = sys = true; c.check(e.system_errno() != 0, "no error number for a failed system call"); }
                bool hit = faults::hit_pipe || faults::hit_fork; faults::reset();
                if (hit) { trouble = true; c.label("failing system call"); c.check(failed, "a failing system call is not reported when opening for reading"); } else { c.check(!sys, "opening reports a failed system call that did not fail"); c.eq(failed, cannot, "opening " + show(x.name) + " for reading failed"); if (failed) { c.check(fn == x.name, "the error names " + show(fn) + " instead of " + show(x.name)); trouble = true; c.label("cannot be opened"); } }
                if (!failed) { x.mode = 1; x.end = comp || remote ? end : 0; if ((comp || remote) && end == 0) x.end = 2; x.pos = 0; x.eof = false; if (x.std_stream) c.eq(x.f->fd(), 0, "descriptor of standard input"); }
                else { x.std_stream = false; }
                if (how == 4 && comp) { if (x.mode) { c.eq(x.f->fd() >= 0, true, "descriptor"); while (!read_some(x.f->fd(), 4096).empty()) {} x.eof = true; } w.usual_programs(); }
                if (remote) { if (x.mode) { std::string got = read_some(x.f->fd(), w.big.size() + 100); x.eof = true; if (end == 0) { c.check(got == x.data, "other data from a URL"); x.end = 0; } c.check(slurp(c.path("args")) == x.name, "curl is called with " + show(slurp(c.path("args")))); } w.usual_programs(); }
                account("opening for reading"); break; }
            case 1: { // open for writing
                if (x.mode) { c.nontrivial(); c.label("opened while open"); if (!closing(x, "closing a file before opening it again", [&] { if (c.chance(50)) x.f->close(); else { OSMFile tmp(*x.f); *x.f = tmp; } })) { account("a failed close"); break; } }
                x.enc = c.upto(3); x.type = c.upto(2); bool comp = x.enc >= GZ, cannot = false; int end = 0; x.out.clear(); x.std_stream = false; int how = c.weighted({50, 15, 12, 10, with_std ? 20u : 0u});
                x.name = c.path("out" + std::to_string(w.out_no++));
                switch (how) {
                    case 1: spit(x.name, w.big); c.label("overwritten"); break;
                    case 2: x.name = c.path(c.chance(50) ? "no dir/x" : "."); cannot = true; break;
                    case 3: if (comp) { int h = c.upto(3); w.program(progs[x.enc][1], h == 0 ? "exit 3" : h == 1 ? "cat >/dev/null; exit 1" : h == 2 ? "cat >/dev/null; kill -9 $$" : "exec /nonexistent/x"); end = 1; c.label("failing compression program"); } break;
                    case 4: if (!comp && !out_used) { x.name = ""; x.std_stream = true; out_used = true; c.label("standard output"); } break;
                }
                if (cannot && comp) { cannot = false; end = 1; }
                x.f->filename(x.name).type(ftype(x.type)).encoding(fenc(x.enc)); c.desc << " write" << me << " " << std::filesystem::path(x.name).filename().string() << (x.enc == GZ ? " gz" : x.enc == BZ2 ? " bz2" : "") << (end ? " failing" : "");
                int fault = with_faults && comp && c.chance(30) ? 1 + c.upto(1) : 0; if (fault == 1) faults::fail_pipe = EMFILE; if (fault == 2) faults::fail_fork = EAGAIN; if (fault) c.desc << (fault == 1 ? " (no pipe)" : " (no process)");
                bool failed = false, sys = false; std::string fn; try { x.f->open_for_output(); } catch (const OSMFile::IOError& e) { failed = true; fn = e.filename(); } catch (const OSMFile::SystemError& e) { failed = sys = true; }
                bool hit = faults::hit_pipe || faults::hit_fork; faults::reset();
                if (hit) { trouble = true; c.label("failing system call"); c.check(failed, "a failing system call is not reported when opening for writing"); } else { c.check(!sys, "opening reports a failed system call that did not fail"); c.eq(failed, cannot, "opening " + show(x.name) + " for writing failed"); if (failed) { c.check(fn == x.name, "the error names " + show(fn) + " instead of " + show(x.name)); trouble = true; c.label("cannot be opened"); } }
                if (!failed) { x.mode = 2; x.end = comp ? end : 0; if (x.std_stream) c.eq(x.f->fd(), 1, "descriptor of standard output"); } else x.std_stream = false;
                if (x.mode && c.chance(80)) { std::string d = c.chance(70) ? w.small : w.big; size_t p = 0; while (p < d.size()) { ssize_t r = ::write(x.f->fd(), d.data() + p, d.size() - p); if (r <= 0) break; p += r; } if (!x.end) c.eq(p, d.size(), "bytes that could be written"); x.out += d; }
                account("opening for writing");
                if (how == 3 && comp) { if (x.mode) { c.desc << " close" << me; closing(x, "closing a file whose compression program failed", [&] { x.f->close(); }); account("closing"); } w.usual_programs(); }
                break; }
            case 2: { // close
                c.desc << " close" << me; closing(x, "closing", [&] { x.f->close(); }); account("closing"); if (c.chance(50)) { c.desc << " again"; closing(x, "closing again", [&] { x.f->close(); }); account("closing again"); } break; }
            case 3: c.desc << " destroy" << me; { bool f = x.mode && x.end; if (x.std_stream) --base; if (x.mode == 2 && x.end == 0) { x.f.reset(); std::string got = w.unpack(x.std_stream ? std_out : x.name, x.enc); c.check(got == x.out, "a file written and destroyed holds other data"); } x.f.reset(); (void)f; x.mode = 0; x.end = 0; x.eof = false; x.pos = 0; x.std_stream = false; x.data.clear(); x.out.clear(); account("destroying"); } break;
            case 4: { // copy or assign to another one
                size_t j = c.upto(s.size() - 1); Slot& y = s[j]; bool assign = y.f && c.chance(60);
                if (assign) { c.desc << " [" << j << "]=" << me; if (i == j) { closing(x, "assigning a file to itself", [&] { OSMFile& r = *x.f; *x.f = r; }); account("assigning a file to itself"); break; } if (closing(y, "closing by assignment", [&] { *y.f = *x.f; })) { y.name = x.name; y.enc = x.enc; y.type = x.type; } account("assigning"); }
                else if (i != j && !y.f) { c.desc << " [" << j << "]:" << me; y.f.reset(new OSMFile(*x.f)); y.name = x.name; y.enc = x.enc; y.type = x.type; y.mode = 0; account("copying"); }
                else { OSMFile tmp(*x.f); c.eq(tmp.fd(), -1, "descriptor of a copy"); tmp.close(); account("closing a copy"); }
                break; }
            case 5: { // use
                if (x.mode == 1 && !x.eof && x.end != 1) { size_t n = c.chance(50) ? 1 + c.upto(5) : w.big.size() + 10; std::string got = read_some(x.f->fd(), n); c.desc << " get" << me; c.check(got == x.data.substr(x.pos, got.size()), "other data than the file has"); x.pos += got.size(); if (got.size() < n) { x.eof = true; c.eq(x.pos, x.data.size(), "bytes that could be read"); if (x.end == 2) x.end = 0; } account("reading"); }
                else if (x.mode == 2 && x.end == 0) { std::string d = "more " + std::to_string(ops) + "\n"; c.desc << " put" << me; c.eq(::write(x.f->fd(), d.data(), d.size()), (ssize_t)d.size(), "bytes written"); x.out += d; account("writing"); }
                break; }
            default: { // opened directly while open: the old file is given up
                if (!x.mode || x.std_stream || x.end || x.name.find("://") != x.name.npos) break;
                c.desc << " reopen" << me; c.nontrivial(); c.label("opened while open"); std::string was = x.name, had = x.out; int wm = x.mode; x.out.clear();
                if (x.mode == 2) { x.f->open_for_output(); x.mode = 2; x.end = 0; account("opening for writing again"); x.f->close(); std::string got = w.unpack(was, x.enc); c.check(got.empty(), "a file opened for writing again still holds " + std::to_string(got.size()) + " bytes"); x.mode = 0; account("closing"); }
                else { x.f->open_for_input(); x.pos = 0; x.eof = false; x.end = x.enc >= GZ ? 2 : 0; account("opening for reading again"); }
                (void)wm; break; }
        }
    }
    for (size_t i = 0; i < s.size(); ++i) if (s[i].f) { Slot& x = s[i]; if (x.mode && c.chance(60)) closing(x, "closing at the end", [&] { x.f->close(); }); else if (x.std_stream) { --base; x.std_stream = false; } x.mode = 0; x.f.reset(); }
    account("the end"); c.check(!any_child(), "a child process is left at the end"); c.nontrivial(trouble || most > 1);
    for (int d : dummies) close(d);
}
SCENARIO_FORK(histories, 1500, 60000) { history(c, false, false); }
SCENARIO_FORK(standard_streams, 600, 25000) { history(c, true, false); }
SCENARIO_FORK(failing_system_calls, 800, 35000) { history(c, false, true); }

// a program that cannot be run at all: nothing of what this program does at its end happens earlier or twice
static std::string end_mark; static void at_end() { spit(end_mark, "x"); }
SCENARIO_FORK(missing_program, 250, 8000) {
    faults::reset(); signal(SIGPIPE, SIG_IGN); World w(c); std::string printed, out = c.path("printed"); end_mark = c.path("end"); unlink(end_mark.c_str()); if (c.chance(50)) { atexit(at_end); c.desc << "exit handler "; }
    fflush(stdout); { int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(o, 1); close(o); } static char buf[1 << 16]; setvbuf(stdout, buf, _IOFBF, sizeof buf); size_t base = count_fds(); c.nontrivial();
    do {
        int op = c.upto(3), enc = c.chance(50) ? GZ : BZ2; if (op == 0) { std::string t = "text " + std::to_string(c.upto(999)) + "\n"; fputs(t.c_str(), stdout); printed += t; c.desc << "print "; continue; } if (op == 1 && c.chance(30)) { fflush(stdout); c.desc << "flush "; continue; }
        bool none = c.chance(60); if (none) { mkdir(c.path("empty").c_str(), 0700); setenv("PATH", c.path("empty").c_str(), 1); } else w.usual_programs(); c.desc << (op == 1 ? "read" : op == 2 ? "write" : "write to a missing directory") << (none ? " (no program) " : " "); bool failed = false;
        if (op == 1) { w.usual_programs(); std::string n = w.input(0, enc); if (none) setenv("PATH", c.path("empty").c_str(), 1); OSMFile f(n); f.encoding(fenc(enc)); f.open_for_input(); std::string got = read_some(f.fd(), 1000); c.check(got == (none ? std::string() : w.small), "read " + show(got) + (none ? " although there is no decompression program" : "")); try { f.close(); } catch (const OSMFile::IOError&) { failed = true; } c.eq(failed, none, "closing failed"); }
        else { std::string n = op == 2 ? c.path("new" + std::to_string(w.out_no++)) : c.path("no dir/x"); OSMFile f(n); f.encoding(fenc(enc)); f.open_for_output(); if (c.chance(50)) { ssize_t r = ::write(f.fd(), "abc", 3); (void)r; } try { f.close(); } catch (const OSMFile::IOError&) { failed = true; } c.eq(failed, none || op == 3, "closing failed"); if (op == 2 && none) c.check(slurp(n).empty(), "a file holds " + show(slurp(n)) + " although there is no compression program"); }
        c.eq(count_fds(), base, "open file descriptors"); c.check(access(end_mark.c_str(), F_OK) != 0, "what is to be done at the end of the program was done by a child process");
    } while (c.more(75));
    fflush(stdout); c.check(slurp(out) == printed, "printed " + show(slurp(out)) + " instead of " + show(printed));
}

// ------------------------------------------------------------ readers and writers
struct Stop : public Osmium::Handler::Base { int left; bool other; Stop(int n, bool o) : left(n), other(o) {} void object() { if (left-- == 0) { if (other) throw std::runtime_error("handler"); throw Osmium::Handler::StopReading(); } } void node(const shared_ptr<Osmium::OSM::Node const>&) { object(); } void way(const shared_ptr<Osmium::OSM::Way const>&) { object(); } void relation(const shared_ptr<Osmium::OSM::Relation const>&) { object(); } };
SCENARIO_FORK(readers_and_writers, 500, 20000) {
    faults::reset(); signal(SIGPIPE, SIG_IGN); setenv("PATH", "/usr/local/bin:/usr/bin:/bin", 1); int enc = c.upto(3); WOpts w = gen_wopts(c, enc); Data d; { Bulk b{c.upto(~0ULL)}; size_t n = c.chance(30) ? 3000 : c.upto(20); for (size_t i = 0; i < n; ++i) d.objs.push_back(bulk_obj(b, i < n / 2 ? 0 : i < n * 3 / 4 ? 1 : 2, i + 1, 50, 3)); c.desc << n << " objects "; }
    describe(c, w); std::string p = c.path("f" + std::to_string(enc)); size_t base = count_fds(); auto account = [&](const std::string& s) { c.eq(count_fds(), base, "open file descriptors after " + s); c.check(!any_child(), "a child process is left after " + s); };
    write_file(p, d, w); account("writing a file"); { Capture cap; read_file(p, w.type, enc, cap); c.eq(cap.objs.size(), d.objs.size(), "objects"); account("reading a file"); }
    switch (c.upto(4)) {
        case 0: { c.desc << " damaged"; std::string b = slurp(p); if (b.empty()) return; if (c.chance(50)) b.resize(c.upto(b.size() - 1)); else for (int i = 0; i < 3; ++i) b[c.upto(b.size() - 1)] ^= 1 << c.upto(7); spit(p, b); c.nontrivial(); Capture cap; bool failed = false; try { read_file(p, w.type, enc, cap); } catch (...) { failed = true; } c.label(failed ? "reading failed" : "reading went on"); account("reading a damaged file"); break; }
        case 1: { int n = c.upto(d.objs.size()); c.desc << " stopped after " << n; c.nontrivial(); Stop s(n, false); read_file(p, w.type, enc, s); account("a handler stopped reading"); break; }
        case 2: { int n = c.upto(d.objs.size()); c.desc << " handler fails after " << n; c.nontrivial(); Stop s(n, true); bool failed = false; try { read_file(p, w.type, enc, s); } catch (const std::runtime_error& e) { failed = true; } c.eq(failed, n < (int)d.objs.size(), "the handler's exception arrives"); account("a handler failed"); break; }
        case 3: { c.desc << " missing"; c.nontrivial(); unlink(p.c_str()); bool failed = false; Capture cap; try { read_file(p, w.type, enc, cap); } catch (...) { failed = true; } c.check(failed, "reading a missing file fails silently"); account("reading a missing file"); break; }
        default: { c.desc << " cannot be created"; c.nontrivial(); bool failed = false; try { write_file(c.path("no dir/x"), d, w); } catch (...) { failed = true; } c.check(failed, "writing to a missing directory fails silently"); account("a file that cannot be created"); break; }
    }
    // given up: never finished
    { Osmium::OSMFile f = mkfile(p, w.type, enc); try { if (enc == PBF) { auto o = make_pbf(f, w); Osmium::OSM::Meta m; if (c.chance(50)) o->init(m); } else { Osmium::Output::XML o(f); Osmium::OSM::Meta m; if (c.chance(50)) o.init(m); } } catch (const std::exception&) {} account("a writer was given up"); }
}
