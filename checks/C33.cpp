// Progress display, counts and node density images show what was read.
// LIBS: pbf xml gd
// TOOLS: osmium_progress osmium_time nodedensity
#include "osmium_all.hpp"
#include <osmium/handler/progress.hpp>
#include "io.hpp"
#include "tool.hpp"
#include <set>
#include <sstream>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <gd.h>
#include <poll.h>
#include <stdlib.h>
#include <sys/time.h>
using namespace model; using namespace pbt;

RULE("a case counts as non-trivial if at least two counts are displayed while reading, or at least two nodes fall on an image of more than one pixel; distinct by description");
ASSUME("the step of the display is at least one, images have at least one pixel, MIN is not larger than MAX and the file has at least one node");
ASSUME("the clock, when it is replaced, never runs backwards; how rates are rounded is left open");

// ---- the clock and the terminal of the handler under test
static bool fake = false, fake_tty = false; static int64_t fake_now = 0;
extern "C" int verif_gtod(struct timeval* t, void* z) __asm__("gettimeofday"); extern "C" int verif_isatty(int fd) __asm__("isatty");
int verif_gtod(struct timeval* t, void*) { if (fake) { t->tv_sec = fake_now / 1000000; t->tv_usec = fake_now % 1000000; return 0; } struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
int verif_isatty(int) { if (!fake || !fake_tty) { errno = ENOTTY; return 0; } return 1; }
struct Cout { std::ostringstream s; std::streambuf* old; Cout() : old(std::cout.rdbuf(s.rdbuf())) {} ~Cout() { std::cout.rdbuf(old); } std::string take() { std::string r = s.str(); s.str(""); return r; } };

// ---- what a display says
struct Shown { std::vector<uint64_t> counts; std::vector<std::pair<std::string, std::string>> rates; }; // value and what
static const char* NAMES[] = {"Nodes", "Ways", "Relations"};
static Shown parse(Ctx& c, const std::string& s) {
    Shown r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '[' && (!i || s[i - 1] != '\x1b')) { size_t e = s.find(']', i); c.check(e != s.npos && e > i + 1 && s.find_first_not_of("0123456789", i + 1) == e, "count in " + show(s, 300)); r.counts.push_back(strtoull(s.c_str() + i + 1, 0, 10)); i = e; }
    for (const char* n : NAMES) for (size_t p = s.find(n); p != s.npos; p = s.find(n, p + 1)) { size_t e = p; while (e && s[e - 1] == ' ') --e; size_t b = e; while (b && !strchr(" (\r\n]", s[b - 1])) --b; r.rates.emplace_back(s.substr(b, e - b), n); } return r;
}
static void rate(Ctx& c, const std::string& text, uint64_t count, std::vector<int64_t> us, const std::string& what) {
    char* e = nullptr; double v = strtod(text.c_str(), &e); c.check(!text.empty() && !*e && std::isfinite(v), what + " is '" + show(text, 60) + "'"); c.check(v >= 0 && text[0] != '-', what + " is negative: " + text); bool ok = false; std::string w; for (int64_t d : us) { if (d <= 0) { ok = true; break; } double x = count * 1e6 / d; w += " " + std::to_string(x); ok |= fabs(v - x) <= 1 + x * 1e-4; } c.check(ok, what + " is " + text + " instead of" + w);
}
static void counts(Ctx& c, const std::vector<uint64_t>& got, const uint64_t* n, const std::string& s) { std::vector<uint64_t> w{n[0]}; if (n[1] || n[2]) w.push_back(n[1]); if (n[2]) w.push_back(n[2]); std::ostringstream o; for (auto x : w) o << " " << x; c.check(got == w, "display '" + show(s, 300) + "' instead of" + o.str()); }

SCENARIO(display, 6000, 300000) {
    struct Off { ~Off() { fake = fake_tty = false; } } off; fake = true; fake_tty = !c.chance(12); fake_now = c.range(1000000000LL, 2000000000LL) * 1000000 + c.upto(999999); int step = c.pick(std::vector<int>{1, 1, 2, 3, 7, 1000}); bool dflt = step == 1000 && c.chance(70); size_t n[3]; size_t shape = c.weighted({50, 15, 15, 20}); for (int k = 0; k < 3; ++k) n[k] = shape == 0 ? c.upto(12) : shape == 1 ? (k == 0 ? 1 + c.upto(20) : 0) : shape == 2 ? (k == 1 ? 0 : c.upto(8)) : c.chance(50) ? 0 : c.upto(8); if (step == 1000) for (int k = 0; k < 3; ++k) if (c.chance(30)) n[k] = 995 + c.upto(1200);
    c.desc << (fake_tty ? "" : "no terminal, ") << "step " << step << (dflt ? " (default)" : "") << ": " << n[0] << " " << n[1] << " " << n[2] << " clock"; int pace = c.upto(3); size_t told = 0; auto tick = [&] { int64_t d = pace == 0 ? 0 : pace == 1 ? c.upto(3) : pace == 2 ? c.upto(2000000) : c.chance(90) ? c.upto(1) : c.range(0, 100000000LL); fake_now += d; if (told++ < 60) c.desc << " " << d; };
    Cout cap; Osmium::OSM::Meta meta; auto on = make_shared<Osmium::OSM::Node>(); auto ow = make_shared<Osmium::OSM::Way>(); auto orl = make_shared<Osmium::OSM::Relation>();
    // now and then another display, with a file of its own, is used in between
    bool mix = c.chance(30); std::unique_ptr<Osmium::Handler::Progress> other; auto between = [&] { if (!mix || !c.chance(15)) return; if (!other) { c.desc << " other"; c.label("two displays"); bool was = fake_tty; if (c.chance(50)) fake_tty = !was; other.reset(new Osmium::Handler::Progress(1 + c.upto(4))); other->init(meta); fake_tty = was; } switch (c.upto(4)) { case 0: other->node(on); break; case 1: other->way(ow); break; case 2: other->relation(orl); break; case 3: other->final(); other.reset(); break; default: other->init(meta); } cap.take(); };
    Osmium::Handler::Progress* h = dflt ? new Osmium::Handler::Progress : new Osmium::Handler::Progress(step); std::unique_ptr<Osmium::Handler::Progress> own(h); std::string all; auto out = [&] { std::string s = cap.take(); all += s; return s; }; tick(); h->init(meta); std::string s = out(); uint64_t at[3] = {0, 0, 0}; int64_t first[3] = {-1, -1, -1};
    if (fake_tty) { c.check(s.find("\x1b[?25l") == 0, "cursor is not hidden: " + show(s, 100)); counts(c, parse(c, s).counts, at, s); } size_t displays = 0;
    for (int k = 0; k < 3; ++k) { if (!n[k]) continue; k == 0 ? h->before_nodes() : k == 1 ? h->before_ways() : h->before_relations(); for (size_t i = 0; i < n[k]; ++i) { tick(); between(); if (first[k] < 0) first[k] = fake_now; if (k == 0) h->node(on); else if (k == 1) h->way(ow); else h->relation(orl); ++at[k]; s = out(); bool due = fake_tty && at[k] % step == 0; c.check(!s.empty() == due, due ? "no display after " + std::to_string(at[k]) : "display that is not due: " + show(s, 200)); if (!due) continue; ++displays; Shown d = parse(c, s); counts(c, d.counts, at, s); for (auto& r : d.rates) { int q = r.second == "Nodes" ? 0 : r.second == "Ways" ? 1 : 2; c.check(q == k, "rate of the wrong kind: " + show(s, 200)); rate(c, r.first, at[q], {fake_now - first[q]}, "rate of " + r.second); } c.check(d.rates.size() == 1, "rates in " + show(s, 200)); } k == 0 ? h->after_nodes() : k == 1 ? h->after_ways() : h->after_relations(); c.check(out().empty(), "output after a section"); }
    tick(); between(); h->final(); s = out(); if (!fake_tty) { c.check(all.empty(), "output without a terminal: " + show(all, 200)); return; } size_t avg = s.find("Average"); c.check(avg != s.npos, "no averages: " + show(s, 300)); Shown d = parse(c, s.substr(0, avg)); counts(c, d.counts, at, s); auto rates = parse(c, s.substr(avg)).rates; std::set<std::string> seen;
    for (auto& r : rates) { int k = r.second == "Nodes" ? 0 : r.second == "Ways" ? 1 : 2; c.check(seen.insert(r.second).second && at[k], "average of " + r.second + " in " + show(s, 300)); std::vector<int64_t> ends{fake_now - first[k]}; bool next = false; for (int q = k + 1; q < 3 && !next; ++q) if (first[q] >= 0) { ends = {first[q] - first[k]}; next = true; } rate(c, r.first, at[k], ends, "average of " + r.second + " in " + show(s, 300)); }
    for (int k = 0; k < 3; ++k) c.check(!at[k] || seen.count(NAMES[k]), std::string("no average of ") + NAMES[k]); size_t hide = 0, shw = 0; for (size_t p = 0; (p = all.find("\x1b[?25", p)) != all.npos; ++p) (all[p + 5] == 'l' ? hide : shw)++; c.check(hide == 1 && shw == 1 && all.rfind("\x1b[?25h") > all.rfind("\x1b[?25l"), "cursor is hidden " + std::to_string(hide) + " and shown " + std::to_string(shw) + " times"); c.check(!all.empty() && all[all.size() - 1] == '\n', "last line is not ended"); c.nontrivial(displays >= 2); c.label_if(n[0] && !n[1], "nodes without ways"); c.label_if(n[1] && !n[2], "ways without relations");
}

// runs a program with a terminal as its output
static bool run_pty(const std::string& name, const std::vector<std::string>& args, std::string& out, int& status) {
    int m = posix_openpt(O_RDWR | O_NOCTTY); if (m < 0 || grantpt(m) || unlockpt(m)) { if (m >= 0) ::close(m); return false; } char sn[128]; if (ptsname_r(m, sn, sizeof sn)) { ::close(m); return false; } int sl = ::open(sn, O_RDWR | O_NOCTTY); if (sl < 0) { ::close(m); return false; } std::string exe = std::string(getenv("VERIF_TOOLS") ? getenv("VERIF_TOOLS") : ".") + "/" + name; std::vector<std::string> a{exe}; a.insert(a.end(), args.begin(), args.end()); std::vector<char*> av; for (auto& s : a) av.push_back((char*)s.c_str()); av.push_back(nullptr);
    pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int z = ::open("/dev/null", O_RDWR); dup2(z, 0); dup2(sl, 1); dup2(z, 2); for (int k = 3; k < 64; ++k) ::close(k); execv(exe.c_str(), av.data()); _exit(127); }
    ::close(sl); char b[4096]; for (;;) { ssize_t k = ::read(m, b, sizeof b); if (k <= 0) break; out.append(b, k); } ::close(m); int st = 0; waitpid(p, &st, 0); status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); return true;
}
static Data some_data(Ctx& c, uint64_t* n) { Data d; bool big = c.chance(15); for (int k = 0; k < 3; ++k) { n[k] = c.chance(25) ? 0 : big && c.chance(50) ? 990 + c.upto(1100) : c.upto(30); for (size_t i = 0; i < n[k]; ++i) { Obj o; o.kind = k; o.id = i + 1; o.version = 1; if (k == 0) { o.x = (int32_t)i; o.y = 5; } if (k == 1) o.refs.push_back(1); d.objs.push_back(o); } } return d; }

SCENARIO(programs, 150, 4000) {
    uint64_t n[3]; Data d = some_data(c, n); WOpts o; o.enc = c.chance(60) ? PBF : XML; std::string f = c.path(o.enc == PBF ? "a.osm.pbf" : "a.osm"); write_file(f, d, o); c.desc << n[0] << " " << n[1] << " " << n[2] << (o.enc == PBF ? " pbf" : " xml"); c.nontrivial(n[0] + n[1] + n[2] >= 2);
    auto t = tool::run("osmium_time", {f}); c.eq(t.status, 0, "status of osmium_time"); unsigned long long a[3] = {99, 99, 99}; c.check(sscanf(t.out.c_str(), "nodes: %llu ways: %llu relations: %llu", a, a + 1, a + 2) == 3 && a[0] == n[0] && a[1] == n[1] && a[2] == n[2], "osmium_time says " + show(t.out, 300)); size_t w = t.out.find("wallclock time: "); c.check(w != t.out.npos && atoi(t.out.c_str() + w + 16) >= 0 && atoi(t.out.c_str() + w + 16) < 100, "time: " + show(t.out, 300));
    auto q = tool::run("osmium_progress", {f}); c.eq(q.status, 0, "status of osmium_progress"); c.check(q.out.empty(), "output without a terminal: " + show(q.out, 200));
    std::string s; int st = 0; if (!run_pty("osmium_progress", {f}, s, st)) { c.label("no terminals here"); return; } c.label("terminal"); c.eq(st, 0, "status of osmium_progress on a terminal"); size_t avg = s.find("Average"), last = s.rfind('\r', avg == s.npos ? avg : avg ? avg - 1 : 0); c.check(avg != s.npos && last != s.npos, "no averages: " + show(s, 300));
    // every display, in order, ends with a return
    uint64_t at[3] = {0, 0, 0}; std::vector<std::vector<uint64_t>> want, got; auto add = [&] { std::vector<uint64_t> v{at[0]}; if (at[1] || at[2]) v.push_back(at[1]); if (at[2]) v.push_back(at[2]); want.push_back(v); }; add(); for (int k = 0; k < 3; ++k) for (size_t i = 0; i < n[k]; ++i) if (++at[k] % 1000 == 0) add(); add(); std::string part; for (char ch : s.substr(0, avg)) if (ch == '\r' || ch == '\n') { auto v = parse(c, part).counts; if (!v.empty()) got.push_back(v); part.clear(); } else part += ch; c.check(got == want, "displays: " + show(s, 1500)); for (auto& r : parse(c, s).rates) c.check(!r.first.empty() && r.first[0] != '-', "negative rate: " + show(s, 1500));
    size_t hide = s.find("\x1b[?25l"), shw = s.rfind("\x1b[?25h"); c.check(hide != s.npos && shw != s.npos && hide < shw && s.find("\x1b[?25l", shw) == s.npos, "cursor: " + show(s, 1000));
}

SCENARIO(density, 250, 8000) {
    int size = c.weighted({30, 30, 40}) == 0 ? 1 + c.upto(8) : c.chance(50) ? 1 + c.upto(300) : (int)c.pick(std::vector<int>{180, 90, 360, 179, 181, 100, 256}); int mn = c.chance(60) ? 0 : c.upto(6), mx = mn + (c.chance(12) ? 0 : 1 + c.upto(c.pick(std::vector<int>{2, 10, 300}))); int w = 2 * size; std::vector<uint64_t> count((size_t)w * size); Data d; size_t hot = c.chance(30) ? c.upto(c.thorough && c.chance(3) ? 70000 : 400) : 0, n = 1 + c.upto(30); int64_t id = 1; size_t placed = 0, none = 0; std::set<size_t> pixels; c.desc << size << " " << mn << ".." << mx << " hot " << hot << " ";
    auto clampi = [](int v, int hi) { return v < 0 ? 0 : v > hi ? hi : v; }; auto put = [&](int32_t x, int32_t y) -> bool { long double fx = ((long double)x / 10000000 + 180) * size / 180, fy = (90 - (long double)y / 10000000) * size / 180; auto edge = [](long double f) { return fabsl(f - roundl(f)) < 1e-6L; }; bool top = x == -1800000000 || x == 1800000000, left = y == 900000000 || y == -900000000; if ((edge(fx) && !top) || (edge(fy) && !left)) return false; int px = clampi((int)floorl(fx + (top ? 1e-9L : 0)), w - 1), py = clampi((int)floorl(fy + (left ? 1e-9L : 0)), size - 1); size_t p = (size_t)py * w + px; if (count[p] < 65534) ++count[p]; pixels.insert(p); Obj o; o.id = id++; o.version = 1; o.x = x; o.y = y; d.objs.push_back(o); ++placed; return true; };
    for (size_t i = 0; i < n; ++i) { int32_t x = c.chance(8) ? c.pick(std::vector<int32_t>{-1800000000, 1800000000}) : (int32_t)c.range(-1800000000, 1800000000), y = c.chance(8) ? c.pick(std::vector<int32_t>{-900000000, 900000000}) : (int32_t)c.range(-900000000, 900000000); if (c.chance(30)) { x = (int32_t)c.range(-20, 20) * 1000003; y = (int32_t)c.range(-20, 20) * 1000003; } if (put(x, y) && d.objs.size() < 60) c.desc << x << "," << y << " "; } if (hot) { int32_t x = (int32_t)c.range(-1700000000, 1700000000), y = (int32_t)c.range(-800000000, 800000000); for (size_t i = 0; i < hot; ++i) if (!put(x, y)) break; c.desc << "hot at " << x << "," << y << " "; }
    WOpts o; o.enc = c.chance(50) ? PBF : XML; if (o.enc == XML && c.chance(30)) { none = 1 + c.upto(4); for (size_t i = 0; i < none; ++i) { Obj q; q.id = id++; q.version = 1; d.objs.push_back(q); } c.desc << none << " without position "; } if (!placed && !none) return; for (size_t i = 0; i < c.upto(3); ++i) { Obj y; y.kind = 1; y.id = i + 1; y.version = 1; y.refs = {1, 2}; d.objs.push_back(y); }
    std::string f = c.path(o.enc == PBF ? "a.osm.pbf" : "a.osm"); if (none) { std::string s = "<osm version=\"0.6\" generator=\"x\">\n"; for (auto& q : d.objs) { if (q.kind) { s += "<way id=\"" + std::to_string(q.id) + "\" version=\"1\"><nd ref=\"1\"/><nd ref=\"2\"/></way>\n"; continue; } s += "<node id=\"" + std::to_string(q.id) + "\" version=\"1\""; if (q.defined()) { char b[100]; snprintf(b, sizeof b, " lon=\"%.7Lf\" lat=\"%.7Lf\"", (long double)q.x / 10000000, (long double)q.y / 10000000); s += b; } s += "/>\n"; } spit(f, s + "</osm>\n"); } else write_file(f, d, o);
    c.nontrivial(pixels.size() > 1 && size > 1); c.label_if(mn == mx, "MIN equals MAX"); std::string png = c.path("x.png"); auto r = tool::run("nodedensity", {f, std::to_string(size), std::to_string(mn), std::to_string(mx)}, "", png); if (mn == mx && r.status == 1000 + SIGFPE) c.fail("nodedensity divides by zero if MIN and MAX are equal", "density-min-max"); c.eq(r.status, 0, "status of nodedensity; " + show(r.err, 300));
    std::string data = tool::take(png); gdImagePtr im = gdImageCreateFromPngPtr((int)data.size(), (void*)data.data()); c.check(im, "not an image: " + std::to_string(data.size()) + " bytes"); struct Free { gdImagePtr i; ~Free() { gdImageDestroy(i); } } fr{im}; c.eq(gdImageSX(im), w, "width"); c.eq(gdImageSY(im), size, "height");
    // what is wrong with the output for these counts, if anything
    auto judge = [&](const std::vector<uint64_t>& cn) -> std::string { uint64_t top = 0; for (auto v : cn) top = std::max(top, v); size_t mc = r.err.find("max_count="); if (mc == r.err.npos || strtoull(r.err.c_str() + mc + 10, 0, 10) != top) return "highest count: " + show(r.err, 200) + " instead of " + std::to_string(top);
        for (int y = 0; y < size; ++y) for (int x = 0; x < w; ++x) { int64_t v = cn[(size_t)y * w + x]; int px = gdImageGetPixel(im, x, y), g = gdImageRed(im, px); if (gdImageGreen(im, px) != g || gdImageBlue(im, px) != g) return "pixel is not grey"; double want = mn == mx ? (v > mx ? 255 : v < mn ? 0 : g) : (std::min<int64_t>(std::max<int64_t>(v, mn), mx) - mn) * 255.0 / (mx - mn); if (fabs(g - want) >= 1) return "pixel " + std::to_string(x) + "," + std::to_string(y) + " with " + std::to_string(v) + " nodes is " + std::to_string(g) + " instead of " + std::to_string(want); } return ""; };
    std::string bad = judge(count); if (bad.empty()) return;
    // the defects that are known, exactly as they are: whole degrees per pixel only, and nodes without position count in the top right corner
    for (int known = 1; known < 4; ++known) { if ((known & 1) && size % 180 == 0) continue; if ((known & 2) && !none) continue; std::vector<uint64_t> cn((size_t)w * size); double factor = known & 1 ? size / 180 : size / 180.0; for (auto& q : d.objs) { if (q.kind) continue; double lon = q.defined() ? q.x / 1e7 : INT32_MAX / 1e7, lat = q.defined() ? q.y / 1e7 : INT32_MAX / 1e7; if (!q.defined() && !(known & 2)) continue; size_t p = (size_t)clampi((int)((90 - lat) * factor), size - 1) * w + clampi((int)((180 + lon) * factor), w - 1); if (cn[p] < 65534) ++cn[p]; } if (judge(cn).empty()) c.fail(bad, known & 1 ? "density-factor" : "density-without-position"); }
    c.fail(bad);
}
