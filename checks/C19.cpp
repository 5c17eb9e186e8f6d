// Timestamps convert to ISO text and back without loss.
// LIBS: pbf xml
#include "model.hpp"
#include <osmium/utils/timestamp.hpp>
#include <ctime>
using namespace model;

RULE("a case counts as non-trivial if the time is not midnight of a first of January, or a text is refused; distinct by description");
ASSUME("text after a complete timestamp and dates like February 30 are left open");

// the civil calendar counted by hand
static bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static const int MD[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static int mdays(int64_t y, int m) { return MD[m - 1] + (m == 2 && leap(y)); }
static int64_t days_before_year(int64_t y) { int64_t p = y - 1; return p * 365 + p / 4 - p / 100 + p / 400 - 719162; } // days from 1970-01-01 to January 1 of y
struct Civil { int64_t y; int mo, d, h, mi, s; };
static Civil civil(int64_t t) { Civil r; int64_t day = t / 86400, sec = t % 86400; r.h = sec / 3600; r.mi = sec / 60 % 60; r.s = sec % 60; r.y = 1970 + day / 366; while (days_before_year(r.y + 1) <= day) ++r.y; day -= days_before_year(r.y); r.mo = 1; while (day >= mdays(r.y, r.mo)) day -= mdays(r.y, r.mo++); r.d = day + 1; return r; }
static int64_t seconds(const Civil& v) { int64_t d = days_before_year(v.y); for (int m = 1; m < v.mo; ++m) d += mdays(v.y, m); return (d + v.d - 1) * 86400 + v.h * 3600 + v.mi * 60 + v.s; }
static std::string text(const Civil& v) { char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", (int)v.y, v.mo, v.d, v.h, v.mi, v.s); return b; }
static const int64_t LAST = 253402300799LL;

static void zone(Ctx& c) { static const std::vector<const char*> Z = {"UTC", "XYZ5", "ABC-13:45", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "LEAP-0:00:27", "", "Europe/Berlin", "America/New_York", "right/UTC", "Asia/Kathmandu"}; const char* z = c.pick(Z); setenv("TZ", z, 1); tzset(); c.desc << " TZ=" << z; c.label(std::string("TZ ") + z); }
static int64_t gen_time(Ctx& c) {
    switch (c.weighted({30, 30, 25, 15})) {
        case 0: return 1 + (int64_t)c.upto(LAST - 1);
        case 1: return 1 + (int64_t)c.upto(4000000000ULL);
        case 2: { Civil v; v.y = c.chance(50) ? c.pick(std::vector<int64_t>{1972, 2000, 2038, 2100, 2004, 2400, 1970, 9999, 2012}) : c.range(1970, 9999); v.mo = c.chance(50) ? c.pick(std::vector<int>{1, 2, 3, 12}) : 1 + c.upto(11); v.d = c.chance(60) ? (c.chance(50) ? 1 : mdays(v.y, v.mo)) : 1 + c.upto(mdays(v.y, v.mo) - 1); bool e = c.chance(50); v.h = e ? 0 : 23; v.mi = e ? 0 : 59; v.s = e ? 0 : 59; int64_t t = seconds(v) + (int64_t)c.upto(2) - 1; return t < 1 ? 1 : t > LAST ? LAST : t; }
        default: { static const std::vector<int64_t> b = {1, 59, 60, 3599, 3600, 86399, 86400, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, LAST, LAST - 1, 951782399, 951782400, 951868800, 1333267200, 1351386000, 1351389600, 1332637200}; return c.pick(b); }
    }
}
// something is told about refusal by any exception; the object must not change
static bool refused(const std::string& s) { try { Osmium::Timestamp::parse_iso(s.c_str()); } catch (const std::exception&) { return true; } return false; }
template <class T> static bool set(T& o, const std::string& s) { try { o.timestamp(s.c_str()); } catch (const std::exception&) { return false; } return true; }

SCENARIO(there_and_back, 400000, 10000000) {
    int64_t t = gen_time(c); c.desc << t; zone(c); Civil v = civil(t); c.check(seconds(v) == t, "harness: calendar"); c.nontrivial(v.h || v.mi || v.s || v.mo > 1 || v.d > 1); std::string want = text(v);
    c.eq(Osmium::Timestamp::to_iso(t), want, "text of time " + std::to_string(t)); c.eq((int64_t)Osmium::Timestamp::parse_iso(want.c_str()), t, "time of text " + want); c.eq(Osmium::Timestamp::to_iso(0), std::string(), "text of time zero");
    Osmium::OSM::Node n; n.timestamp(want.c_str()); c.eq((int64_t)n.timestamp(), t, "time of an object set from " + want); c.eq(n.timestamp_as_string(), want, "text of an object's time"); Osmium::OSM::Way w; w.timestamp((time_t)t); c.eq(w.timestamp_as_string(), want, "text of an object's time set as number"); w.endtime((time_t)t); c.eq(w.endtime_as_string(), want, "text of an object's end time"); Osmium::OSM::Relation r; r.set_attribute("timestamp", want.c_str()); c.eq((int64_t)r.timestamp(), t, "time of an object set by name"); c.eq(Osmium::OSM::Node().timestamp_as_string(), std::string(), "text of a new object's time");
}
// refused texts: something is missing
SCENARIO(incomplete, 100000, 3000000) {
    int64_t t = gen_time(c); zone(c); std::string s = text(civil(t)); 
    switch (c.upto(4)) {
        case 0: s = s.substr(0, c.upto(s.size() - 1)); c.label("cut off"); break;
        case 1: { static const size_t at[] = {0, 5, 8, 11, 14, 17}, len[] = {4, 2, 2, 2, 2, 2}; size_t i = c.upto(5); s.erase(at[i], len[i]); c.label("number missing"); break; }
        case 2: { static const size_t at[] = {4, 7, 10, 13, 16, 19}; size_t i = c.upto(5); s.erase(at[i], 1); c.label("separator missing"); break; }
        case 3: { static const size_t at[] = {4, 7, 10, 13, 16, 19}; size_t i = c.upto(5); char x = c.pick(std::vector<char>{'x', '/', '.', ',', '_', 'z', 't', ';', '+'}); s[at[i]] = x; c.label("wrong separator"); break; }
        default: { static const size_t at[] = {0, 5, 8, 11, 14, 17}, len[] = {4, 2, 2, 2, 2, 2}; size_t i = c.upto(5); s.replace(at[i], len[i], c.pick(std::vector<std::string>{"xx", "xxxx", "a", "--", "T", "Z", ":", ""})); c.label("no number"); break; }
    }
    c.desc << " " << show(s); c.nontrivial();
    // an erased separator between numbers may leave digits that are read as one number, which no separator follows
    c.check(refused(s), "incomplete text " + show(s) + " is accepted"); Osmium::OSM::Node n; n.timestamp((time_t)4711); n.id(3); c.check(!set(n, s), "incomplete text " + show(s) + " is accepted by an object"); c.eq((int64_t)n.timestamp(), (int64_t)4711, "time of the object after a refused text"); c.eq(n.id(), (osm_object_id_t)3, "id of the object after a refused text"); bool ok = true; try { n.set_attribute("timestamp", s.c_str()); } catch (const std::exception&) { ok = false; } c.check(!ok, "incomplete text " + show(s) + " is accepted by set_attribute"); c.eq((int64_t)n.timestamp(), (int64_t)4711, "time of the object after a refused text");
}
SCENARIO(out_of_range, 20000, 500000) {
    Civil v = civil(gen_time(c)); zone(c); switch (c.upto(4)) { case 0: v.mo = c.chance(50) ? 0 : 13 + c.upto(86); break; case 1: v.d = c.chance(50) ? 0 : 32 + c.upto(67); break; case 2: v.h = 24 + c.upto(75); if (v.h == 24) v.h = 25; break; case 3: v.mi = 60 + c.upto(39); break; default: v.s = 62 + c.upto(37); break; } std::string s = text(v); c.desc << " " << s; c.nontrivial(); c.check(refused(s), "text " + s + " with a number out of range is accepted");
}
// one conversion doesn't depend on the ones before it
SCENARIO(histories, 30000, 1000000) {
    int64_t t = gen_time(c); size_t n = 0; zone(c); std::vector<std::pair<std::string, std::string>> kept;
    do {
        ++n; switch (c.weighted({40, 15, 15, 10, 10, 10})) { case 0: t += c.range(-70, 70); break; case 1: t += c.range(-26, 26) * 3600; break; case 2: t += c.range(-400, 400) * 86400; break; case 3: t += (c.chance(50) ? 1 : -1) * (c.chance(50) ? 4294967296LL : 2147483648LL); break; case 4: break; default: t = gen_time(c); } if (t < 1) t = 1; if (t > LAST) t = LAST;
        std::string want = text(civil(t)); int op = c.weighted({40, 30, 15, 10, 5}); c.desc << " " << "tpork"[op] << t;
        switch (op) {
            case 0: { std::string got = Osmium::Timestamp::to_iso(t); c.eq(got, want, "text of time " + std::to_string(t)); kept.push_back({got, want}); break; }
            case 1: c.eq((int64_t)Osmium::Timestamp::parse_iso(want.c_str()), t, "time of text " + want); break;
            case 2: { Osmium::OSM::Way w; w.timestamp((time_t)t); c.eq(w.timestamp_as_string(), want, "text of an object's time"); Osmium::OSM::Way v; v.timestamp(want.c_str()); c.eq((int64_t)v.timestamp(), t, "time of an object set from " + want); break; }
            case 3: { std::string s = want.substr(0, c.upto(want.size() - 1)); c.check(refused(s), "accepted " + show(s)); break; }
            default: zone(c); { time_t x = t; struct tm l; localtime_r(&x, &l); gmtime(&x); }
        }
    } while (c.more(88));
    for (auto& k : kept) c.eq(k.first, k.second, "text kept from before"); c.nontrivial(n > 2);
}
// any text is either refused or taken, and reading never touches other memory
SCENARIO(any_text, 100000, 3000000) {
    std::string s; if (c.chance(50)) { s = text(civil(gen_time(c))); for (size_t n = c.upto(3); n; --n) { size_t i = c.upto(s.size() - 1); s[i] = (char)(1 + c.upto(254)); } } else while (c.more(90)) s += c.chance(60) ? "0123456789-T:Z "[c.upto(14)] : (char)(1 + c.upto(254)); c.desc << show(s); zone(c); bool r = refused(s); c.nontrivial(r); c.label(r ? "refused" : "accepted"); char last = s.empty() ? 0 : s.back(); (void)last; if (s.find('Z') == std::string::npos) c.check(r, "text without Z is accepted: " + show(s)); size_t digits = 0; for (char x : s) digits += x >= '0' && x <= '9'; if (digits < 6) c.check(r, "text with too few digits is accepted: " + show(s));
    Osmium::OSM::Way o; o.timestamp((time_t)99); bool taken = set(o, s); c.eq(taken, !r, "object accepts the text"); if (!taken) c.eq((int64_t)o.timestamp(), (int64_t)99, "time of the object after a refused text");
}
