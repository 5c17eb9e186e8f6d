// All stores by id behave like one map from id to value.
// LIBS:
// VARIANT: plain
// VARIANT: asan -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer
#include "pbt.hpp"
#include <cassert>
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <osmium/osm/types.hpp>
#include <osmium/osm/position.hpp>
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
using pbt::Ctx;
namespace S = Osmium::Storage::ById;

RULE("a case counts as non-trivial if at least one id was overwritten, or a storage had to grow, was cleared or was opened again; distinct by the history of operations");
ASSUME("a vector storage is filled in order of the ids (as its documentation asks for), and ids at or above its size are not given to the fixed array; storages other than the map do not check for ids never set; the sparse table of Google, which does not check whether it gets memory, is left out where there is none");

struct Wide { double a; int64_t b; char c; bool operator==(const Wide& o) const { return a == o.a && b == o.b && c == o.c; } };
static std::ostream& operator<<(std::ostream& o, const Wide& w) { return o << w.a << "/" << w.b << "/" << (int)w.c; }
typedef Osmium::OSM::Position Pos;
template <class T> static T value(uint64_t v);
template <> uint32_t value(uint64_t v) { return (uint32_t)v; }
template <> uint8_t value(uint64_t v) { return (uint8_t)v; }
template <> uint64_t value(uint64_t v) { return v * 0x9e3779b97f4a7c15ULL; }
template <> Pos value(uint64_t v) { return Pos((int64_t)(int32_t)v, (int64_t)(int32_t)(v * 77)); }
template <> Wide value(uint64_t v) { return Wide{(double)v, (int64_t)v * -3, (char)v}; }

static size_t fds() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n - 3; }
// address space that is mapped, apart from the heap
static long vmsize() { std::ifstream f("/proc/self/maps"); std::string l; long n = 0; while (std::getline(f, l)) { unsigned long a, b; if (l.find("[heap]") == std::string::npos && sscanf(l.c_str(), "%lx-%lx", &a, &b) == 2) n += b - a; } return n; }

// bytes handed out by new, for the storages that use it
static long live_bytes = 0;
#ifndef __SANITIZE_ADDRESS__
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live_bytes += malloc_usable_size(p); return p; }
void operator delete(void* p) noexcept { if (p) live_bytes -= malloc_usable_size(p); free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
#endif

enum Kind { FIXED, ANON, FILE_TMP, FILE_REMOVED, FILE_KEPT, SPARSE, MAP, VECTOR, KINDS };
static const char* KN[] = {"fixed array", "anonymous mmap", "temporary file", "removed file", "kept file", "sparse table", "map", "vector"};

template <class T> struct One {
    Kind kind; std::unique_ptr<S::Base<T>> s; std::map<uint64_t, T> m; bool usable = true; std::string file; uint64_t cap = 0; uint64_t last = 0; bool any = false;
    bool accepts(uint64_t id) const { if (!usable) return false; if (kind == FIXED) return id < cap; if (kind == VECTOR) return (!any || id >= last) && id <= (uint64_t)INT64_MAX; if (kind == MAP) return true; return id <= cap; }
};
template <class T> static void open_one(Ctx& c, One<T>& o) {
    switch (o.kind) {
        case FIXED: o.s.reset(new S::FixedArray<T>(o.cap)); break;
        case ANON: o.s.reset(new S::MmapAnon<T>()); break;
        case FILE_TMP: o.s.reset(new S::MmapFile<T>()); break;
        case FILE_REMOVED: o.s.reset(new S::MmapFile<T>(o.file)); c.check(access(o.file.c_str(), F_OK) != 0, "file was not removed"); break;
        case FILE_KEPT: o.s.reset(new S::MmapFile<T>(o.file, false)); c.check(access(o.file.c_str(), F_OK) == 0, "file is not there"); break;
        case SPARSE: o.s.reset(new S::SparseTable<T>(o.cap % 7 ? 10000 : 1 + o.cap % 977)); break;
        case MAP: o.s.reset(new S::StlMap<T>()); break;
        default: o.s.reset(new S::Vector<T>()); break;
    }
    o.usable = true;
}
template <class T> static void compare(Ctx& c, One<T>& o, uint64_t id) {
    const S::Base<T>& s = *o.s; auto it = o.m.find(id);
    if (it != o.m.end()) { T got = s[id]; if (!(got == it->second)) { std::ostringstream m; m << KN[o.kind] << ": id " << id << " has " << got << " instead of " << it->second; c.fail(m.str()); } }
    else if (o.kind == MAP) { bool thrown = false; try { (void)s[id]; } catch (const std::exception&) { thrown = true; } c.check(thrown, "map: reading id " + std::to_string(id) + ", which was never set, is not an error"); }
    else if ((o.kind == SPARSE || (o.kind == VECTOR && id <= (uint64_t)INT64_MAX)) && !(s[id] == T())) { std::ostringstream m; m << KN[o.kind] << ": id " << id << ", which was never set, has " << s[id]; c.fail(m.str()); }
}
template <class T> static void compare_all(Ctx& c, One<T>& o) {
    for (auto& e : o.m) compare(c, o, e.first);
    uint64_t need = o.m.empty() ? 0 : o.kind == MAP || o.kind == VECTOR ? o.m.size() : o.m.rbegin()->first + 1;
    if (o.s->size() < need) c.fail(std::string(KN[o.kind]) + ": size is " + std::to_string(o.s->size()) + " although " + std::to_string(need) + " are needed");
    if (o.kind == MAP) c.eq(o.s->size(), (uint64_t)o.m.size(), "size of the map");
    if (o.kind == SPARSE) for (uint64_t d = 0; d < 3; ++d) compare(c, o, o.s->size() + d - 1);
    if (o.kind == VECTOR) { compare(c, o, 0); for (auto& e : o.m) { compare(c, o, e.first + 1); if (e.first) compare(c, o, e.first - 1); } }
    // what is said about the memory used is at least what the values need and not many times what the storage holds
    uint64_t used = o.s->used_memory(), least = o.m.size() * sizeof(T), most = 4 * o.s->size() * (sizeof(T) + 64) + 100000; if (o.kind != MAP && (used < least || used > most)) c.fail(std::string(KN[o.kind]) + " is said to use " + std::to_string(used) + " bytes for " + std::to_string(o.m.size()) + " values of " + std::to_string(sizeof(T)) + " bytes");
}
static const uint64_t INC = 10 * 1024 * 1024;
template <class T> static void history(Ctx& c, const char* tname) {
    size_t fd0 = fds(); long vm0 = vmsize(); uint64_t limit = sizeof(T) > 16 ? 25000000 : 52000000;
#ifdef __SANITIZE_ADDRESS__
    uint64_t fixed_max = 200000;
#else
    uint64_t fixed_max = 3000000;
#endif
    c.desc << tname << ":"; bool canary_lost = false;
    {
        std::vector<One<T>> all(KINDS);
        for (int k = 0; k < KINDS; ++k) { auto& o = all[k]; o.kind = (Kind)k; o.cap = k == FIXED ? 1 + (c.chance(50) ? c.upto(40) : c.upto(fixed_max)) : limit; if (k == SPARSE && c.chance(30)) o.cap = limit - c.upto(6); o.file = c.path("store" + std::to_string(k)); unlink(o.file.c_str()); open_one(c, o); }
        uint64_t v = 1; std::vector<uint64_t> ids;
        while (c.more(92)) {
            switch (c.weighted({75, 12, 5, 4, 4})) {
                case 0: { // set
                    uint64_t id;
                    switch (c.weighted({35, 15, 15, 15, 12, 8})) {
                        case 0: id = c.upto(30); break;
                        case 1: id = ids.empty() ? 0 : ids[c.upto(ids.size() - 1)]; break;
                        case 2: { auto& o = all[1 + c.upto(5)]; id = o.usable ? o.s->size() + c.range(-2, 2) : 5; if (id > limit + 5 && id < ~0ULL - 5) id = limit; break; } // where it has to grow
                        case 3: id = c.upto(200000); break;
                        case 4: id = c.upto(limit); break;
                        default: id = c.chance(50) ? ~0ULL - c.upto(3) : 1ULL << (31 + c.upto(31)); break;
                    }
                    if ((int64_t)id < 0 && id > ~0ULL - 3 && c.chance(50)) id = INT64_MAX - c.upto(2);
                    T x = value<T>(v++ * 2654435761u); c.desc << " s" << id; bool taken = false;
                    for (auto& o : all) if (o.accepts(id)) { taken = true; if (o.m.count(id)) c.label("overwritten"), c.nontrivial(); uint64_t sz = o.s->size(); o.s->set(id, x); if (o.kind != VECTOR && o.kind != MAP && o.s->size() != sz) c.label(std::string(KN[o.kind]) + " grew"), c.nontrivial(); o.m[id] = x; o.last = id; o.any = true; compare(c, o, id); }
                    if (taken) ids.push_back(id); break; }
                case 1: for (auto& o : all) if (o.usable) { if (!ids.empty() && c.chance(70)) compare(c, o, ids[c.upto(ids.size() - 1)]); else compare(c, o, c.upto(100)); } break;
                case 2: for (auto& o : all) if (o.usable) compare_all(c, o); break;
                case 3: { // clear: only the dynamic ones may be used again
                    auto& o = all[c.upto(KINDS - 1)]; if (!o.usable) break; c.desc << " clear-" << KN[o.kind]; c.label("cleared"); c.nontrivial();
                    uint64_t bytes = o.s->size() * sizeof(T); bool mapped = o.kind == ANON || (o.kind >= FILE_TMP && o.kind <= FILE_KEPT); bool reuse = o.kind == MAP || o.kind == VECTOR || o.kind == SPARSE;
                    long vm = vmsize();
                    long heap = live_bytes, filled = (long)o.m.size(); o.s->clear(); long freed = heap - live_bytes; (void)freed; (void)vm; (void)heap; (void)filled;
#ifndef __SANITIZE_ADDRESS__
                    if (mapped && bytes > 10000000) c.check(vm - vmsize() >= (long)bytes - 8192, std::string(KN[o.kind]) + ": clearing released only " + std::to_string(vm - vmsize()) + " of " + std::to_string(bytes) + " bytes");
                    if (reuse && o.kind != SPARSE && filled > 0) c.check(freed >= filled * (long)sizeof(T), std::string(KN[o.kind]) + ": clearing released only " + std::to_string(freed) + " bytes of " + std::to_string(filled) + " values");
#endif
                    o.m.clear(); o.any = false;
                    if (reuse) { compare_all(c, o); if (o.kind != SPARSE) c.eq(o.s->size(), (uint64_t)0, std::string("size of the cleared ") + KN[o.kind]); break; }
                    o.usable = false;
                    // somebody else gets the memory; releasing the storage must not take it away again
                    if (mapped) {
                        size_t len = (bytes + 4095) / 4096 * 4096; unsigned char* p = (unsigned char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); p[0] = 1; p[len - 1] = 1;
                        if (c.chance(30)) o.s->clear(); o.s.reset(); unsigned char vec; if (mincore(p, 4096, &vec) || mincore(p + len - 4096, 4096, &vec)) canary_lost = true; else munmap(p, len);
                    } else { char* other = (char*)malloc(bytes ? bytes : 1); memset(other, 1, std::min<size_t>(bytes, 64)); if (c.chance(30)) o.s->clear(); o.s.reset(); char* third = (char*)malloc(bytes ? bytes : 1); memset(third, 2, std::min<size_t>(bytes, 64)); if (third == other || (bytes && other[0] != 1)) canary_lost = true; free(other); if (third != other) free(third); }
                    c.check(!canary_lost, std::string(KN[o.kind]) + ": memory was released a second time"); break; }
                default: { // close and open again
                    auto& o = all[FILE_KEPT]; c.desc << " reopen"; c.label("reopened"); c.nontrivial(); if (o.usable && c.chance(50)) o.s->clear();
                    bool kept = o.usable; if (!kept) break; o.s.reset(); open_one(c, o); compare_all(c, o); break; }
            }
        }
        for (auto& o : all) if (o.usable) compare_all(c, o);
        // reading a kept file through a new object
        auto& o = all[FILE_KEPT]; if (o.usable) { o.s.reset(); if (c.chance(60)) { open_one(c, o); compare_all(c, o); } }
        for (auto& x : all) unlink(x.file.c_str());
    }
    c.eq(fds(), fd0, "open file descriptors after the storages are gone");
#ifndef __SANITIZE_ADDRESS__
    long grown = vmsize() - vm0; c.check(grown < 30000000, "address space grew by " + std::to_string(grown) + " bytes although the storages are gone");
#endif
}
SCENARIO(positions, 350, 20000) { history<Pos>(c, "positions"); }
SCENARIO(numbers64, 250, 15000) { history<uint64_t>(c, "64 bit numbers"); }
SCENARIO(numbers32, 150, 8000) { history<uint32_t>(c, "32 bit numbers"); }
SCENARIO(bytes, 150, 8000) { history<uint8_t>(c, "bytes"); }
SCENARIO(structures, 150, 8000) { history<Wide>(c, "structures"); }

// many values in any order against the map
SCENARIO(bulk, 16, 500) {
    pbt::u64 seed = c.upto(~0ULL); size_t n = 2000 + c.upto(60000); uint64_t span = c.pick(std::vector<uint64_t>{1000, 100000, 15000000, 30000000}); c.desc << n << " values below " << span << " seed " << seed; c.nontrivial();
    std::map<uint64_t, Pos> m; S::MmapAnon<Pos> a; S::MmapFile<Pos> f; S::SparseTable<Pos> sp; S::StlMap<Pos> st; S::FixedArray<Pos> fx(span); uint64_t z = seed;
    for (size_t i = 0; i < n; ++i) { z = pbt::mix(z); uint64_t id = z % span; Pos p = value<Pos>(z >> 20); m[id] = p; a.set(id, p); f.set(id, p); sp.set(id, p); st.set(id, p); fx.set(id, p); }
    S::Vector<Pos> v; for (auto& e : m) { if (e.first % 3 == 0) v.set(e.first, Pos()); v.set(e.first, e.second); }
    S::Base<Pos>* all[] = {&a, &f, &sp, &st, &fx, &v}; static const char* names[] = {"anonymous mmap", "file", "sparse table", "map", "fixed array", "vector"};
    for (int k = 0; k < 6; ++k) for (auto& e : m) if (!((*all[k])[e.first] == e.second)) { std::ostringstream o; o << names[k] << ": id " << e.first << " has " << (*all[k])[e.first] << " instead of " << e.second; c.fail(o.str()); }
    c.eq(st.size(), (uint64_t)m.size(), "size of the map");
    std::vector<uint64_t> unset; std::vector<bool> unset_vector; for (int k = 0; k < 200; ++k) { z = pbt::mix(z); uint64_t id = z % (2 * span); if (m.count(id)) continue; unset.push_back(id); unset_vector.push_back(static_cast<const S::Base<Pos>&>(v)[id] == Pos()); }
    // nothing stays behind
#ifndef __SANITIZE_ADDRESS__
    auto used = [] { struct mallinfo2 i = mallinfo2(); return (long)(i.uordblks + i.hblkhd); }; long want = (long)(m.size() * sizeof(Pos)) / 2, h = used();
    sp.clear(); h -= used(); c.check(h >= want, "sparse table: clearing released only " + std::to_string(h) + " bytes"); h = used(); v.clear(); h -= used(); c.check(h >= want, "vector: clearing released only " + std::to_string(h) + " bytes"); h = used();
    fx.clear(); h -= used(); c.check(h >= (long)(span * sizeof(Pos)) - 64, "fixed array: clearing released only " + std::to_string(h) + " bytes");
#endif
    // ids never set
    for (int k = 0; k < 50; ++k) { z = pbt::mix(z); uint64_t id = z % (2 * span); if (m.count(id)) continue; bool thrown = false; try { (void)st[id]; } catch (const std::exception&) { thrown = true; } c.check(thrown, "map: reading an id never set is not an error"); }
    for (size_t k = 0; k < unset.size(); ++k) { if (!unset_vector[k]) c.fail("vector: id " + std::to_string(unset[k]) + ", which was never set, has a value"); }
}

#ifndef __SANITIZE_ADDRESS__
// a limit on the address space or on the size of files, as long as this object is there
struct Limit {
    int what; rlimit old;
    Limit(int w, rlim_t n) : what(w) { getrlimit(w, &old); rlimit r = {n, old.rlim_max}; setrlimit(w, &r); }
    ~Limit() { setrlimit(what, &old); }
};
template <class T> static void no_room(Ctx& c, const char* tname) {
    signal(SIGXFSZ, SIG_IGN); std::string dir = c.path("x"); size_t fd0 = fds(); One<T> o; o.kind = c.pick(std::vector<Kind>{ANON, ANON, FILE_TMP, FILE_REMOVED, FILE_KEPT, FILE_KEPT, MAP, VECTOR}); o.cap = ~0ULL; o.file = c.path("store"); unlink(o.file.c_str());
    c.desc << tname << " " << KN[o.kind] << ":"; bool file = o.kind >= FILE_TMP && o.kind <= FILE_KEPT; uint64_t v = 7;
    // a fixed array or a storage that can not even be created
    if (c.chance(15)) { uint64_t n = (~0ULL / sizeof(T)) - c.upto(5) + c.upto(10); if (sizeof(T) > 1) { bool thrown = false; try { S::FixedArray<T> f(n); f.set(c.upto(100000), value<T>(1)); f.set(n - 1, value<T>(2)); } catch (const std::bad_alloc&) { thrown = true; } c.check(thrown, "fixed array for " + std::to_string(n) + " values is no error"); } }
    if (c.chance(20)) { bool as = !file || c.chance(50); bool thrown = false; { Limit l(as ? RLIMIT_AS : RLIMIT_FSIZE, as ? 4096 : c.upto(sizeof(T) - 1)); try { open_one(c, o); } catch (const std::bad_alloc&) { thrown = true; } } c.label_if(thrown, "could not be created"); o.s.reset(); c.eq(fds(), fd0, std::string(KN[o.kind]) + ": open file descriptors after it could not be created"); unlink(o.file.c_str()); }
    open_one(c, o); bool failed = false;
    auto set = [&](uint64_t id) {
        if (o.kind == VECTOR && ((o.any && id < o.last) || id > (uint64_t)INT64_MAX)) return;
        T x = value<T>(v++ * 2654435761u); bool done = true; uint64_t sz = o.s->size(); c.desc << " s" << id;
        try { o.s->set(id, x); } catch (const std::exception&) { done = false; }
        if (done) { o.m[id] = x; o.last = id; o.any = true; } else { c.desc << "!"; c.label(std::string(KN[o.kind]) + " could not grow"); c.nontrivial(); failed = true; if (id < sz && o.kind != MAP && o.kind != VECTOR) c.fail(std::string(KN[o.kind]) + ": id " + std::to_string(id) + " below its size could not be set"); c.check(o.s->size() == sz, std::string(KN[o.kind]) + ": size changed although it could not grow"); }
        if (o.m.count(id)) compare(c, o, id);
    };
    auto some = [&] { for (size_t n = c.upto(5); n; --n) set(c.chance(60) ? c.upto(40) : c.upto(200000)); };
    some();
    while (c.more(80)) {
        switch (c.upto(4)) {
            case 0: { long vm = vmsize() + live_bytes + 8000000; Limit l(RLIMIT_AS, vm + c.upto(300) * 1000000); size_t n = 1 + c.upto(3); for (size_t i = 0; i < n; ++i) { set((1ULL << (20 + c.upto(13))) + c.upto(50)); some(); } break; }
            case 1: { if (!file) break; Limit l(RLIMIT_FSIZE, c.upto(200) * 1000000); set((1ULL << (20 + c.upto(7))) + c.upto(50)); some(); break; }
            // so large that the number of bytes can not be represented
            case 2: { if (o.kind == MAP || o.kind == VECTOR) break; uint64_t id = c.chance(60) ? (~0ULL / sizeof(T)) - c.upto(2 * INC) + c.upto(1000) : (1ULL << (58 + c.upto(5))) + c.upto(50) - c.upto(50); set(id); c.check(!o.m.count(id), std::string(KN[o.kind]) + ": id " + std::to_string(id) + " was stored"); some(); break; }
            case 3: if (o.kind == FILE_KEPT) { c.desc << " reopen"; o.s.reset(); open_one(c, o); } break;
            default: set(INC + c.upto(1000)); break;
        }
        compare_all(c, o);
    }
    compare_all(c, o); if (o.kind == FILE_KEPT) { o.s.reset(); open_one(c, o); compare_all(c, o); }
    o.s.reset(); unlink(o.file.c_str()); c.label_if(failed, "went on after it could not grow");
    c.eq(fds(), fd0, "open file descriptors after the storage is gone");
}
SCENARIO_FORK(no_room_positions, 900, 40000) { no_room<Pos>(c, "positions"); }
SCENARIO_FORK(no_room_numbers, 500, 20000) { no_room<uint32_t>(c, "numbers"); }
SCENARIO_FORK(no_room_structures, 500, 20000) { no_room<Wide>(c, "structures"); }
#endif
