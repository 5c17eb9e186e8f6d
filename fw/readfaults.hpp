// Interrupted, short and failing reads.
#ifndef VERIF_READFAULTS_HPP
#define VERIF_READFAULTS_HPP
#include <cerrno>
#include <dlfcn.h>
#include <map>
#include <unistd.h>
#include "pbt.hpp"
namespace readfaults {
struct Action { int kind; size_t arg; }; // 1 fail with errno arg, 2 transfer at most arg bytes, 3 interrupted
static std::map<size_t, Action> plan; static size_t count = 0, hard = 0, soft = 0; static bool on = false;
static void reset() { plan.clear(); count = hard = soft = 0; on = false; }
static ssize_t apply(int fd, void* buf, size_t n) {
    typedef ssize_t (*read_t)(int, void*, size_t); static read_t real = (read_t)dlsym(RTLD_NEXT, "read");
    if (!on || fd <= 2) return real(fd, buf, n);
    auto it = plan.find(count++);
    if (it != plan.end()) { if (it->second.kind == 1) { ++hard; errno = (int)it->second.arg; return -1; } if (it->second.kind == 3) { ++soft; errno = EINTR; return -1; } if (n > it->second.arg) { ++soft; n = it->second.arg; } }
    return real(fd, buf, n);
}
// a plan, most of it for the first reads; with a hard error sometimes
static void make(pbt::Ctx& c, bool may_fail) {
    reset(); c.desc << "reads:"; size_t span = c.pick(std::vector<size_t>{4, 12, 40});
    do { size_t i = c.upto(span); int k = may_fail && c.chance(20) ? 1 : 2 + c.upto(1); size_t a = k == 1 ? c.pick(std::vector<size_t>{EIO, EAGAIN, ENXIO}) : 1 + c.upto(c.chance(60) ? 9 : 4000); plan[i] = Action{k, a}; c.desc << " " << i << (k == 1 ? " fails" : k == 2 ? " gives " + std::to_string(a) : " interrupted"); } while (c.more(75));
    c.desc << "; ";
}
}
extern "C" ssize_t read(int fd, void* buf, size_t n) { return readfaults::apply(fd, buf, n); }
extern "C" ssize_t __read_chk(int fd, void* buf, size_t n, size_t) { return readfaults::apply(fd, buf, n); }
#endif
