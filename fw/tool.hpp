// Running the programs shipped with the library.
#ifndef VERIF_TOOL_HPP
#define VERIF_TOOL_HPP
#include "pbt.hpp"

namespace tool {
struct Result { int status = -1; std::string out, err; };

inline std::string take(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }

// Runs $VERIF_TOOLS/<name>; stdin from file `in` (or nothing), stdout to `out` if given, otherwise collected.
inline Result run(const std::string& name, const std::vector<std::string>& args, const std::string& in = "", const std::string& out = "", const std::string& cwd = "") {
    static int n = 0; Result r;
    std::string base = std::string(getenv("VERIF_TOOLS") ? getenv("VERIF_TOOLS") : "/tmp") + "/run-" + std::to_string(getpid()) + "-" + std::to_string(n++), o = out.empty() ? base + ".out" : out, e = base + ".err";
    std::string exe = std::string(getenv("VERIF_TOOLS") ? getenv("VERIF_TOOLS") : ".") + "/" + name;
    std::vector<std::string> a; a.push_back(exe); a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> av; for (auto& s : a) av.push_back((char*)s.c_str()); av.push_back(nullptr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int i = ::open(in.empty() ? "/dev/null" : in.c_str(), O_RDONLY), q = ::open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), w = ::open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(i, 0); dup2(q, 1); dup2(w, 2); for (int k = 3; k < 64; ++k) ::close(k);
        signal(SIGPIPE, SIG_DFL);
        if (!cwd.empty() && chdir(cwd.c_str())) _exit(126);
        execv(exe.c_str(), av.data()); _exit(127);
    }
    int st = 0; waitpid(p, &st, 0);
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    if (out.empty()) { r.out = take(o); unlink(o.c_str()); }
    r.err = take(e); unlink(e.c_str());
    return r;
}
} // namespace tool
#endif
