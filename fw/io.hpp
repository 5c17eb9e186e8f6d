// Writing and reading files through the library, and what is expected to come back.
#ifndef VERIF_IO_HPP
#define VERIF_IO_HPP
#include "model.hpp"
#include <dirent.h>

namespace model {

enum Enc { PBF = 0, XML = 1, GZ = 2, BZ2 = 3 };
enum Type { OSM = 0, HISTORY = 1, CHANGE = 2 };

struct WOpts {
    bool dense = true, compress = true, meta = true;
    int type = OSM, enc = PBF;
    int locgran = 0, dategran = 0;  // 0: leave as it is
    bool multi() const { return type != OSM; }
};

inline Osmium::OSMFile::FileType* ftype(int t) { return t == 0 ? Osmium::OSMFile::FileType::OSM() : t == 1 ? Osmium::OSMFile::FileType::History() : Osmium::OSMFile::FileType::Change(); }
inline Osmium::OSMFile::FileEncoding* fenc(int e) {
    return e == 0 ? Osmium::OSMFile::FileEncoding::PBF() : e == 1 ? Osmium::OSMFile::FileEncoding::XML() : e == 2 ? Osmium::OSMFile::FileEncoding::XMLgz() : Osmium::OSMFile::FileEncoding::XMLbz2();
}
inline Osmium::OSMFile mkfile(const std::string& f, int type, int enc) { Osmium::OSMFile file(f); file.type(ftype(type)); file.encoding(fenc(enc)); return file; }

inline std::unique_ptr<Osmium::Output::PBF> make_pbf(const Osmium::OSMFile& file, const WOpts& w) {
    std::unique_ptr<Osmium::Output::PBF> p(new Osmium::Output::PBF(file)); // too large for the stack
    p->use_dense_format(w.dense); p->use_compression(w.compress); p->should_add_metadata(w.meta);
    if (w.locgran) p->location_granularity(w.locgran);
    if (w.dategran) p->date_granularity(w.dategran);
    return p;
}
inline void write_file(const std::string& f, const Data& d, const WOpts& w) {
    Osmium::OSMFile file = mkfile(f, w.type, w.enc);
    if (w.enc == PBF) {
        auto out = make_pbf(file, w);
        out->set_generator(d.generator);
        feed(*out, d, w.multi());
    } else {
        Osmium::Output::XML out(file);
        out.set_generator(d.generator);
        feed(out, d, w.multi());
    }
}
template <class H> void read_file(const std::string& f, int type, int enc, H& h) { Osmium::OSMFile in = mkfile(f, type, enc); Osmium::Input::read(in, h); }

// what reading the file back must deliver
inline Obj normalise(Obj o, const WOpts& w) {
    Obj d;
    if (w.enc == PBF) {
        if (!w.meta) { o.version = d.version; o.changeset = d.changeset; o.timestamp = d.timestamp; o.uid = d.uid; o.user = d.user; o.visible = true; }
    } else {
        if (o.uid <= 0) { o.uid = d.uid; o.user = d.user; }
    }
    if (!w.multi()) o.visible = true;
    o.endtime = 0;
    return o;
}
inline std::vector<Obj> normalise(std::vector<Obj> v, const WOpts& w) { for (auto& o : v) o = normalise(o, w); return v; }

inline WOpts gen_wopts(Ctx& c, int enc) {
    WOpts w; w.enc = enc;
    if (enc == PBF) { w.dense = !c.chance(40); w.compress = !c.chance(40); w.meta = !c.chance(15); w.type = c.weighted({60, 40}); }
    else w.type = c.weighted({40, 30, 30});
    return w;
}
inline void describe(Ctx& c, const WOpts& w) {
    static const char* E[] = {"pbf", "xml", "gz", "bz2"}; static const char* T[] = {"osm", "history", "change"};
    c.desc << E[w.enc] << " " << T[w.type]; c.label(E[w.enc]); c.label(T[w.type]);
    if (w.enc == PBF) {
        c.desc << (w.dense ? " dense" : " plain") << (w.compress ? " zlib" : " raw") << (w.meta ? "" : " no-metadata");
        c.label(w.dense ? "dense" : "plain"); c.label(w.compress ? "zlib" : "raw"); if (!w.meta) c.label("no metadata");
        if (w.locgran) c.desc << " location granularity " << w.locgran;
        if (w.dategran) c.desc << " date granularity " << w.dategran;
    }
    c.desc << "; ";
}
// a file that is there already, whatever its length, is replaced
inline void sometimes_existing(Ctx& c, const std::string& f) {
    if (!c.chance(15)) return;
    std::string junk; uint64_t s = c.upto(1000); size_t n = c.weighted({50, 50}) ? c.upto(300000) : c.upto(300);
    for (size_t i = 0; i < n; ++i) junk += (char)((s = s * 6364136223846793005ULL + 1442695040888963407ULL) >> 56);
    spit(f, junk); c.desc << "replacing a file of " << n << " bytes; "; c.label("replaced file");
}
inline bool rich(const std::vector<Obj>& v) {
    if (v.size() < 2) return false;
    for (auto& o : v) if (!o.tags.empty() || !o.refs.empty() || !o.members.empty() || !o.user.empty()) return true;
    return false;
}

// Only objects of different kinds sharing a block (at most 8000 objects) may change their order.
// Per kind the order must be kept; then every result object has a place in the source,
// and the permutation must fall apart into pieces no longer than a block.
inline void same_up_to_grouping(Ctx& c, const std::vector<Obj>& got, const std::vector<Obj>& want, const std::string& what) {
    std::vector<size_t> at[3], next(3, 0);
    for (size_t i = 0; i < want.size(); ++i) at[want[i].kind].push_back(i);
    std::vector<size_t> src;
    for (auto& g : got) {
        size_t& n = next[g.kind];
        if (n >= at[g.kind].size()) c.fail(what + ": surplus object " + str(g));
        const Obj& w = want[at[g.kind][n]];
        if (g != w) c.fail(what + ": object of source index " + std::to_string(at[g.kind][n]) + " differs: " + diff(g, w) + "\n  got  " + str(g) + "\n  want " + str(w));
        src.push_back(at[g.kind][n++]);
    }
    for (int k = 0; k < 3; ++k) if (next[k] != at[k].size()) c.fail(what + ": " + std::to_string(at[k].size() - next[k]) + " objects missing, first " + str(want[at[k][next[k]]]));
    size_t start = 0, mx = 0;
    for (size_t i = 0; i < src.size(); ++i) {
        mx = std::max(mx, src[i]);
        if (mx == i) { if (i + 1 - start > 8000) c.fail(what + ": objects " + std::to_string(start) + " to " + std::to_string(i) + " are reordered across blocks"); start = i + 1; }
    }
}

// A named pipe filled by a child process in small pieces, so that the reader sees short reads.
class Trickle {
    pid_t m_pid; std::string m_path;
public:
    Trickle(const std::string& path, const std::string& bytes, std::vector<size_t> sizes) : m_path(path) {
        unlink(path.c_str());
        if (mkfifo(path.c_str(), 0600)) throw std::runtime_error("mkfifo failed");
        m_pid = fork();
        if (m_pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            signal(SIGPIPE, SIG_IGN);
            int fd = ::open(path.c_str(), O_WRONLY); size_t p = 0, k = 0;
            while (fd >= 0 && p < bytes.size()) {
                size_t n = sizes.empty() ? bytes.size() : sizes[k++ % sizes.size()]; if (n > bytes.size() - p) n = bytes.size() - p;
                ssize_t w = ::write(fd, bytes.data() + p, n); if (w <= 0) break; p += w;
                if (k < 400) { struct timespec t = {0, 1000}; nanosleep(&t, nullptr); }
            }
            _exit(0);
        }
    }
    ~Trickle() { // an unread pipe would leave the child waiting
        int fd = ::open(m_path.c_str(), O_RDONLY | O_NONBLOCK); kill(m_pid, SIGKILL); int st; waitpid(m_pid, &st, 0); if (fd >= 0) ::close(fd); unlink(m_path.c_str());
    }
};

// number of open file descriptors of this process
inline size_t count_fds() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n - 3; }

} // namespace model
#endif
