#include "sim_io.hpp"
#include "seams.hpp"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim::io {
namespace {
string g_dir;
pid_t g_owner = 0;
bool armed = false;
Plan plan;
Seen state;
int out_fd = -1, in_fd = -1;
int64_t in_read = 0;

void at_exit() { if (g_owner == getpid()) cleanup(); }
}  // namespace

const string& scratch()
{
    if (g_dir.empty()) {
        const char* b = getenv("LSQSIM_TMP");
        string t = string(b && *b ? b : "/tmp") + "/lsqsim-io-XXXXXX";
        vector<char> v(t.begin(), t.end());
        v.push_back(0);
        if (!mkdtemp(v.data())) { fprintf(stderr, "SIM: no scratch directory\n"); abort(); }
        g_dir = v.data();
        g_owner = getpid();
        atexit(at_exit);
    }
    return g_dir;
}
void cleanup()
{
    if (g_dir.empty()) return;
    for (const char* n : {"in", "out", "layout"}) unlink((g_dir + "/" + n).c_str());
    rmdir(g_dir.c_str());
    g_dir.clear();
}
void put_file(const string& name, const string& content)
{
    int fd = open((scratch() + "/" + name).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600);
    for (size_t o = 0; fd >= 0 && o < content.size();) {
        long k = syscall(SYS_write, fd, content.data() + o, content.size() - o);
        if (k <= 0) break;
        o += size_t(k);
    }
    if (fd >= 0) syscall(SYS_close, fd);
}
void arm(const Plan& p)
{
    seam::Pause pause;
    scratch();
    plan = p;
    state = Seen{};
    out_fd = in_fd = -1;
    in_read = 0;
    armed = true;
}
void disarm() { armed = false; out_fd = in_fd = -1; }
Seen& seen() { return state; }

InBuf::int_type InBuf::underflow()
{
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    seam::Pause pause;
    if (p.in_stall_ns) seam::clock_advance_ns(p.in_stall_ns);
    size_t lim = text.size();
    if (p.in_fail_at >= 0 && size_t(p.in_fail_at) < lim) lim = size_t(p.in_fail_at);
    if (pos >= lim) {
        if (p.in_fail_at >= 0 && pos >= size_t(p.in_fail_at)) {
            failed = true;
            throw std::runtime_error("injected: read error");
        }
        return traits_type::eof();
    }
    size_t n = lim - pos;
    if (p.in_chunk > 0) {
        salt_state = mix(salt_state, ++refills);
        n = std::min<size_t>(n, 1 + salt_state % uint64_t(p.in_chunk));
    }
    piece = text.substr(pos, n);
    pos += n;
    setg(piece.data(), piece.data(), piece.data() + piece.size());
    return traits_type::to_int_type(*gptr());
}
OutBuf::int_type OutBuf::overflow(int_type c)
{
    if (c == traits_type::eof()) return traits_type::not_eof(c);
    char ch = char(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
}
std::streamsize OutBuf::xsputn(const char* s, std::streamsize n)
{
    seam::Pause pause;
    if (p.out_stall_ns) seam::clock_advance_ns(p.out_stall_ns);
    int64_t room = n;
    if (p.out_fail_at >= 0 && !(failed && !p.out_sticky)) room = std::max<int64_t>(0, std::min<int64_t>(n, p.out_fail_at - int64_t(text.size())));
    if (p.out_fail_at >= 0 && failed && p.out_sticky) room = 0;
    text.append(s, size_t(room));
    if (room < n) failed = true;
    return room;
}
int OutBuf::sync()
{
    if (p.sync_fails) { failed = true; return -1; }
    return 0;
}
}  // namespace sim::io

using namespace sim;
namespace {
template<class F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
int which(const char* path)      // 0 not simulated, 1 input, 2 output
{
    using namespace sim::io;
    if (!armed || g_dir.empty() || strncmp(path, g_dir.c_str(), g_dir.size()) != 0) return 0;
    const char* n = path + g_dir.size();
    return strncmp(n, "/in", 3) == 0 ? 1 : strncmp(n, "/out", 4) == 0 ? 2 : 0;
}
FILE* sim_fopen(const char* name, const char* path, const char* mode)
{
    using F = FILE* (*)(const char*, const char*);
    static F f64 = real<F>("fopen64"), f32 = real<F>("fopen");
    F f = strcmp(name, "fopen64") == 0 ? f64 : f32;
    int k = which(path);
    if (k == 2 && io::plan.open_fails) { io::state.open_failed = true; errno = EACCES; return nullptr; }
    FILE* r = f(path, mode);
    if (r && k == 1) io::in_fd = fileno(r);
    if (r && k == 2) { io::out_fd = fileno(r); io::state.opened = true; }
    return r;
}
// what the simulated disk does with a write; returns bytes accepted or -1
ssize_t sim_accept(const char* b, size_t n)
{
    using namespace sim::io;
    seam::Pause pause;
    state.writes++;
    if (plan.out_stall_ns) seam::clock_advance_ns(plan.out_stall_ns);
    if (plan.out_eintr_every && state.writes % uint64_t(plan.out_eintr_every) == 0 && state.eintrs < 10000) { state.eintrs++; errno = EINTR; return -1; }
    if (plan.out_chunk > 0 && n > size_t(plan.out_chunk)) { n = size_t(plan.out_chunk); state.shorts++; }
    if (plan.out_fail_at >= 0 && (plan.out_sticky || !state.write_failed)) {
        int64_t room = plan.out_fail_at - int64_t(state.written.size());
        if (room <= 0) { state.write_failed = true; errno = plan.out_errno; return -1; }
        if (int64_t(n) > room) { n = size_t(room); state.shorts++; }
    }
    state.written.append(b, n);
    return ssize_t(n);
}
}  // namespace

extern "C" {
FILE* fopen(const char* p, const char* m) { return sim_fopen("fopen", p, m); }
FILE* fopen64(const char* p, const char* m) { return sim_fopen("fopen64", p, m); }
int fclose(FILE* f)
{
    using F = int (*)(FILE*);
    static F r = real<F>("fclose");
    bool ours = io::armed && io::out_fd >= 0 && fileno(f) == io::out_fd;
    if (io::armed && io::in_fd >= 0 && fileno(f) == io::in_fd) io::in_fd = -1;
    int rc = r(f);
    if (ours) {
        io::out_fd = -1;
        if (io::plan.close_fails) { io::state.close_failed = true; errno = EIO; return EOF; }
    }
    return rc;
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (io::armed && fd == io::out_fd && fd >= 0) return sim_accept(static_cast<const char*>(b), n);
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!(io::armed && fd == io::out_fd && fd >= 0)) return syscall(SYS_writev, fd, v, c);
    string all;
    {
        seam::Pause pause;
        for (int i = 0; i < c; i++) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    }
    ssize_t r = sim_accept(all.data(), all.size());
    seam::Pause pause;
    all = string();
    return r;
}
ssize_t read(int fd, void* b, size_t n)
{
    if (!(io::armed && fd == io::in_fd && fd >= 0)) return syscall(SYS_read, fd, b, n);
    using namespace sim::io;
    state.reads++;
    if (plan.in_stall_ns) seam::clock_advance_ns(plan.in_stall_ns);
    if (plan.in_eintr_every && state.reads % uint64_t(plan.in_eintr_every) == 0 && state.eintrs < 10000) { state.eintrs++; errno = EINTR; return -1; }
    if (plan.in_chunk > 0) n = std::min<size_t>(n, 1 + mix(plan.in_salt, state.reads) % uint64_t(plan.in_chunk));
    if (plan.in_fail_at >= 0) {
        int64_t room = plan.in_fail_at - in_read;
        if (room <= 0) { state.read_failed = true; errno = plan.in_fail_errno; return -1; }
        n = std::min<size_t>(n, size_t(room));
    }
    long k = syscall(SYS_read, fd, b, n);
    if (k > 0) in_read += k;
    return k;
}
}
