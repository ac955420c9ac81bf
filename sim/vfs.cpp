// Simulated storage under the C stdio layer, process exits and clocks.
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <chrono>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <algorithm>
#include <set>
#include <fstream>
#include <iostream>
#include <filesystem>
#include <fcntl.h>

[[noreturn]] void sim_throw_fs(const char *what, int code);
namespace sim {
IoPlan io; IoStats iostat; std::vector<std::string> shell_cmds;
static std::map<std::string, std::string> *files; static std::set<std::string> *dirs;
struct Handle { FILE *f = nullptr; std::string path; bool rd = false, wr = false, app = false, closed = false, dead = false, failing = false, busy = false; size_t pos = 0; char *buf = nullptr; };
static std::map<FILE *, Handle *> *open_map;      // every handle ever opened in this run
static std::vector<Handle *> graveyard;
static int n_double, n_after; static std::string cap_out; static FILE *cap_file; static bool cap_on;
std::map<std::string, std::string> &fs() { return *files; }
void fs_mkdir(const std::string &d) { dirs->insert(d); }
static std::string norm(const char *p) { std::string s = p; while (s.size() > 1 && s.compare(0, 2, "./") == 0) s = s.substr(2); std::string o; for (char c : s) if (!(c == '/' && !o.empty() && o.back() == '/')) o += c; return o; }
static std::string dir_of(const std::string &p) { size_t k = p.rfind('/'); return k == std::string::npos ? "." : k == 0 ? "/" : p.substr(0, k); }
std::string &captured() { fflush(cap_file); return cap_out; }
void capture_stdout(bool on) { cap_on = on; }

static bool hit(IoKind k, long &counter) {       // counter: operations of this kind so far
    long me = counter++; long all = iostat.ops++;
    if (io.kind == IO_CRASH && io.at == all) return true;
    return io.kind == k && me == io.at;
}
static bool crash_now() { return io.kind == IO_CRASH && iostat.ops == io.at + 1; }
static void crash_point(const char *what) {       // a system call that can be the last one of the process
    long other = 0; hit(IO_NONE, other);
    if (crash_now()) { iostat.fired = true; fault("crash_at_other_call"); end_process(CRASHED, 0, std::string("crash at ") + what); }
}
static ssize_t ck_read(void *c, char *buf, size_t n) {
    Handle *h = (Handle *)c; if (h->dead) return 0;
    if (h->failing && io.kind == IO_READ_ERR) { errno = EIO; return -1; }
    if (hit(IO_READ_ERR, iostat.reads)) {
        if (crash_now()) { h->busy = true; iostat.fired = true; fault("crash_at_read"); end_process(CRASHED, 0, "crash during read"); }
        iostat.fired = iostat.read_err = true; fault("read_error"); if (io.sticky) { h->failing = true; iostat.lost_data = h->pos < (*files)[h->path].size(); } errno = EIO; return -1;
    }
    std::string &d = (*files)[h->path];
    if (h->pos >= d.size()) return 0;
    size_t k = std::min(n, d.size() - h->pos);
    if (io.short_ops && k > 1 && chance(1, 3)) { k = 1 + choose((uint32_t)std::min<size_t>(k, 64)); k = std::min(k, d.size() - h->pos); fault("short_read"); }
    memcpy(buf, d.data() + h->pos, k); h->pos += k; return (ssize_t)k;
}
static ssize_t ck_write(void *c, const char *buf, size_t n) {
    Handle *h = (Handle *)c; if (h->dead) return (ssize_t)n;
    std::string &d = (*files)[h->path];
    auto put = [&](size_t k) { if (h->app) h->pos = d.size(); if (d.size() < h->pos + k) d.resize(h->pos + k); memcpy(&d[h->pos], buf, k); h->pos += k; };
    if (h->failing) { errno = io.kind == IO_NOSPACE ? ENOSPC : EIO; return 0; }
    if (hit(IO_WRITE_ERR, iostat.writes)) {
        if (crash_now()) { size_t torn = choose((uint32_t)n + 1); put(torn); if (torn && torn < n) fault("torn_write"); h->busy = true; iostat.fired = true; fault("crash_at_write"); end_process(CRASHED, 0, "crash during write"); }
        iostat.fired = iostat.write_err = true; fault("write_error"); size_t k = choose((uint32_t)n); put(k); if (io.sticky) h->failing = true; errno = EIO; return (ssize_t)k;
    }
    if (io.kind == IO_NOSPACE && (long)n > io.space) {
        size_t k = io.space > 0 ? io.space : 0; put(k); io.space = 0; iostat.fired = iostat.nospace = true; fault("disk_full"); errno = ENOSPC; return (ssize_t)k;
    }
    if (io.kind == IO_NOSPACE) io.space -= n;
    put(n); return (ssize_t)n;
}
static int ck_seek(void *c, off64_t *off, int wh) {
    Handle *h = (Handle *)c; if (io.unseekable) { if (!iostat.fired) fault("unseekable_file"); iostat.fired = true; errno = ESPIPE; return -1; }
    size_t sz = (*files)[h->path].size();
    int64_t np = wh == SEEK_SET ? *off : wh == SEEK_CUR ? (int64_t)h->pos + *off : (int64_t)sz + *off;
    if (np < 0) { errno = EINVAL; return -1; }
    h->pos = np; *off = np; return 0;
}
static int ck_close(void *c) {
    Handle *h = (Handle *)c; if (h->dead) return 0;
    if (hit(IO_CLOSE_FAIL, iostat.closes)) {
        if (crash_now()) { h->busy = true; iostat.fired = true; fault("crash_at_close"); end_process(CRASHED, 0, "crash during close"); }
        iostat.fired = iostat.close_fail = true; fault("close_error");
        if (h->wr) { std::string &d = (*files)[h->path]; if (!d.empty()) d.resize(choose((uint32_t)d.size() + 1)); }
        errno = EIO; return -1;
    }
    return 0;
}
static ssize_t cap_write(void *, const char *b, size_t n) { if (cap_on && cap_out.size() < (1 << 20)) cap_out.append(b, n); return (ssize_t)n; }
struct CapBuf : std::streambuf {                  // std::cout, std::cerr and std::clog of the library
    int overflow(int c) override { Host hh; char b = (char)c; if (c != EOF) cap_write(nullptr, &b, 1); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *b, std::streamsize n) override { Host hh; return cap_write(nullptr, b, n); }
};
void vfs_reset() {
    if (!files) {
        files = new std::map<std::string, std::string>; dirs = new std::set<std::string>; open_map = new std::map<FILE *, Handle *>;
        cookie_io_functions_t fn = {nullptr, cap_write, nullptr, nullptr}; cap_file = fopencookie(nullptr, "w", fn); setvbuf(cap_file, nullptr, _IONBF, 0); stdout = cap_file; stderr = cap_file;
    }
    static CapBuf *cb; if (!cb) cb = new CapBuf;
    for (std::ostream *o : {&std::cout, &std::cerr, &std::clog}) { o->rdbuf(cb); o->clear(); o->flags(std::ios::dec | std::ios::skipws | (o == &std::cerr ? std::ios::unitbuf : std::ios::fmtflags())); o->precision(6); o->width(0); o->fill(' '); }
    close_all_silently();
    files->clear(); dirs->clear(); for (const char *d : {".", "/", "/tmp", "/d", "/d.mtx", "/d.bin"}) dirs->insert(d);
    io_reset(); cap_out.clear(); cap_on = true; shell_cmds.clear();
}
void io_reset() { io = IoPlan(); iostat = IoStats(); n_double = n_after = 0; }
int open_handles() { int n = 0; for (auto &p : *open_map) n += !p.second->closed; return n; }
int double_closes() { return n_double; }
int use_after_close() { return n_after; }
void close_all_silently() {
    Host hh;
    for (auto &p : *open_map) { Handle *h = p.second; h->dead = true; if (!h->busy) { fclose(h->f); if (h->buf) free(h->buf); delete h; } }   // busy ones died inside stdio: leaked on purpose
    open_map->clear();
}
void flush_all() { for (auto &p : *open_map) { Handle *h = p.second; if (!h->closed && h->wr) fflush(h->f); } }
static Handle *handle(FILE *f) { auto it = open_map->find(f); return it == open_map->end() ? nullptr : it->second; }
// returns false if the operation must not reach stdio
static bool use(FILE *f, const char *what) {
    if (f == cap_file) return true;
    if (!f) violate("memory-error", "%s on a null FILE", what);
    Handle *h = handle(f);
    if (!h) violate("memory-error", "%s on an invalid FILE", what);
    if (h->closed) { n_after++; fault("use_after_close"); if (cfg.handle_check) violate("handle-misuse", "%s after the file was closed", what); return false; }
    return true;
}
int64_t wall_ns, mono_ns; std::function<void()> on_clock;
void advance(int64_t ns) { wall_ns += ns; mono_ns += ns; }
static void clock_read() { Host h; if (on_clock) on_clock(); }
} // namespace sim
using namespace sim;

extern "C" {
void *__wrap_realloc(void *, size_t); void *__wrap_malloc(size_t);
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
FILE *__wrap_fopen(const char *name, const char *mode) {
    if (g_host) return __real_fopen(name, mode);
    Host hh; std::string p = norm(name);
    bool fail = hit(IO_OPEN_FAIL, iostat.opens);
    if (fail && crash_now()) { iostat.fired = true; fault("crash_at_open"); end_process(CRASHED, 0, "crash before open"); }
    if (fail) { iostat.fired = iostat.open_fail = true; fault("open_error"); errno = EMFILE; return nullptr; }
    bool plus = strchr(mode, '+'); char m = mode[0];
    if (m == 'r' && !files->count(p)) { errno = ENOENT; return nullptr; }
    if (dirs->count(p)) { errno = EISDIR; return nullptr; }
    if (m != 'r' && !dirs->count(dir_of(p))) { errno = ENOENT; return nullptr; }
    if (m == 'w') (*files)[p].clear(); else (*files)[p];
    Handle *h = new Handle; h->path = p; h->rd = m == 'r' || plus; h->wr = m != 'r' || plus; h->app = m == 'a';
    cookie_io_functions_t fn = {ck_read, ck_write, ck_seek, ck_close};
    h->f = fopencookie(h, mode, fn);
    if (io.buf) { h->buf = (char *)malloc(io.buf + 16); setvbuf(h->f, h->buf, _IOFBF, io.buf); }
    else if (io.random_buf) { static const int sz[] = {0, 1, 2, 3, 7, 16, 64, 100, 512, 1024}; int k = sz[choose(10)]; if (k) { h->buf = (char *)malloc(k + 16); setvbuf(h->f, h->buf, _IOFBF, k); } }
    (*open_map)[h->f] = h; mix(h->path.size() + m);
    return h->f;
}
FILE *__wrap_fopen64(const char *n, const char *m) { return __wrap_fopen(n, m); }
int __wrap_fclose(FILE *f) {
    if (g_host) return __real_fclose(f);
    Host hh; if (f == cap_file) return 0;
    if (!f) violate("memory-error", "fclose on a null FILE");
    Handle *h = handle(f);
    if (!h) violate("memory-error", "fclose on an invalid FILE");
    if (h->closed) { n_double++; fault("double_close"); if (cfg.handle_check) violate("handle-misuse", "file closed twice"); return EOF; }
    // the FILE object stays allocated until the run ends so that later misuse is seen
    int r = 0; if (h->wr && fflush(f)) r = EOF;
    if (ck_close(h)) r = EOF;
    h->closed = true; return r;
}
#define G(name, decl, call, file, bad) decl __real_##name call;
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) {
    if (g_host) return fread_unlocked(b, s, n, f);
    Host hh; if (!use(f, "fread")) return 0;
    // stdio writes what it delivers: check the part that is really transferred
    if (s == 0 || n == 0) return 0;
    size_t tot; if (__builtin_mul_overflow(s, n, &tot)) tot = SIZE_MAX;
    Handle *h = handle(f);
    std::string &d = (*files)[h->path]; long at = ftell(f); size_t avail = at >= 0 && (size_t)at < d.size() ? d.size() - at : 0;
    check_range(b, std::min(tot, avail), true, "fread");
    return fread(b, s, n, f);
}
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) {
    if (g_host) return fwrite_unlocked(b, s, n, f);
    Host hh; if (!use(f, "fwrite")) return 0; check_range(b, s * n, false, "fwrite"); return fwrite(b, s, n, f);
}
int __wrap_fseek(FILE *f, long o, int w) { Host hh; if (!use(f, "fseek")) return -1; return fseek(f, o, w); }
int __wrap_fseeko(FILE *f, off_t o, int w) { Host hh; if (!use(f, "fseek")) return -1; return fseek(f, o, w); }
long __wrap_ftell(FILE *f) { Host hh; if (!use(f, "ftell")) return -1; return ftell(f); }
off_t __wrap_ftello(FILE *f) { Host hh; if (!use(f, "ftell")) return -1; return ftell(f); }
void __wrap_rewind(FILE *f) { Host hh; if (use(f, "rewind")) rewind(f); }
int __real_fflush(FILE *);
int __wrap_fflush(FILE *f) { if (g_host) return __real_fflush(f); Host hh; if (!f) { flush_all(); return 0; } if (!use(f, "fflush")) return EOF; return __real_fflush(f); }
int __wrap_feof(FILE *f) { Host hh; if (!use(f, "feof")) return 1; return feof(f); }
int __wrap_ferror(FILE *f) { Host hh; if (!use(f, "ferror")) return 1; return ferror(f); }
void __wrap_clearerr(FILE *f) { Host hh; if (use(f, "clearerr")) clearerr(f); }
int __wrap_fgetc(FILE *f) { Host hh; if (!use(f, "fgetc")) return EOF; return fgetc(f); }
int __wrap_getc(FILE *f) { return __wrap_fgetc(f); }
int __wrap_ungetc(int c, FILE *f) { Host hh; if (!use(f, "ungetc")) return EOF; return ungetc(c, f); }
char *__wrap_fgets(char *s, int n, FILE *f) { Host hh; if (!use(f, "fgets")) return nullptr; char *r = fgets(s, n, f); if (r) check_range(s, strlen(s) + 1, true, "fgets"); return r; }
int __real_fputs(const char *, FILE *); int __real_fputc(int, FILE *);
int __wrap_fputs(const char *s, FILE *f) { if (g_host) return __real_fputs(s, f); Host hh; if (!use(f, "fputs")) return EOF; return __real_fputs(s, f); }
int __wrap_fputc(int c, FILE *f) { if (g_host) return __real_fputc(c, f); Host hh; if (!use(f, "fputc")) return EOF; return __real_fputc(c, f); }
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { if (g_host) return vfprintf(f, fmt, ap); Host hh; if (!use(f, "fprintf")) return -1; return vfprintf(f, fmt, ap); }
int __wrap_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vfprintf(f, fmt, ap); va_end(ap); return r; }
int __wrap_setvbuf(FILE *f, char *, int, size_t) { Host hh; use(f, "setvbuf"); return 0; }
void __wrap_setbuf(FILE *f, char *) { Host hh; use(f, "setbuf"); }
static int fd_of(FILE *f) { int k = 1000; for (auto &p : *open_map) { if (p.first == f) return k; k++; } return f == cap_file ? 1 : -1; }
static FILE *file_of(int fd) { int k = 1000; for (auto &p : *open_map) if (k++ == fd) return p.first; return nullptr; }
int __wrap_fileno(FILE *f) { Host hh; if (!use(f, "fileno")) return -1; return fd_of(f); }
int __wrap_vfscanf(FILE *f, const char *fmt, va_list ap) { Host hh; if (!use(f, "fscanf")) return EOF; return vfscanf(f, fmt, ap); }
int __wrap_fscanf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vfscanf(f, fmt, ap); va_end(ap); return r; }
int __wrap___isoc99_fscanf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vfscanf(f, fmt, ap); va_end(ap); return r; }
int __wrap___isoc23_fscanf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vfscanf(f, fmt, ap); va_end(ap); return r; }
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) { Host hh; if (!use(f, "getline")) return -1; char *b = nullptr; size_t k = 0; ssize_t r = getline(&b, &k, f); if (r >= 0) { g_host = 0; if (!*l || *n < (size_t)r + 1) { *l = (char *)__wrap_realloc(*l, r + 1); *n = r + 1; } g_host = 1; memcpy(*l, b, r + 1); } free(b); return r; }

// descriptors: unbuffered access to the same storage, with the same faults
int __wrap_open(const char *p, int fl, ...) {
    if (g_host) { errno = ENOSYS; return -1; }
    bool there, dir; { Host hh; there = files->count(norm(p)); dir = dirs->count(norm(p)); }
    if ((fl & O_CREAT) && (fl & O_EXCL) && (there || dir)) { errno = EEXIST; return -1; }
    if (!(fl & O_CREAT) && !there) { errno = dir ? EISDIR : ENOENT; return -1; }
    int acc = fl & O_ACCMODE; const char *m = acc == O_RDONLY ? "r" : (fl & O_APPEND) ? (acc == O_RDWR ? "a+" : "a") : ((fl & O_TRUNC) || !there) ? (acc == O_RDWR ? "w+" : "w") : "r+";
    FILE *f = __wrap_fopen(p, m); if (!f) return -1;
    Host hh; return fd_of(f);
}
int __wrap_creat(const char *p, unsigned) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, 0644); }
static Handle *fd_handle(int fd, const char *what) { FILE *f = file_of(fd); if (!f) { errno = EBADF; return nullptr; } return use(f, what) ? handle(f) : nullptr; }
ssize_t __wrap_read(int fd, void *b, size_t n) { Host hh; Handle *h = fd_handle(fd, "read"); if (!h) return -1; std::string &d = (*files)[h->path]; check_range(b, std::min(n, h->pos < d.size() ? d.size() - h->pos : 0), true, "read"); return ck_read(h, (char *)b, n); }
static ssize_t sys_write(Handle *h, const char *b, size_t n) { if (!n) return 0; bool was = iostat.write_err; ssize_t r = ck_write(h, b, n); return r <= 0 || iostat.write_err != was ? -1 : r; }
ssize_t __wrap_write(int fd, const void *b, size_t n) { Host hh; if (fd == 1 || fd == 2) return cap_write(nullptr, (const char *)b, n); Handle *h = fd_handle(fd, "write"); if (!h) return -1; check_range(b, n, false, "write"); return sys_write(h, (const char *)b, n); }
off_t __wrap_lseek(int fd, off_t o, int w) { Host hh; Handle *h = fd_handle(fd, "lseek"); if (!h) return -1; off64_t v = o; return ck_seek(h, &v, w) ? -1 : v; }
int __wrap_close(int fd) { FILE *f; { Host hh; f = file_of(fd); } if (!f) { errno = EBADF; return -1; } return __wrap_fclose(f) ? -1 : 0; }
FILE *__wrap_fdopen(int fd, const char *) { Host hh; return file_of(fd); }
char *__wrap_strndup(const char *s, size_t n) { size_t k = strnlen(s, n); char *p = (char *)__wrap_malloc(k + 1); if (p) { memcpy(p, s, k); p[k] = 0; } return p; }
char *__wrap_strdup(const char *s) { return __wrap_strndup(s, SIZE_MAX); }
int __wrap_vasprintf(char **o, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, f, c); va_end(c); if (n < 0 || !(*o = (char *)__wrap_malloc(n + 1))) return -1; return vsnprintf(*o, n + 1, f, ap); }
int __wrap_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vasprintf(o, f, ap); va_end(ap); return r; }
int __wrap_remove(const char *p) { if (g_host) return -1; Host hh; std::string s = norm(p); if (files->erase(s)) return 0; if (dirs->erase(s)) return 0; errno = ENOENT; return -1; }
int __wrap_unlink(const char *p) { return __wrap_remove(p); }
int __wrap_rename(const char *a, const char *b) { Host hh; std::string s = norm(a), d = norm(b); crash_point("rename"); auto it = files->find(s); if (it == files->end()) { errno = ENOENT; return -1; } std::string v = it->second; files->erase(it); (*files)[d] = v; return 0; }
int __wrap_mkdir(const char *p, unsigned) { Host hh; std::string s = norm(p); if (dirs->count(s) || files->count(s)) { errno = EEXIST; return -1; } dirs->insert(s); return 0; }
int __wrap_rmdir(const char *p) { Host hh; return dirs->erase(norm(p)) ? 0 : -1; }
int __wrap_access(const char *p, int) { Host hh; std::string s = norm(p); if (files->count(s) || dirs->count(s)) return 0; errno = ENOENT; return -1; }
static int fill_stat(const std::string &s, struct stat *st) { memset(st, 0, sizeof *st); auto it = files->find(s); if (it != files->end()) { st->st_size = it->second.size(); st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_blksize = 4096; return 0; } if (dirs->count(s)) { st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; return 0; } errno = ENOENT; return -1; }
int __wrap_stat(const char *p, struct stat *st) { Host hh; return fill_stat(norm(p), st); }
int __wrap_lstat(const char *p, struct stat *st) { return __wrap_stat(p, st); }
int __wrap_fstat(int fd, struct stat *st) { Host hh; FILE *f = file_of(fd); if (!f) { errno = EBADF; return -1; } return fill_stat(handle(f)->path, st); }
static int resize_to(const std::string &p, off_t n) { auto it = files->find(p); if (it == files->end() || n < 0) { errno = ENOENT; return -1; } it->second.resize(n); return 0; }
int __wrap_truncate(const char *p, off_t n) { Host hh; crash_point("truncate"); return resize_to(norm(p), n); }
int __wrap_ftruncate(int fd, off_t n) { Host hh; crash_point("ftruncate"); FILE *f = file_of(fd); if (!f) { errno = EBADF; return -1; } return resize_to(handle(f)->path, n); }
int __wrap_system(const char *c) {
    Host hh; std::string s = c ? c : ""; shell_cmds.push_back(s); mix(s.size());
    crash_point("system");
    auto arg = [&](const char *pre) { return s.compare(0, strlen(pre), pre) == 0; };
    if (arg("mkdir -p ")) { std::string d = norm(s.substr(9).c_str()); for (size_t k = d.find('/', 1); k != std::string::npos; k = d.find('/', k + 1)) dirs->insert(d.substr(0, k)); dirs->insert(d); return 0; }
    if (arg("rm -rf ")) { std::string d = norm(s.substr(7).c_str()); for (auto it = files->begin(); it != files->end();) { if (it->first == d || it->first.compare(0, d.size() + 1, d + "/") == 0) it = files->erase(it); else ++it; } dirs->erase(d); return 0; }
    return 127 << 8;
}
__attribute__((noreturn)) void __wrap_exit(int c) { if (g_host) _exit(c); end_process(EXITED, c, "exit"); }
__attribute__((noreturn)) void __wrap__Exit(int c) { if (g_host) _exit(c); end_process(CRASHED, c, "_exit"); }
__attribute__((noreturn)) void __wrap_abort() { if (g_host) _exit(134); end_process(FAILSTOP, 134, "abort"); }
__attribute__((noreturn)) void __wrap___assert_fail(const char *e, const char *file, unsigned line, const char *) {
    if (g_host) { std::string m = std::string("HOST ASSERT ") + e + " " + file + ":" + std::to_string(line) + "\n"; if (write(2, m.data(), m.size())) {} _exit(134); }
    const char *b = strrchr(file, '/'); end_process(FAILSTOP, 134, std::string("assertion ") + e + " in " + (b ? b + 1 : file));
}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (g_host) return __real_clock_gettime(c, t); clock_read(); int64_t v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall_ns : mono_ns; t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *) { clock_read(); t->tv_sec = wall_ns / 1000000000; t->tv_usec = wall_ns / 1000 % 1000000; return 0; }
time_t __wrap_time(time_t *t) { clock_read(); time_t v = wall_ns / 1000000000; if (t) *t = v; return v; }
clock_t __wrap_clock() { clock_read(); return mono_ns / 1000; }
double omp_get_wtime() { clock_read(); return mono_ns * 1e-9; }
double omp_get_wtick() { return 1e-9; }
int __wrap_fsync(int) { return 0; }
int __wrap_fdatasync(int) { return 0; }
int __wrap_sched_yield() { Host h; if (g_parallel) yield_point(); return 0; }
int __wrap_usleep(unsigned us) { advance((int64_t)us * 1000); __wrap_sched_yield(); return 0; }
unsigned __wrap_sleep(unsigned s) { advance((int64_t)s * 1000000000); __wrap_sched_yield(); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { advance(t->tv_sec * 1000000000ll + t->tv_nsec); __wrap_sched_yield(); return 0; }
}
// the library reads these two clocks; the executable's definitions win over libstdc++'s
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept { clock_read(); return time_point(duration(wall_ns)); }
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { clock_read(); return time_point(duration(mono_ns)); }
extern "C" {
int __wrap_vprintf(const char *f, va_list ap) { Host hh; return vfprintf(cap_file, f, ap); }
int __wrap_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vprintf(f, ap); va_end(ap); return r; }
int __wrap_puts(const char *s) { Host hh; return __real_fputs(s, cap_file) < 0 ? EOF : __real_fputc('\n', cap_file); }
int __wrap_putchar(int c) { Host hh; return __real_fputc(c, cap_file); }
void __wrap_perror(const char *) { }
}

// ---------------------------------------------------------------- C++ streams: std::basic_filebuf over the same storage
namespace std {
#define H(f) ((sim::Handle *)sim::handle((FILE *)f))
__basic_file<char>::__basic_file(__c_lock *) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char> *__basic_file<char>::open(const char *name, ios_base::openmode m, int) {
    if (_M_cfile) return nullptr;
    bool in = m & ios::in, out = m & ios::out, tr = m & ios::trunc, ap = m & ios::app;
    const char *s = ap ? (tr ? nullptr : in ? "a+" : "a") : tr ? (out ? (in ? "w+" : "w") : nullptr) : in ? (out ? "r+" : "r") : out ? "w" : nullptr;
    if (!s || g_host) return nullptr;
    FILE *f = __wrap_fopen(name, s); if (!f) return nullptr;
    _M_cfile = (__c_file *)f; _M_cfile_created = true; return this;
}
__basic_file<char> *__basic_file<char>::sys_open(__c_file *, ios_base::openmode) { return nullptr; }
__basic_file<char> *__basic_file<char>::sys_open(int, ios_base::openmode) throw() { return nullptr; }
__basic_file<char> *__basic_file<char>::close() {
    if (!_M_cfile) return nullptr;
    FILE *f = (FILE *)_M_cfile; _M_cfile = nullptr;
    return __wrap_fclose(f) ? nullptr : this;
}
bool __basic_file<char>::is_open() const throw() { return _M_cfile; }
int __basic_file<char>::fd() throw() { Host hh; return fd_of((FILE *)_M_cfile); }
__c_file *__basic_file<char>::file() throw() { return _M_cfile; }
streamsize __basic_file<char>::xsgetn(char *b, streamsize n) { Host hh; return ck_read(H(_M_cfile), b, n); }
streamsize __basic_file<char>::xsputn(const char *b, streamsize n) {
    Host hh; streamsize left = n;
    while (left > 0) { ssize_t r = sys_write(H(_M_cfile), b, left); if (r < 0) break; b += r; left -= r; }
    return n - left;
}
streamsize __basic_file<char>::xsputn_2(const char *a, streamsize n, const char *b, streamsize k) { streamsize r = n ? xsputn(a, n) : 0; return r == n ? r + xsputn(b, k) : r; }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { Host hh; off64_t v = o; return ck_seek(H(_M_cfile), &v, (int)w) ? -1 : v; }
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { Host hh; sim::Handle *h = H(_M_cfile); size_t z = (*sim::files)[h->path].size(); return z > h->pos ? z - h->pos : 0; }
}
// block transfers of streams: libstdc++'s own code is not instrumented
std::istream *wrap_read(std::istream *s, char *b, std::streamsize n) asm("__wrap__ZNSi4readEPcl");
std::istream *wrap_read(std::istream *s, char *b, std::streamsize n) { s->read(b, n); if (!g_host) { Host hh; check_range(b, s->gcount(), true, "istream::read"); } return s; }
std::ostream *wrap_write(std::ostream *s, const char *b, std::streamsize n) asm("__wrap__ZNSo5writeEPKcl");
std::ostream *wrap_write(std::ostream *s, const char *b, std::streamsize n) { if (!g_host) { Host hh; check_range(b, n, false, "ostream::write"); } s->write(b, n); return s; }

// ---------------------------------------------------------------- std::filesystem
namespace fsw {
typedef std::filesystem::path P; typedef std::error_code EC;
static std::string nm(const P &p) { std::string s = norm(p.c_str()); while (s.size() > 1 && s.back() == '/') s.pop_back(); return s; }
static void ok(EC &e) { e.clear(); } static void bad(EC &e, int c) { e.assign(c, std::generic_category()); }
#define M(sym) asm("__wrap__ZNSt10filesystem" sym)
std::filesystem::file_status fs_status(const P &p) M("6statusERKNS_7__cxx114pathE");
std::filesystem::file_status fs_status(const P &p) { Host hh; std::string s = nm(p); using namespace std::filesystem; return file_status(files->count(s) ? file_type::regular : dirs->count(s) ? file_type::directory : file_type::not_found, perms::owner_all); }
std::filesystem::file_status fs_status_e(const P &p, EC &e) M("6statusERKNS_7__cxx114pathERSt10error_code");
std::filesystem::file_status fs_status_e(const P &p, EC &e) { ok(e); return fs_status(p); }
uintmax_t size_e(const P &p, EC &e) M("9file_sizeERKNS_7__cxx114pathERSt10error_code");
uintmax_t size_e(const P &p, EC &e) { Host hh; auto it = files->find(nm(p)); if (it == files->end()) { bad(e, ENOENT); return -1; } ok(e); return it->second.size(); }
uintmax_t size(const P &p) M("9file_sizeERKNS_7__cxx114pathE");
uintmax_t size(const P &p) { EC e; uintmax_t r = size_e(p, e); if (e) sim_throw_fs("file_size", e.value()); return r; }
bool mkd_e(const P &p, EC &e) M("16create_directoryERKNS_7__cxx114pathERSt10error_code");
bool mkd_e(const P &p, EC &e) { Host hh; ok(e); std::string s = nm(p); crash_point("mkdir"); if (dirs->count(s)) return false; if (files->count(s)) { bad(e, EEXIST); return false; } if (!dirs->count(dir_of(s))) { bad(e, ENOENT); return false; } dirs->insert(s); return true; }
bool mkd(const P &p) M("16create_directoryERKNS_7__cxx114pathE");
bool mkd(const P &p) { EC e; bool r = mkd_e(p, e); if (e) sim_throw_fs("create_directory", e.value()); return r; }
bool mkds_e(const P &p, EC &e) M("18create_directoriesERKNS_7__cxx114pathERSt10error_code");
bool mkds_e(const P &p, EC &e) { Host hh; ok(e); std::string s = nm(p); crash_point("mkdir"); bool any = false; for (size_t k = s.find('/', 1); ; k = s.find('/', k + 1)) { std::string d = s.substr(0, k); if (files->count(d)) { bad(e, ENOTDIR); return false; } any |= dirs->insert(d).second; if (k == std::string::npos) break; } return any; }
bool mkds(const P &p) M("18create_directoriesERKNS_7__cxx114pathE");
bool mkds(const P &p) { EC e; bool r = mkds_e(p, e); if (e) sim_throw_fs("create_directories", e.value()); return r; }
uintmax_t rma_e(const P &p, EC &e) M("10remove_allERKNS_7__cxx114pathERSt10error_code");
uintmax_t rma_e(const P &p, EC &e) { Host hh; ok(e); std::string s = nm(p); crash_point("remove_all"); uintmax_t n = 0; for (auto it = files->begin(); it != files->end();) { if (it->first == s || it->first.compare(0, s.size() + 1, s + "/") == 0) { it = files->erase(it); n++; } else ++it; } for (auto it = dirs->begin(); it != dirs->end();) { if (*it == s || it->compare(0, s.size() + 1, s + "/") == 0) { it = dirs->erase(it); n++; } else ++it; } return n; }
uintmax_t rma(const P &p) M("10remove_allERKNS_7__cxx114pathE");
uintmax_t rma(const P &p) { EC e; return rma_e(p, e); }
bool rm_e(const P &p, EC &e) M("6removeERKNS_7__cxx114pathERSt10error_code");
bool rm_e(const P &p, EC &e) { Host hh; ok(e); std::string s = nm(p); return files->erase(s) || dirs->erase(s); }
bool rm(const P &p) M("6removeERKNS_7__cxx114pathE");
bool rm(const P &p) { EC e; return rm_e(p, e); }
void mv_e(const P &a, const P &b, EC &e) M("6renameERKNS_7__cxx114pathES3_RSt10error_code");
void mv_e(const P &a, const P &b, EC &e) { ok(e); if (__wrap_rename(a.c_str(), b.c_str())) bad(e, ENOENT); }
void mv(const P &a, const P &b) M("6renameERKNS_7__cxx114pathES3_");
void mv(const P &a, const P &b) { EC e; mv_e(a, b, e); if (e) sim_throw_fs("rename", e.value()); }
void rsz_e(const P &p, uintmax_t n, EC &e) M("11resize_fileERKNS_7__cxx114pathEmRSt10error_code");
void rsz_e(const P &p, uintmax_t n, EC &e) { ok(e); if (__wrap_truncate(p.c_str(), n)) bad(e, ENOENT); }
void rsz(const P &p, uintmax_t n) M("11resize_fileERKNS_7__cxx114pathEm");
void rsz(const P &p, uintmax_t n) { EC e; rsz_e(p, n, e); if (e) sim_throw_fs("resize_file", e.value()); }
}
