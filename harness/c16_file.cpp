// C16: the file API under every answer of the operating system. The system calls it makes are answered by a file system kept here; every
// operation is run with every plan of deviating answers (short, interrupted, failing, sizes that change), all histories to a depth, and
// what the API reports is compared with what the system was asked to do. The same histories without deviations are also run on real files.
#include <memory>
#include <algorithm>
#include <map>
#include <string>
#include <blend2d/blend2d.h>
#include "vh.h"
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
enum Call { OPEN, CLOSE, READ, WRITE, LSEEK, TRUNC, STAT, MMAP, MUNMAP };
static const char* kCall[] = {"open", "close", "read", "write", "lseek", "ftruncate", "fstat", "mmap", "munmap"};
struct Rec { int call; int fd; size_t n; long ret; int err; };
struct VFile { bool dir = false; std::vector<uint8_t> d; };
struct Fd { std::string name; std::shared_ptr<VFile> f; long pos = 0; int flags = 0; bool open = true; };
struct Plan { int at[2] = {-1, -1}, alt[2] = {0, 0}; int all = 0; /* this alternative for every call that has it */ };
static struct OS {
  bool on = false, real = false; std::string root; std::map<std::string, std::shared_ptr<VFile>> files; std::vector<Fd> fds; std::map<void*, size_t> maps; std::vector<Rec> log; Plan plan; int ncall = 0; bool used[2] = {false, false}; std::string bad; std::vector<int> realfds;
  int dev() { int k = ncall++; int a = plan.all; for (int i = 0; i < 2; i++) if (plan.at[i] == k) { a = plan.alt[i]; } return a; }
  void hit() { for (int i = 0; i < 2; i++) if (plan.at[i] == ncall - 1) used[i] = true; if (plan.all) used[0] = true; }
  long rec(int c, int fd, size_t n, long ret, int e) { log.push_back({c, fd, n, ret, e}); if (e) { errno = e; return -1; } return ret; }
  Fd* get(int fd, const char* what) { int i = fd - 100000; if (i < 0 || i >= (int)fds.size() || !fds[i].open) { bad = std::string(what) + " of a descriptor that is not open"; return nullptr; } return &fds[i]; }
} os;
static const int kErr[9][8] = {{0, EMFILE, EINTR, EACCES, ENOMEM}, {0, EIO}, {0, 0, 0, 0, EINTR, EIO, EAGAIN}, {0, 0, 0, 0, EINTR, EIO, ENOSPC}, {0, ESPIPE}, {0, EIO, EINTR}, {0, EIO}, {0, ENODEV, ENOMEM}, {0}};
static const int kAlts[9] = {5, 2, 7, 7, 2, 3, 4, 3, 1};
static int vopen(const char* p, int fl, int mode) {
  if (os.real) { int fd = syscall(SYS_openat, AT_FDCWD, (os.root + (p + 5)).c_str(), fl, mode); if (fd >= 0) os.realfds.push_back(fd); os.log.push_back({OPEN, fd, size_t(fl), fd, fd < 0 ? errno : 0}); return fd; }
  int a = os.dev(); if (a && a < kAlts[OPEN]) { os.hit(); return os.rec(OPEN, -1, fl, 0, kErr[OPEN][a]); }
  std::string n = p + 5; bool wr = (fl & O_ACCMODE) != O_RDONLY; auto it = os.files.find(n);
  if (n.find("nodir/") == 0) return os.rec(OPEN, -1, fl, 0, ENOENT);
  if (it == os.files.end()) { if (!(fl & O_CREAT)) return os.rec(OPEN, -1, fl, 0, ENOENT); os.files[n] = std::make_shared<VFile>(); it = os.files.find(n); if ((mode & 0777) != 0666) os.bad = "created with mode other than rw-rw-rw-"; }
  else if ((fl & O_CREAT) && (fl & O_EXCL)) return os.rec(OPEN, -1, fl, 0, EEXIST);
  if (it->second->dir && (wr || (fl & O_CREAT))) return os.rec(OPEN, -1, fl, 0, EISDIR);
  if ((fl & O_TRUNC) && wr) it->second->d.clear();
  os.fds.push_back({n, it->second, 0, fl, true}); return os.rec(OPEN, 100000 + (int)os.fds.size() - 1, fl, 100000 + (long)os.fds.size() - 1, 0);
}
static bool vpath(const char* p) { return os.on && !strncmp(p, "/vfs/", 5); }
static bool vfd(int fd) { return os.on && (os.real ? std::find(os.realfds.begin(), os.realfds.end(), fd) != os.realfds.end() : fd >= 90000); }
static size_t amount(int a, size_t n) { if (n <= 1) return n; return a == 1 ? 1 : a == 2 ? n / 2 : a == 3 ? n - 1 : n; }
extern "C" {
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return vpath(p) ? vopen(p, fl, m) : syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return vpath(p) ? vopen(p, fl, m) : syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int close(int fd) {
  if (!vfd(fd)) return syscall(SYS_close, fd);
  if (os.real) { os.log.push_back({CLOSE, fd, 0, 0, 0}); os.realfds.erase(std::find(os.realfds.begin(), os.realfds.end(), fd)); return syscall(SYS_close, fd); }
  int a = os.dev(); Fd* f = os.get(fd, "close"); if (!f) return os.rec(CLOSE, fd, 0, 0, EBADF); f->open = false; f->f.reset();
  if (a == 1) { os.hit(); return os.rec(CLOSE, fd, 0, 0, EIO); } return os.rec(CLOSE, fd, 0, 0, 0);
}
ssize_t read(int fd, void* b, size_t n) {
  if (!vfd(fd)) return syscall(SYS_read, fd, b, n);
  if (os.real) { long r = syscall(SYS_read, fd, b, n); os.log.push_back({READ, fd, n, r, r < 0 ? errno : 0}); return r; }
  int a = os.dev(); Fd* f = os.get(fd, "read"); if (!f || (f->flags & O_ACCMODE) == O_WRONLY) return os.rec(READ, fd, n, 0, EBADF); if (f->f->dir) return os.rec(READ, fd, n, 0, EISDIR);
  if (a >= 4 && a < 7) { os.hit(); return os.rec(READ, fd, n, 0, kErr[READ][a]); }
  size_t av = (size_t)f->pos < f->f->d.size() ? f->f->d.size() - f->pos : 0, k = std::min(n, av), k2 = amount(a, k); if (k2 != k) os.hit();
  if (k2) memcpy(b, f->f->d.data() + f->pos, k2); f->pos += k2; return os.rec(READ, fd, n, k2, 0);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (!vfd(fd)) return syscall(SYS_write, fd, b, n);
  if (os.real) { long r = syscall(SYS_write, fd, b, n); os.log.push_back({WRITE, fd, n, r, r < 0 ? errno : 0}); return r; }
  int a = os.dev(); Fd* f = os.get(fd, "write"); if (!f || (f->flags & O_ACCMODE) == O_RDONLY) return os.rec(WRITE, fd, n, 0, EBADF);
  if (a >= 4 && a < 7) { os.hit(); return os.rec(WRITE, fd, n, 0, kErr[WRITE][a]); }
  size_t k = amount(a, n); if (k != n) os.hit(); auto& d = f->f->d; if (k) { if (d.size() < f->pos + k) d.resize(f->pos + k); memcpy(d.data() + f->pos, b, k); } f->pos += k; return os.rec(WRITE, fd, n, k, 0);
}
static off_t vseek(int fd, off_t o, int w) {
  if (os.real) { long r = syscall(SYS_lseek, fd, o, w); os.log.push_back({LSEEK, fd, 0, r, r < 0 ? errno : 0}); return r; }
  int a = os.dev(); Fd* f = os.get(fd, "lseek"); if (!f) return os.rec(LSEEK, fd, 0, 0, EBADF); if (a == 1) { os.hit(); return os.rec(LSEEK, fd, 0, 0, ESPIPE); }
  long p = o + (w == SEEK_CUR ? f->pos : w == SEEK_END ? (long)f->f->d.size() : 0); if (p < 0) return os.rec(LSEEK, fd, 0, 0, EINVAL); f->pos = p; return os.rec(LSEEK, fd, 0, p, 0);
}
off_t lseek(int fd, off_t o, int w) noexcept { return vfd(fd) ? vseek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return vfd(fd) ? vseek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
static int vtrunc(int fd, off_t n) {
  if (os.real) { int r = syscall(SYS_ftruncate, fd, n); os.log.push_back({TRUNC, fd, size_t(n), r, r < 0 ? errno : 0}); return r; }
  int a = os.dev(); Fd* f = os.get(fd, "ftruncate"); if (!f) return os.rec(TRUNC, fd, n, 0, EBADF); if ((f->flags & O_ACCMODE) == O_RDONLY) return os.rec(TRUNC, fd, n, 0, EINVAL);
  if (a && a < kAlts[TRUNC]) { os.hit(); return os.rec(TRUNC, fd, n, 0, kErr[TRUNC][a]); } f->f->d.resize(n); return os.rec(TRUNC, fd, n, 0, 0);
}
int ftruncate(int fd, off_t n) noexcept { return vfd(fd) ? vtrunc(fd, n) : syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) noexcept { return vfd(fd) ? vtrunc(fd, n) : syscall(SYS_ftruncate, fd, n); }
static int vstat(int fd, VFile* v, struct stat* s) {
  int a = os.dev(); memset(s, 0, sizeof *s); if (fd >= 0) { Fd* f = os.get(fd, "fstat"); if (!f) return os.rec(STAT, fd, 0, 0, EBADF); v = f->f.get(); } if (!v) return os.rec(STAT, fd, 0, 0, ENOENT);
  if (a == 1) { os.hit(); return os.rec(STAT, fd, 0, 0, EIO); }
  s->st_mode = v->dir ? S_IFDIR | 0755 : S_IFREG | 06641; s->st_size = v->d.size(); s->st_uid = 1234; s->st_gid = 5678; s->st_mtim.tv_sec = 1700000001; s->st_mtim.tv_nsec = 987654321;
  if (!v->dir && v->d.size() > 1) { if (a == 2) { os.hit(); s->st_size += 3; } if (a == 3) { os.hit(); s->st_size -= 1; } }   // The file is changed by someone else right before or after.
  return os.rec(STAT, fd, 0, s->st_size, 0);
}
int fstat(int fd, struct stat* s) noexcept { if (!vfd(fd)) return syscall(SYS_fstat, fd, s); if (os.real) { int r = syscall(SYS_fstat, fd, s); os.log.push_back({STAT, fd, 0, r, r < 0 ? errno : 0}); return r; } return vstat(fd, nullptr, s) < 0 ? -1 : 0; }
int fstat64(int fd, struct stat64* s) noexcept { return fstat(fd, (struct stat*)s); }
int stat(const char* p, struct stat* s) noexcept { if (!vpath(p)) return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); if (os.real) { int r = syscall(SYS_newfstatat, AT_FDCWD, (os.root + (p + 5)).c_str(), s, 0); os.log.push_back({STAT, -1, 0, r, r < 0 ? errno : 0}); return r; } auto it = os.files.find(p + 5); return vstat(-1, it == os.files.end() ? nullptr : it->second.get(), s) < 0 ? -1 : 0; }
int stat64(const char* p, struct stat64* s) noexcept { return stat(p, (struct stat*)s); }
static void* vmmap(void* ad, size_t n, int pr, int fl, int fd, off_t o) {
  int a = 0; Fd* f = nullptr;
  if (!os.real) { a = os.dev(); f = os.get(fd, "mmap"); if (!f) { os.rec(MMAP, fd, n, 0, EBADF); return MAP_FAILED; } if (!n) os.bad = "mapping of zero bytes"; if (f->f->dir) { os.rec(MMAP, fd, n, 0, ENODEV); return MAP_FAILED; } if ((f->flags & O_ACCMODE) == O_WRONLY) { os.rec(MMAP, fd, n, 0, EACCES); return MAP_FAILED; } if (pr != PROT_READ) os.bad = "mapping not read-only"; if (a && a < kAlts[MMAP]) { os.hit(); os.rec(MMAP, fd, n, 0, kErr[MMAP][a]); return MAP_FAILED; } }
  void* p = os.real ? (void*)syscall(SYS_mmap, ad, n, pr, fl, fd, o) : (void*)syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p != MAP_FAILED) { if (!os.real) { memcpy(p, f->f->d.data(), std::min(n, f->f->d.size())); syscall(SYS_mprotect, p, n, PROT_READ); } os.maps[p] = n; } os.rec(MMAP, fd, n, 0, 0); return p;
}
void* mmap(void* ad, size_t n, int pr, int fl, int fd, off_t o) noexcept { return vfd(fd) ? vmmap(ad, n, pr, fl, fd, o) : (void*)syscall(SYS_mmap, ad, n, pr, fl, fd, o); }
void* mmap64(void* ad, size_t n, int pr, int fl, int fd, off64_t o) noexcept { return vfd(fd) ? vmmap(ad, n, pr, fl, fd, o) : (void*)syscall(SYS_mmap, ad, n, pr, fl, fd, o); }
int munmap(void* p, size_t n) noexcept {
  if (os.on) { auto it = os.maps.find(p); if (it != os.maps.end()) { if (it->second != n) os.bad = "munmap with a size other than that of the mapping"; size_t m = it->second; os.maps.erase(it); os.log.push_back({MUNMAP, -1, n, 0, 0}); return syscall(SYS_munmap, p, m); } for (auto& m : os.maps) if ((char*)p >= (char*)m.first && (char*)p < (char*)m.first + m.second) os.bad = "munmap inside a mapping"; }
  return syscall(SYS_munmap, p, n);
}
}
static std::vector<uint8_t> bytes(size_t n, int seed) { std::vector<uint8_t> v(n); for (size_t i = 0; i < n; i++) v[i] = uint8_t((i * 7 + seed * 31 + i / 251) & 255); return v; }
static const std::vector<uint8_t>* gTtf; static const BLImage* gImg; static const char* kRealRoot;
struct FH {
  std::string label; bool bad = false, chk = false, warm = false; const char* opn = ""; size_t base = 0; bool live = false;
  alignas(16) char fmem[2][sizeof(BLFile)]; BLFile* f[2]; alignas(16) char amem[sizeof(BLArray<uint8_t>)]; BLArray<uint8_t>* arr; std::vector<uint8_t> am; alignas(16) char ftmem[sizeof(BLFontData)]; BLFontData* ft;
  int devs = 0, maxdevs; std::string trace;
  struct Op { std::string name; std::function<void(FH&)> f; Plan plan; int nd; }; std::vector<Op> ops; 
  void err(const char* k, const std::string& d) { if (!bad && chk && !warm) { std::string l; for (auto& r : os.log) { char b[80]; snprintf(b, sizeof b, " %s(%d,%zu)=%ld%s%s", kCall[r.call], r.fd, r.n, r.ret, r.err ? "/" : "", r.err ? strerror(r.err) : ""); l += b; } fail(k, "%s: %s [%s ]", opn, d.c_str(), l.c_str()); } bad = true; }
  static uint32_t map(int e) { switch (e) { case EMFILE: return BL_ERROR_TOO_MANY_OPEN_FILES; case EINTR: return BL_ERROR_INTERRUPTED; case EACCES: return BL_ERROR_ACCESS_DENIED; case EIO: return BL_ERROR_IO; case ENOSPC: return BL_ERROR_NO_SPACE_LEFT; case ENOENT: return BL_ERROR_NO_ENTRY; case EEXIST: return BL_ERROR_ALREADY_EXISTS; case EISDIR: return BL_ERROR_NOT_FILE; case EINVAL: return BL_ERROR_INVALID_VALUE; case ESPIPE: return BL_ERROR_INVALID_SEEK; case ENODEV: return BL_ERROR_NO_DEVICE; case ENOMEM: return BL_ERROR_OUT_OF_MEMORY; case EAGAIN: return BL_ERROR_TRY_AGAIN; case EBADF: return BL_ERROR_INVALID_HANDLE; } return 1; }
  void is_err(BLResult r, int e, bool io) { bool ok = r == map(e) || (io && (e == EBADF || e == EINVAL) && r == BL_ERROR_NOT_PERMITTED); if (!ok) err("error-code", "returned " + std::to_string(r) + " although the system answered '" + strerror(e) + "'"); }
  size_t total(int c, int fd = 0) { size_t t = 0; for (auto& r : os.log) if (r.call == c && !r.err) t += r.ret; return t; }
  const Rec* last(int c) { for (size_t i = os.log.size(); i--;) if (os.log[i].call == c) return &os.log[i]; return nullptr; }
  void only(std::initializer_list<int> cs, int fd) { for (auto& r : os.log) { bool in = false; for (int c : cs) in = in || c == r.call; if (!in) err("system-calls", std::string("unexpected ") + kCall[r.call]); if (fd >= 0 && r.fd != fd) err("system-calls", "descriptor of another file used"); } }
  void note(const std::string& s) { trace += s + ";"; }
  std::shared_ptr<VFile> file(int i) { int fd = int(f[i]->handle) - 100000; return f[i]->is_open() && !os.real && fd >= 0 && fd < (int)os.fds.size() ? os.fds[fd].f : nullptr; }
  void do_open(int i, const char* name, uint32_t fl) {
    intptr_t old = f[i]->handle; BLResult r = f[i]->open((std::string("/vfs/") + name).c_str(), BLFileOpenFlags(fl)); note(std::to_string(r)); int acc = fl & 3; bool inv = !acc || ((fl & ~3u) && !(acc & 2));
    if (inv) { if (r == BL_SUCCESS || !os.log.empty()) err("invalid-accepted", "contradicting open flags accepted"); if (f[i]->handle != old) err("handle", "changed by a failed open"); return; }
    const Rec* o = last(OPEN); if (!o) return err("system-calls", "no open");
    if (o->err) { is_err(r, o->err, false); if (f[i]->handle != old) err("handle", "changed by a failed open"); only({OPEN}, -1); return; }
    if (r != BL_SUCCESS) return err("result", "open failed although the system opened the file"); if (f[i]->handle != o->ret) err("handle", "is not the descriptor opened");
    int want = (acc == 1 ? O_RDONLY : acc == 2 ? O_WRONLY : O_RDWR) | (fl & BL_FILE_OPEN_CREATE ? O_CREAT : 0) | (fl & BL_FILE_OPEN_CREATE_EXCLUSIVE ? O_CREAT | O_EXCL : 0) | (fl & BL_FILE_OPEN_TRUNCATE ? O_TRUNC : 0);
    if ((int(o->n) & (O_ACCMODE | O_CREAT | O_EXCL | O_TRUNC | O_APPEND)) != want) err("open-flags", "passed to the system differ"); only({OPEN, CLOSE}, -1); int n = 0; for (auto& x : os.log) if (x.call == CLOSE) { n++; if (x.fd != old) err("system-calls", "another descriptor closed"); } if (n != (old != -1)) err("system-calls", "the previous file must be closed once");
  }
  void do_read(int i, size_t n) {
    auto v = file(i); long p0 = v ? os.fds[f[i]->handle - 100000].pos : 0; uint8_t* b = (uint8_t*)malloc(n + !n); memset(b, 0x55, n + !n); size_t k = 777; BLResult r = f[i]->read(b, n, &k); note("read " + std::to_string(r) + " " + std::to_string(k)); for (size_t j = 0; j < std::min(n, k); j++) trace += char(b[j]);
    if (!f[i]->is_open()) { if (r == BL_SUCCESS || k || !os.log.empty()) err("closed", "read of a closed file"); free(b); return; }
    only({READ}, int(f[i]->handle)); const Rec* l = last(READ); size_t t = total(READ);
    if (k != t) err("count", std::to_string(k) + " reported, " + std::to_string(t) + " transferred"); else if (v && !v->dir) { for (size_t j = 0; j < std::min(k, n); j++) if (b[j] != v->d[p0 + j]) { err("data", "byte " + std::to_string(j) + " of " + std::to_string(k) + " read differs from the file"); break; } }
    if (k > n) err("count", "more than asked for"); if (l && l->err) is_err(r, l->err, true); else if (r != BL_SUCCESS) err("result", "failed without an error of the system"); else if (k != n && !(l && l->ret == 0)) err("short", "stopped before the end of the file"); free(b);
  }
  void do_write(int i, size_t n, int seed) {
    auto v = file(i); auto before = v ? v->d : std::vector<uint8_t>(); long p0 = v ? os.fds[f[i]->handle - 100000].pos : 0; auto src = bytes(n, seed); uint8_t* b = (uint8_t*)malloc(n + !n); if (n) memcpy(b, src.data(), n); size_t k = 777; BLResult r = f[i]->write(b, n, &k); free(b); note("write " + std::to_string(r) + " " + std::to_string(k));
    if (!f[i]->is_open()) { if (r == BL_SUCCESS || k || !os.log.empty()) err("closed", "write to a closed file"); return; }
    only({WRITE}, int(f[i]->handle)); const Rec* l = last(WRITE); size_t t = total(WRITE); if (k != t) err("count", std::to_string(k) + " reported, " + std::to_string(t) + " transferred"); else if (v) { if (before.size() < p0 + k && k) before.resize(p0 + k); if (k) memcpy(before.data() + p0, src.data(), k); if (before != v->d) err("data", "the file differs from what was written"); }
    if (l && l->err) is_err(r, l->err, true); else if (r != BL_SUCCESS) err("result", "failed without an error of the system"); else if (k != n) err("short", "success with a part written");
  }
  void do_seek(int i, long o, uint32_t w) {
    auto v = file(i); long p0 = v ? os.fds[f[i]->handle - 100000].pos : 0; int64_t p = 55; BLResult r = f[i]->seek(o, BLFileSeekType(w), &p); note("seek " + std::to_string(r) + " " + std::to_string(p));
    if (w > 2 || !f[i]->is_open()) { if (r == BL_SUCCESS || p != -1 || !os.log.empty()) err("invalid-accepted", "seek"); return; }
    only({LSEEK}, int(f[i]->handle)); const Rec* l = last(LSEEK); if (!l) return err("system-calls", "no lseek"); if (l->err) { is_err(r, l->err, true); if (p != -1) err("position", "of a failed seek"); return; } if (r != BL_SUCCESS) err("result", "seek failed");
    if (p != l->ret || (v && p != o + (w == 1 ? p0 : w == 2 ? (long)v->d.size() : 0))) err("position", std::to_string(p) + " after a seek");
  }
  void do_trunc(int i, long n) {
    auto v = file(i); auto d = v ? v->d : std::vector<uint8_t>(); long p0 = v ? os.fds[f[i]->handle - 100000].pos : 0; BLResult r = f[i]->truncate(n); note("trunc " + std::to_string(r)); if (!f[i]->is_open() || n < 0) { if (r == BL_SUCCESS || !os.log.empty()) err("invalid-accepted", "truncate"); return; }
    const Rec* l = last(TRUNC); if (!l) return err("system-calls", "no ftruncate"); only({TRUNC}, int(f[i]->handle)); if (l->err) { is_err(r, l->err, true); return; } if (r != BL_SUCCESS) err("result", "truncate failed"); if (v) { d.resize(n); if (d != v->d) err("data", "after truncate"); if (os.fds[f[i]->handle - 100000].pos != p0) err("position", "moved by truncate"); }
  }
  void do_size(int i) {
    uint64_t s = 99; BLResult r = f[i]->get_size(&s); note("size " + std::to_string(r) + (r ? "" : " " + std::to_string(s))); BLFileInfo x; memset(&x, 1, sizeof x); auto lg = os.log; os.log.clear(); BLResult r2 = f[i]->get_info(&x);
    if (!f[i]->is_open()) { if (r == BL_SUCCESS || r2 == BL_SUCCESS || s || x.flags || !lg.empty() || !os.log.empty()) err("closed", "size of a closed file"); return; }
    auto v = file(i); check_info(r2, x, v.get()); os.log.swap(lg); const Rec* l = last(STAT); if (!l) return err("system-calls", "no fstat"); if (l->err) { is_err(r, l->err, true); if (s) err("size", "of a failed call"); return; } if (r != BL_SUCCESS || (v && s != uint64_t(l->ret))) err("size", "differs");
  }
  void check_info(BLResult r, const BLFileInfo& x, VFile* v) {
    const Rec* l = last(STAT); if (!l) return err("system-calls", "no stat"); if (l->err) { is_err(r, l->err, true); if (x.flags || x.size) err("info", "of a failed call"); return; } if (r != BL_SUCCESS) return err("result", "get_info failed"); if (os.real || !v) return;
    uint32_t fl = v->dir ? 0755 | BL_FILE_INFO_DIRECTORY : 06641 | BL_FILE_INFO_REGULAR; if (x.flags != (fl | BL_FILE_INFO_VALID) || (!v->dir && x.size != uint64_t(l->ret)) || x.uid != 1234 || x.gid != 5678) err("info", "type, permissions, size or owner differ"); if (x.modified_time != 1700000001987654ll) err("info", "modified time " + std::to_string(x.modified_time) + " instead of 1700000001987654 us");
  }
  void do_readfile(const char* name, uint32_t fl, size_t max) {
    auto it = os.files.find(name); BLResult r = BLFileSystem::read_file((std::string("/vfs/") + name).c_str(), *arr, max, BLFileReadFlags(fl)); std::vector<uint8_t> got(arr->begin(), arr->end()); note("read_file " + std::to_string(r) + " " + std::to_string(got.size())); trace.append(got.begin(), got.end()); am = got;
    const Rec *o = last(OPEN), *s = last(STAT), *rd = last(READ), *mm = last(MMAP), *c = last(CLOSE); if (!o) return err("system-calls", "no open"); if (o->err) { is_err(r, o->err, false); if (!got.empty()) err("data", "after a failed open"); return; }
    if (!c || c->fd != o->fd) err("leak", "the file is not closed"); if (!s) return err("system-calls", "no fstat"); if (s->err) { is_err(r, s->err, false); return; } if (os.real) return;
    size_t want = size_t(s->ret); if (max) want = std::min(want, max); bool domap = (fl & BL_FILE_READ_MMAP_ENABLED) && !((fl & BL_FILE_READ_MMAP_AVOID_SMALL) && want < 16384); if (!domap && mm) err("system-calls", "mapped although not asked for");
    if (mm && mm->err && (fl & BL_FILE_READ_MMAP_NO_FALLBACK)) { is_err(r, mm->err, false); return; }
    if (rd && rd->err) { is_err(r, rd->err, false); } else if (r != BL_SUCCESS) return err("result", "read_file failed without an error of the system");
    auto& d = it->second->d; if (rd) { if (got.size() != total(READ)) err("count", std::to_string(got.size()) + " bytes returned, " + std::to_string(total(READ)) + " read"); if (!rd->err && got.size() != want && rd->ret != 0) err("short", "success before the end of the file"); } else if (got.size() != want) err("count", std::to_string(got.size()) + " bytes returned");
    for (size_t j = 0; j < got.size(); j++) if (got[j] != (j < d.size() ? d[j] : 0)) { err("data", "byte " + std::to_string(j) + " differs from the file"); break; } if (got.size() > want) err("count", "more than the limit");
  }
  void do_writefile(const char* name, size_t n, int seed, bool img = false) {
    if (!os.maps.empty()) return;   // Truncating a mapped file takes the mapping's pages away: not something the API can hide.
    auto src = bytes(n, seed); size_t k = 777; BLResult r; if (img) { BLImageCodec cd; (void)cd.find_by_name("BMP"); r = gImg->write_to_file((std::string("/vfs/") + name).c_str(), cd); k = total(WRITE); } else { uint8_t* b = (uint8_t*)malloc(n + !n); if (n) memcpy(b, src.data(), n); r = BLFileSystem::write_file((std::string("/vfs/") + name).c_str(), b, n, &k); free(b); }
    note("write_file " + std::to_string(r) + " " + std::to_string(k)); const Rec *o = last(OPEN), *w = last(WRITE), *c = last(CLOSE); if (!o) return err("system-calls", "no open"); if (o->err) { is_err(r, o->err, false); if (k) err("count", "after a failed open"); return; }
    if ((int(o->n) & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL | O_APPEND)) != (O_WRONLY | O_CREAT | O_TRUNC)) err("open-flags", "of write_file"); if (!c || c->fd != o->fd) err("leak", "the file is not closed"); if (k != total(WRITE)) err("count", "reported differs from what was transferred"); if (w && w->err) { is_err(r, w->err, false); return; } if (c && c->err) { is_err(r, c->err, false); return; }
    if (r != BL_SUCCESS) return err("result", "write_file failed without an error of the system"); if (os.real) return; auto it = os.files.find(name); if (!img) { if (k != n || it->second->d != src) err("data", "the file does not have the content given"); } else { BLImage b; if (b.read_from_data(it->second->d.data(), it->second->d.size()) != BL_SUCCESS || !b.equals(*gImg)) err("data", "the image written reads back differently"); }
  }
  void closed(BLResult r) { const Rec* c = last(CLOSE); if (c && c->err ? r != map(c->err) : r != BL_SUCCESS) err("result", "of close"); }
  FH(const char* l, int set, int md) : label(l), maxdevs(md) {
    std::vector<std::pair<std::string, std::function<void(FH&)>>> b; auto add = [&](std::string n, std::function<void(FH&)> fn) { b.push_back({n, fn}); };
    auto op = [&](int i, const char* n, uint32_t fl) { std::string nm = n; char t[60]; snprintf(t, sizeof t, "f%d.open(%s,%x)", i, n, fl); add(t, [=](FH& h) { h.do_open(i, nm.c_str(), fl); }); };
    if (set == 0 || set == 2) {
      op(0, "a", 1); op(0, "a", 2); op(0, "a", 3); op(0, "a", 3 | 0x10); op(0, "new", 2 | 4); op(0, "a", 2 | 0x40000000u); op(0, "new", 3 | 0x40000000u | 4); op(0, "none", 3); if (label != "real-file") op(0, "dir", 1); op(0, "a", 0); op(0, "a", 1 | 4); op(0, "a", 1 | 0x10); op(1, "a", 3);
      for (size_t n : {0, 1, 5, 64}) add("f0.read(" + std::to_string(n) + ")", [=](FH& h) { h.do_read(0, n); }); add("f1.read(6)", [](FH& h) { h.do_read(1, 6); });
      for (size_t n : {0, 1, 7, 40}) add("f0.write(" + std::to_string(n) + ")", [=](FH& h) { h.do_write(0, n, 3); }); add("f1.write(3)", [](FH& h) { h.do_write(1, 3, 4); });
      for (auto p : {std::pair<int, int>{3, 0}, {-2, 1}, {0, 2}, {4, 2}, {-1, 0}, {0, 1}, {2, 3}, {1, 77}}) add("f0.seek(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")", [=](FH& h) { h.do_seek(0, p.first, p.second); });
      for (long n : {0, 4, 30, -1}) add("f0.truncate(" + std::to_string(n) + ")", [=](FH& h) { h.do_trunc(0, n); }); add("f0.size", [](FH& h) { h.do_size(0); });
      add("f0.close", [](FH& h) { bool was = h.f[0]->is_open(); BLResult r = h.f[0]->close(); h.note("close " + std::to_string(r)); h.closed(r); if (h.f[0]->is_open() || (h.last(CLOSE) != nullptr) != was) h.err("close", "not closed once"); }); add("f0.reset", [](FH& h) { bool was = h.f[0]->is_open(); BLResult r = bl_file_reset(h.f[0]); h.closed(r); if (h.f[0]->is_open() || (h.last(CLOSE) != nullptr) != was) h.err("close", "not closed once"); });
      add("f1=move(f0)", [](FH& h) { intptr_t x = h.f[0]->handle; bool was = h.f[1]->is_open(); *h.f[1] = std::move(*h.f[0]); if (h.f[1]->handle != x || h.f[0]->is_open() || (h.last(CLOSE) != nullptr) != was) h.err("move", "wrong handles"); }); add("f0=move(f0)", [](FH& h) { intptr_t x = h.f[0]->handle; BLFile& r = *h.f[0]; *h.f[0] = std::move(r); if (h.f[0]->handle != x || !os.log.empty()) h.err("move", "to itself"); }); add("swap", [](FH& h) { h.f[0]->swap(*h.f[1]); }); add("f1=BLFile(move(f0))", [](FH& h) { intptr_t x = h.f[0]->handle; BLFile t(std::move(*h.f[0])); *h.f[1] = std::move(t); if (h.f[1]->handle != x || h.f[0]->is_open()) h.err("move", "wrong handles"); });
    }
    if (set == 1 || set == 2) {
      for (const char* n : {"a", "big", "empty", "none", "dir"}) for (uint32_t fl : {0u, 1u, 3u, 9u}) for (size_t mx : {size_t(0), size_t(1), size_t(5), size_t(17000), size_t(30000)}) { if (strcmp(n, "a") && strcmp(n, "big") && mx > 1) continue; std::string nm = n; add("read_file(" + nm + "," + std::to_string(fl) + "," + std::to_string(mx) + ")", [=](FH& h) { h.do_readfile(nm.c_str(), fl, mx); }); }
      for (const char* n : {"a", "new", "nodir/x", "dir"}) for (size_t z : {0, 1, 50}) { std::string nm = n; add("write_file(" + nm + "," + std::to_string(z) + ")", [=](FH& h) { h.do_writefile(nm.c_str(), z, 5); }); }
      add("array.append", [](FH& h) { if (h.arr->append(uint8_t(9)) != BL_SUCCESS) h.err("array", "append"); h.am.push_back(9); }); add("array.truncate", [](FH& h) { if (h.arr->truncate(3) != BL_SUCCESS) h.err("array", "truncate"); if (h.am.size() > 3) h.am.resize(3); }); add("array.copy", [](FH& h) { BLArray<uint8_t> c(*h.arr); uint8_t* d = nullptr; if (c.make_mutable(&d) != BL_SUCCESS) h.err("array", "make_mutable"); if (d && c.size()) d[0] = 1; });
      add("file_info", [](FH& h) { for (const char* n : {"a", "dir", "none"}) { os.log.clear(); BLFileInfo x; memset(&x, 1, sizeof x); BLResult r = BLFileSystem::file_info((std::string("/vfs/") + n).c_str(), &x); h.note("info " + std::to_string(r)); auto it = os.files.find(n); h.check_info(r, x, it == os.files.end() ? nullptr : it->second.get()); } });
      add("write image", [](FH& h) { h.do_writefile("img.bmp", 0, 0, true); }); add("read image", [](FH& h) { BLImage im; BLResult r = im.read_from_file("/vfs/img.bmp"); h.note("image " + std::to_string(r)); const Rec* x = nullptr; for (auto& q : os.log) if (q.err && q.call != CLOSE) x = &q; if (x) h.is_err(r, x->err, false); });
      for (uint32_t fl : {0u, 1u}) add("font(" + std::to_string(fl) + ")", [=](FH& h) { BLResult r = h.ft->create_from_file("/vfs/font.ttf", BLFileReadFlags(fl)); h.note("font " + std::to_string(r)); bool e = false, st = false; for (auto& q : os.log) { if (q.err && q.call != CLOSE && q.call != MMAP) e = true; if (q.call == STAT && !os.real && q.ret != (long)gTtf->size()) st = true; } if (!e && !st && r != BL_SUCCESS) h.err("result", "font not loaded"); if (e && r == BL_SUCCESS) h.err("result", "font loaded although the system failed"); if (r == BL_SUCCESS && !st) { BLFontFace fc; if (fc.create_from_data(*h.ft, 0) != BL_SUCCESS) h.err("data", "face of the font read"); } });
    }
    for (auto& x : b) {
      ops.push_back({x.first, x.second, Plan(), 0}); if (!md) continue; if (x.first.find("(invalid") != std::string::npos) continue;
      for (int a : {1, 2, 3}) { Plan p; p.all = a; ops.push_back({x.first + " every answer " + std::to_string(a), x.second, p, 1}); }
      for (int i = 0; i < 5; i++) for (int a = 1; a < 7; a++) { Plan p; p.at[0] = i; p.alt[0] = a; ops.push_back({x.first + " answer " + std::to_string(i) + ":" + std::to_string(a), x.second, p, 1}); if (set == 2) for (int i2 = i + 1; i2 < 6; i2++) for (int a2 = 1; a2 < 7; a2++) { Plan q = p; q.at[1] = i2; q.alt[1] = a2; ops.push_back({x.first + " answers " + std::to_string(i) + ":" + std::to_string(a) + " " + std::to_string(i2) + ":" + std::to_string(a2), x.second, q, 2}); } }
    }
  }
  int num_ops() { return (int)ops.size(); } std::string op_name(int i) { return ops[i].name; }
  void reset() {
    base = __sanitizer_get_current_allocated_bytes(); bad = chk = false; devs = 0; trace.clear(); os.bad.clear(); os.log.clear(); os.fds.clear(); os.maps.clear(); os.files.clear(); os.on = true;
    auto mk = [](const char* n, std::vector<uint8_t> d, bool dir = false) { auto p = std::make_shared<VFile>(); p->d = d; p->dir = dir; os.files[n] = p; };
    mk("a", bytes(20, 1)); mk("empty", {}); mk("dir", bytes(64, 9), true); if (ops.size() && label != "file") { static const std::vector<uint8_t> big = bytes(20000, 2); mk("big", big); mk("font.ttf", *gTtf); static const std::vector<uint8_t> bmp = [] { BLArray<uint8_t> o; BLImageCodec c; (void)c.find_by_name("BMP"); (void)gImg->write_to_data(o, c); return std::vector<uint8_t>(o.begin(), o.end()); }(); mk("img.bmp", bmp); }
    if (os.real) { os.on = false; os.root = kRealRoot; for (const char* n : {"new", "img.bmp"}) unlink((os.root + n).c_str()); for (auto& x : os.files) if (!x.second->dir) { FILE* o = fopen((os.root + x.first).c_str(), "wb"); if (!o) abort(); fwrite(x.second->d.data(), 1, x.second->d.size(), o); fclose(o); } os.on = true; }
    for (int i = 0; i < 2; i++) f[i] = new (fmem[i]) BLFile(); arr = new (amem) BLArray<uint8_t>(); ft = new (ftmem) BLFontData(); am.clear(); live = true;
  }
  void finish() {
    if (!live) return; live = false; os.plan = Plan(); os.ncall = 0; f[0]->~BLFile(); f[1]->~BLFile(); arr->~BLArray<uint8_t>(); ft->~BLFontData(); { std::vector<uint8_t> z_; am.swap(z_); } os.on = false;
    if (chk && !bad && !warm) { if (!os.bad.empty()) err("system-calls", os.bad); for (auto& x : os.fds) if (x.open) err("leak", "descriptor not closed"); if (!os.realfds.empty()) err("leak", "descriptor not closed"); if (!os.maps.empty()) err("leak", "file still mapped"); }
    { decltype(os.fds) z_; os.fds.swap(z_); } os.maps.clear(); os.files.clear(); { decltype(os.log) z_; os.log.swap(z_); } { std::string z_; trace.swap(z_); } { std::string z_; os.bad.swap(z_); } { decltype(os.realfds) z_; os.realfds.swap(z_); }
    if (chk && !bad && !warm) { size_t a = __sanitizer_get_current_allocated_bytes(); if (a != base && a > base) fail("leak", "%ld bytes leaked", (long)(a - base)); }
  }
  bool apply(int op, bool check) {
    Op& o = ops[op]; if (devs + o.nd > maxdevs) return false; chk = check; opn = o.name.c_str(); bad = false; { decltype(os.log) z_; os.log.swap(z_); } os.plan = o.plan; os.ncall = 0; os.used[0] = os.used[1] = false; auto keep = trace.size(); o.f(*this); os.plan = Plan();
    if (o.nd && (!os.used[0] || (o.plan.at[1] >= 0 && !os.used[1]))) { (void)keep; return false; } devs += o.nd;
    if (check && !bad) { if (!os.bad.empty()) err("system-calls", os.bad); if (arr->size() != am.size() || (am.size() && memcmp(arr->data(), am.data(), am.size()))) err("array", "content of the array read changed"); } return !bad;
  }
  uint64_t state() { Hash h; for (auto& x : os.files) { h.b(x.first.data(), x.first.size()); h.b(x.second->d.data(), x.second->d.size()); } for (int i = 0; i < 2; i++) { int k = int(f[i]->handle) - 100000; h.u(f[i]->is_open()); if (f[i]->is_open() && k >= 0 && k < (int)os.fds.size()) { h.b(os.fds[k].name.data(), os.fds[k].name.size()); h.u(os.fds[k].pos); h.u(os.fds[k].flags); } } h.b(am.data(), am.size()); h.u(os.maps.size()); h.u(devs); return h.h; }
};
// The same histories against the real system: the virtual one must have given the same answers.
static void conformance(FH& h, int depth) {
  char dir[64] = "/tmp/c16-XXXXXX"; if (!mkdtemp(dir)) { perror("mkdtemp"); exit(3); } std::string root = std::string(dir) + "/"; kRealRoot = root.c_str(); os.root = root; (void)mkdir((root + "dir").c_str(), 0755); umask(0);
  int n = h.num_ops(); std::vector<int> s(depth, 0); uint64_t k = 0, done = 0;
  static std::string t[2]; t[0].reserve(900000); t[1].reserve(900000); auto one = [&](const std::vector<int>& s) { t[0].clear(); t[1].clear(); for (int r = 0; r < 2; r++) { os.real = r; h.reset(); bool okk = true; for (int o : s) okk = h.apply(o, true) && okk; t[r] = h.trace; if (!r) { for (auto& x : os.files) if (!x.second->dir) { t[r] += x.first + ":"; t[r].append(x.second->d.begin(), x.second->d.end()); } } else { os.on = false; std::vector<std::string> ns{"a", "big", "empty", "font.ttf", "img.bmp", "new"}; for (auto& x : ns) { FILE* f = fopen((root + x).c_str(), "rb"); if (!f) continue; t[r] += x + ":"; std::vector<char> b(100000); size_t q = fread(b.data(), 1, b.size(), f); t[r].append(b.data(), q); fclose(f); } os.on = true; } h.finish(); } os.real = false; if (t[0] != t[1]) { h.chk = true; std::string nm; for (int o : s) nm += h.op_name(o) + "; "; size_t i = 0; while (i < t[0].size() && i < t[1].size() && t[0][i] == t[1][i]) i++; fail("conformance", "%s: the virtual and the real system differ at %zu: ...%.60s / ...%.60s", nm.c_str(), i, vh::clean(t[0].substr(i > 20 ? i - 20 : 0)).c_str(), vh::clean(t[1].substr(i > 20 ? i - 20 : 0)).c_str()); } done++; };
  if (g.replaying) { std::string p = "real-" + h.label + ":"; if (g.replay.compare(0, p.size(), p) == 0) { set_case_s(g.replay); auto v = split(g.replay.substr(p.size())); one(std::vector<int>(v.begin(), v.end())); } }
  else for (;;) { if (mine(k++)) { std::string c; for (int o : s) c += (c.empty() ? "" : ",") + std::to_string(o); set_case_s("real-" + h.label + ":" + c); one(s); if (over_budget()) break; } int i = depth - 1; while (i >= 0 && ++s[i] == n) s[i--] = 0; if (i < 0) break; }
  vh::stat("real_file_histories", done); for (const char* x : {"a", "big", "empty", "font.ttf", "img.bmp", "new"}) unlink((root + x).c_str()); rmdir((root + "dir").c_str()); rmdir(dir);
}
int main(int argc, char** argv) {
  init(argc, argv); BLRuntime::cleanup(BL_RUNTIME_CLEANUP_EVERYTHING);
  { FILE* f = fopen((std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf").c_str(), "rb"); if (!f) { perror("font"); return 3; } auto* v = new std::vector<uint8_t>(100000); v->resize(fread(v->data(), 1, v->size(), f)); fclose(f); gTtf = v; }
  { BLImage* im = new BLImage(9, 7, BL_FORMAT_XRGB32); BLImageData d; (void)im->make_mutable(&d); for (int y = 0; y < 7; y++) for (int x = 0; x < 9; x++) ((uint32_t*)((char*)d.pixel_data + y * d.stride))[x] = 0xFF000000u | (x * 0x1A2B3Cu + y * 0x0F0F17u) & 0xFFFFFFu; gImg = im; }
  bool th = g.thorough;
  { FH w("warm", 2, 0); w.warm = true; for (int r = 0; r < 2; r++) for (int i = 0; i < w.num_ops(); i++) { w.reset(); w.apply(i, true); (void)w.state(); w.finish(); } }
  { FH h("file", 0, 2); bfs(h, "file", th ? 5 : 4); }
  { FH h("whole", 1, 2); bfs(h, "whole", th ? 3 : 2); }
  { FH h("pairs", 2, 2); bfs(h, "pairs", 1); }
  { FH h("file-clean", 0, 0); bfs(h, "file-clean", th ? 6 : 5); }
  { FH h("real-file", 0, 0); conformance(h, th ? 3 : 2); } { FH h("real-whole", 1, 0); conformance(h, th ? 2 : 2); }
  return done();
}
