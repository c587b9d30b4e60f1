// U05: helpers that read, write, map, list and create files, against the file system as plain system calls show it.
#include "vh.h"
#include <binary_xml/utils.h>
#include <binary_xml/files.h>
#include <binary_xml/missings.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <dirent.h>
#include <utime.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <algorithm>
#include <map>
#include <set>
using namespace vh;
H h;
// faults: the n-th call of a kind (counted from 1) misbehaves
static struct { int n = 0, at = 0, kind = 0; uint64_t hits = 0; } RD, CL, MK, DR;
extern "C" {
ssize_t __real_read(int, void*, size_t); int __real_close(int); int __real_mkdir(const char*, mode_t); struct dirent* __real_readdir(DIR*); struct dirent* __real_readdir64(DIR*);
ssize_t __wrap_read(int fd, void* p, size_t n) { if (++RD.n == RD.at) { RD.hits++; if (RD.kind == 0) { errno = EIO; return -1; } if (RD.kind == 1) return 0; if (n > 1) n = n / 2; } return __real_read(fd, p, n); }
int __wrap_close(int fd) { int r = __real_close(fd); if (++CL.n == CL.at) { CL.hits++; errno = EIO; return -1; } return r; }
int __wrap_mkdir(const char* p, mode_t m) { if (++MK.n == MK.at) { MK.hits++; errno = ENOSPC; return -1; } return __real_mkdir(p, m); }
struct dirent* __wrap_readdir(DIR* d) { if (++DR.n == DR.at) { DR.hits++; errno = EIO; return nullptr; } return __real_readdir(d); }
struct dirent* __wrap_readdir64(DIR* d) { if (++DR.n == DR.at) { DR.hits++; errno = EIO; return nullptr; } return __real_readdir64(d); }
}
static void calm() { RD.at = CL.at = MK.at = DR.at = 0; RD.n = CL.n = MK.n = DR.n = 0; }
static std::string slurp(const std::string& f) { std::string s; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return s; char b[65536]; ssize_t k; while ((k = __real_read(fd, b, sizeof b)) > 0) s.append(b, k); __real_close(fd); return s; }
static void spill(const std::string& f, const std::string& s) { FILE* o = fopen(f.c_str(), "wb"); if (o) { fwrite(s.data(), 1, s.size(), o); fclose(o); } }
static int fds() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static std::string dir() { static int k = 0; std::string d = h.work + fmt("/f%d-%d", (int)getpid(), k++); __real_mkdir(d.c_str(), 0755); return d; }
static void wipe(const std::string& d) { DIR* D = opendir(d.c_str()); if (D) { std::vector<std::string> v; while (dirent* e = __real_readdir(D)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(D);
    for (auto& n : v) { std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(p); else unlink(p.c_str()); } } rmdir(d.c_str()); }
static size_t a_size(Rng& r, uint64_t i) { static const size_t e[] = {0, 1, 2, 3, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 1000003}; if (i < 12) return e[i]; return r.chance(70) ? r.below(300) : r.chance(80) ? r.below(70000) : r.below(3000000); }
static std::string rnd(Rng& r, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)r.next(); return s; }
static size_t maps_of(const std::string& f) { std::string m = slurp("/proc/self/maps"); size_t n = 0, p = 0; while ((p = m.find(f, p)) != std::string::npos) { n++; p += f.size(); } return n; }

static void u05() {
    const uint64_t N = h.thorough ? 20000 : 2500;
    h.group_run("contents", N, [](uint64_t i, Rng& r) {
        std::string d = dir(), f = d + "/" + (r.chance(20) ? "name with space" : "file.bin"), m = rnd(r, a_size(r, i)); spill(f, m); h.desc(fmt("file of %d bytes", (int)m.size())); h.distinct(m);
        int n0 = fds();
        { int size = 77; char* p = ReadFile(f.c_str(), r.chance(50), r.chance(80) ? &size : nullptr); bool with = size != 77;
          if (m.empty()) h.check((!p || *p == 0) && (!with || size == 0), "contents/ReadFile-empty", "empty file");
          else { h.check(p && (!with || size == (int)m.size()) && !memcmp(p, m.data(), m.size()) && p[m.size()] == 0, "contents/ReadFile", fmt("got %p size %d", p, size)); }
          delete[] p; }
        { int room = r.chance(40) ? (int)m.size() : (int)r.below(m.size() * 2 + 10); Buf b(room); memset(b.p, 0x5a, room); int g = file_get_contents(f.c_str(), b.p, room); int w = std::min((int)m.size(), room); bool zero = true; for (int k = w; k < room; k++) if (b.p[k]) zero = false;
          h.check(g == w && !memcmp(b.p, m.data(), w) && zero, "contents/file_get_contents", fmt("%d of %d bytes to %d", g, (int)m.size(), room)); }
        h.check(slurp(f) == m, "contents/changed", "reading changed the file"); h.check(fds() == n0, "contents/descriptors", "a descriptor stays open");
        if (i == 20) h.sample(fmt("read %d bytes", (int)m.size())); wipe(d);
    });
    h.group_run("attributes", N, [](uint64_t i, Rng& r) {
        std::string d = dir(), f = d + "/a"; int kind = r.below(9); std::string q = f; size_t n = a_size(r, i); off_t want = n; int64_t tm = r.chance(20) ? -(int64_t)r.below(1000000000) : r.chance(30) ? 4000000000ll + r.below(100000000) : (int64_t)r.below(2000000000); bool exists = true, isdir = false;
        if (kind <= 2) { int fd = open(f.c_str(), O_CREAT | O_RDWR, 0644); want = kind == 2 ? (off_t)(2147483000ll + r.below(5000000000ull)) : (off_t)n; if (ftruncate(fd, want) != 0) { __real_close(fd); wipe(d); h.check(true, "x", ""); return; } __real_close(fd); }
        else if (kind == 3) { __real_mkdir(f.c_str(), 0755); isdir = true; }
        else if (kind == 4) { spill(d + "/t", rnd(r, n)); if (symlink("t", f.c_str())) return; }
        else if (kind == 5) { if (symlink("nothing", f.c_str())) return; exists = false; }
        else if (kind == 6) exists = false;
        else if (kind == 7) { spill(f, "x"); q = f + "/below"; exists = false; }
        else { q = d + "/" + std::string(r.chance(50) ? 256 : 5000, 'n'); exists = false; }
        if (exists) { struct timespec ts[2] = {{tm, 0}, {tm, 999999999}}; utimensat(AT_FDCWD, q.c_str(), ts, 0); }
        struct stat st; bool real = stat(q.c_str(), &st) == 0; if (real != exists) { h.fail("harness-state", "unexpected state of file system"); return; }
        h.desc(fmt("kind %d size %lld time %lld", kind, (long long)want, (long long)tm)); h.distinct(fmt("%d %lld %lld", kind, (long long)want, (long long)tm)); int n0 = fds();
        h.check(file_exists(q.c_str()) == exists, "attributes/file_exists", fmt("kind %d", kind));
        h.check(file_getsize(q.c_str()) == (exists ? st.st_size : -1), "attributes/file_getsize", fmt("kind %d: %lld", kind, (long long)file_getsize(q.c_str())));
        h.check(file_gettime(q.c_str()) == (exists ? st.st_mtim.tv_sec : -1), "attributes/file_gettime", fmt("kind %d: %lld", kind, (long long)file_gettime(q.c_str())));
        h.check(FileGetSize(q.c_str()) == (exists && !isdir ? st.st_size : -1), "attributes/FileGetSize", fmt("kind %d: %lld", kind, (long long)FileGetSize(q.c_str())));
        int fd = open(q.c_str(), O_RDONLY); h.check((fd >= 0) == exists, "attributes/open", "open"); if (fd >= 0) { h.check(FileGetSizeByFd(fd) == (isdir ? -1 : st.st_size), "attributes/FileGetSizeByFd", fmt("kind %d", kind)); __real_close(fd); }
        if (!exists || isdir) { int size = 5; char* p = ReadFile(q.c_str(), true, &size); h.check(p == nullptr, "attributes/ReadFile", "content of nothing"); Buf b(8); h.check(file_get_contents(q.c_str(), b.p, 8) < 0, "attributes/file_get_contents", "content of nothing"); }
        h.check(FileGetSizeByFd(-1) == -1 && FileGetSizeByFd(777) == -1, "attributes/bad-descriptor", "size of closed descriptor");
        h.check(!file_exists(nullptr) && !file_exists("") && file_gettime(nullptr) == -1 && file_gettime("") == -1 && file_getsize("") == -1, "attributes/no-name", "no name"); h.check(fds() == n0, "attributes/descriptors", "a descriptor stays open");
        wipe(d);
    });
    h.group_run("formatted", N, [](uint64_t i, Rng& r) {
        std::string d = dir(), f = d + "/o"; if (r.chance(50)) spill(f, rnd(r, r.below(9000)));
        size_t n = r.chance(50) ? r.below(30) : a_size(r, i % 11); std::string s; for (size_t k = 0; k < n; k++) s += (char)(1 + r.below(255)); int x = (int)r.next(); long long y = (long long)r.next(); double z = (double)(int)r.next() / 64;
        std::string want = s + fmt("|%d|%lld|%%|%.6f|%c\n", x, y, z, 'q'); h.desc(fmt("%d bytes", (int)want.size())); h.distinct(want); int n0 = fds();
        h.check(WriteToFile(f.c_str(), "%s|%d|%lld|%%|%.6f|%c\n", s.c_str(), x, y, z, 'q'), "formatted/refused", "failed"); h.check(slurp(f) == want, "formatted/content", fmt("%d bytes stored of %d", (int)slurp(f).size(), (int)want.size()));
        if (r.chance(20)) { h.check(WriteToFile(f.c_str(), "%s", "") && slurp(f).empty(), "formatted/empty", "empty text"); }
        h.check(!WriteToFile((d + "/none/o").c_str(), "x") && !WriteToFile(d.c_str(), "x"), "formatted/impossible", "success on impossible name");
        h.check(!WriteToFile("/dev/full", "%s", want.c_str()), "formatted/full", "success on full device");
        h.check(fds() == n0, "formatted/descriptors", "a descriptor stays open"); wipe(d);
    });
    h.group_run("file-size-limit", h.thorough ? 400 : 80, [](uint64_t i, Rng& r) {
        std::string d = dir(), f = d + "/o"; size_t n = 1 + r.below(60000), lim = r.below(60000); signal(SIGXFSZ, SIG_IGN); struct rlimit L; getrlimit(RLIMIT_FSIZE, &L); rlim_t old = L.rlim_cur; std::string s(n, 'k'); int n0 = fds();
        L.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &L); bool ok = WriteToFile(f.c_str(), "%s", s.c_str()); L.rlim_cur = old; setrlimit(RLIMIT_FSIZE, &L);
        h.desc(fmt("%d bytes, limit %d", (int)n, (int)lim)); h.distinct(fmt("%d %d", (int)n, (int)lim)); h.check(ok == (n <= lim), "limit/status", ok ? "success although the file was cut" : "refused although it fits"); if (ok) h.check(slurp(f) == s, "limit/content", "wrong content");
        h.check(fds() == n0, "limit/descriptors", "a descriptor stays open"); wipe(d);
    });
    h.group_run("failing-calls", N / 2, [](uint64_t i, Rng& r) {
        std::string d = dir(), f = d + "/i", m = rnd(r, 1 + a_size(r, i % 400)); spill(f, m); int what = i % 4; RD.kind = what; calm(); if (what == 3) CL.at = 1; else RD.at = 1; h.desc(fmt("fault %d on %d bytes", what, (int)m.size())); h.distinct(fmt("%d ", what) + m); int n0 = fds();
        int size = 0; char* p = ReadFile(f.c_str(), true, &size); calm(); h.check(!p || (size == (int)m.size() && !memcmp(p, m.data(), m.size()) && p[m.size()] == 0), "faults/ReadFile", fmt("fault %d: incomplete content returned", what)); h.check(what != 0 || !p, "faults/ReadFile-error", "success"); delete[] p;
        int room = (int)m.size() + r.below(5); Buf b(room); if (what == 3) CL.at = 1; else RD.at = 1; int g = file_get_contents(f.c_str(), b.p, room); calm();
        h.check(g <= (int)m.size() && (what != 0 || g < 0) && (g < 0 || !memcmp(b.p, m.data(), g)), "faults/file_get_contents", fmt("fault %d: %d", what, g)); bool zero = true; for (int k = std::max(g, 0); k < room; k++) if (b.p[k]) zero = false; h.check(zero || g < 0, "faults/file_get_contents-rest", fmt("fault %d: bytes after %d", what, g));
        unsigned char o[20]; if (what != 2) { if (what == 3) CL.at = 1; else RD.at = 1; bool k = file_getsha1(f.c_str(), o); calm(); if (what == 0) h.check(!k, "faults/file_getsha1", "hash of unreadable file"); }
        h.check(fds() == n0, "faults/descriptors", fmt("fault %d: a descriptor stays open", what)); wipe(d);
    });
    h.group_run("shared", N / 2, [](uint64_t i, Rng& r) {
        std::string d = dir(), f = d + "/s"; int pool = 4096 * (1 + r.below(20)); std::string m = rnd(r, pool); bool there = r.chance(60); if (there) spill(f, m); int n0 = fds(); h.desc(fmt("mapping of %d, %s", pool, there ? "existing" : "new")); h.distinct(m);
        if (!there) { int fd = -1; h.check(ShareFileRO(f.c_str(), &fd, pool) == nullptr && ShareFileRW(f.c_str(), true, &fd, pool) == nullptr && access(f.c_str(), F_OK) != 0, "shared/missing", "missing file was mapped or made"); h.check(fds() == n0, "shared/missing-descriptors", "a descriptor stays open"); }
        int fd = -1; char* p = ShareFileRW(f.c_str(), there && r.chance(50), &fd, pool); h.check(p && fd >= 0, "shared/rw", "cannot be mapped"); if (!p) return;
        if (!there) { h.check(slurp(f).empty(), "shared/new", "new file is not empty"); if (ftruncate(fd, pool)) return; m.assign(pool, 0); }
        h.check(!memcmp(p, m.data(), pool), "shared/content", "mapping differs from file");
        int fd2 = -1; bool keep = r.chance(70); char* q = ShareFileRO(f.c_str(), keep ? &fd2 : nullptr, pool); h.check(q && (!keep || fd2 >= 0), "shared/ro", "cannot be mapped"); if (!q) return;
        for (int k = r.below(60); k >= 0; k--) { size_t o = r.below(pool), n = std::min<size_t>(1 + r.below(300), pool - o); std::string s = rnd(r, n); memcpy(p + o, s.data(), n); m.replace(o, n, s); }
        h.check(!memcmp(q, m.data(), pool), "shared/seen", "other mapping does not see the writes"); h.check(slurp(f) == m, "shared/file", "file does not have the writes"); h.check(maps_of(f) == 2, "shared/maps", fmt("%d mappings", (int)maps_of(f)));
        CloseSharedFile(q, pool, fd2, "test"); h.check(maps_of(f) == 1, "shared/unmapped", "still mapped"); CloseSharedFile(p, pool, fd, "test"); h.check(maps_of(f) == 0 && fds() == n0, "shared/closed", fmt("%d mappings, %d descriptors of %d", (int)maps_of(f), fds(), n0)); h.check(slurp(f) == m, "shared/after", "file changed by closing");
        wipe(d);
    });
    h.group_run("directories", N, [](uint64_t i, Rng& r) {
        std::string d = dir(); static const char* C[] = {"a", "b", "c.d", "e f", "\xc3\xa9", ".h", "x"}; std::vector<std::string> comps; std::string p = d + "/"; std::vector<std::string> pre; bool blocked = false, tail = r.chance(70); int depth = 1 + r.below(r.chance(5) ? 60 : 6), fault = r.chance(10) ? 1 + r.below(depth + 3) : 0;
        int have = r.below(depth + 1), filep = r.chance(15) ? (int)r.below(depth) : -1; bool toolong = r.chance(3); mode_t mode = r.chance(60) ? 0755 : r.chance(50) ? 0700 : 0777; mode_t um = umask(r.chance(50) ? 022 : 0); umask(um == 022 ? 0 : 022); um = umask(0); umask(um);
        std::string cur = d; for (int k = 0; k < depth; k++) { std::string c = toolong && k == depth - 1 ? std::string(300, 'n') : C[r.below(7)]; bool last = k == depth - 1 && !tail; cur += "/" + c; p += c; if (k < depth - 1 || tail) p += r.chance(10) ? "//" : "/"; if (k < have && !last && !blocked && c.size() < 256) { if (k == filep) { spill(cur, "in the way"); blocked = true; } else __real_mkdir(cur.c_str(), 0711); } if (!last) comps.push_back(cur); }
        std::map<std::string, mode_t> before; for (auto& c : comps) { struct stat st; if (stat(c.c_str(), &st) == 0) before[c] = st.st_mode; }
        h.desc(p.substr(d.size())); h.distinct(p.substr(d.size()) + fmt("%d %d", have, filep)); int n0 = fds(); bool possible = true; for (auto& c : comps) { auto it = before.find(c); if (it != before.end() && !S_ISDIR(it->second)) possible = false; size_t b = c.rfind('/'); if (c.size() - b - 1 > 255) possible = false; }
        calm(); MK.at = fault; uint64_t hit0 = MK.hits; bool g = force_directory(p.c_str(), mode); bool hit = MK.hits != hit0; calm();
        if (!hit) h.check(g == possible, possible ? "directories/refused" : "directories/accepted", p.substr(d.size()) + (possible ? ": failed" : ": success although a part is not a directory"));
        if (g) for (auto& c : comps) { struct stat st; h.check(stat(c.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "directories/missing", c.substr(d.size()) + " is not a directory after success"); }
        for (auto& c : comps) { struct stat st; auto it = before.find(c); if (stat(c.c_str(), &st) != 0) continue; h.check(st.st_mode == (it != before.end() ? it->second : (S_IFDIR | (mode & ~um))), "directories/mode", fmt("mode %o", st.st_mode)); }
        if (!tail) { struct stat st; h.check(stat(cur.c_str(), &st) != 0, "directories/last", "the last part without slash was made"); }
        h.check(fds() == n0, "directories/descriptors", "a descriptor stays open"); if (i == 5) h.sample(p.substr(d.size()) + (g ? " made" : " refused")); umask(022); wipe(d);
    });
    h.group_run("listing", N / 2, [](uint64_t i, Rng& r) {
        std::string d = dir(); std::map<std::string, int> want; int n = r.chance(10) ? 300 + r.below(400) : r.below(20);
        for (int k = 0; k < n; k++) { std::string s; int t = r.below(8); if (t == 0) s = ".hidden" + fmt("%d", k); else if (t == 1) s = std::string(2 + r.below(3), '.') + fmt("%d", (int)r.below(2000)); else if (t == 2) s = "..."; else if (t == 3) s = std::string(250, 'l') + fmt("%d", k); else if (t == 4) s = "\xff\xfe" + fmt("%d", k); else s = fmt("f%d.xb", k); if (want.count(s)) continue;
            std::string p = d + "/" + s; int y = r.below(4); if (y == 0) { __real_mkdir(p.c_str(), 0755); want[s] = DT_DIR; } else if (y == 1) { if (symlink("x", p.c_str())) continue; want[s] = DT_LNK; } else if (y == 2) { if (mkfifo(p.c_str(), 0600)) continue; want[s] = DT_FIFO; } else { spill(p, "z"); want[s] = DT_REG; } }
        struct C { std::vector<std::pair<std::string, int>> got; std::string base; int stop; bool seterr; bool same = true; } c; c.base = d; c.stop = r.chance(40) ? (int)r.below(n + 2) : -1; c.seterr = r.chance(50); h.desc(fmt("%d entries, stop at %d, errno %d", (int)want.size(), c.stop, c.seterr)); std::string key; for (auto& w : want) key += w.first + "/"; h.distinct(key); int n0 = fds();
        auto cb = [](const char* dir, const char* name, void* u, uint8_t t) { C& c = *(C*)u; if (c.base != dir) c.same = false; c.got.push_back({name, t}); if (c.seterr) errno = ENOENT; return (int)c.got.size() != c.stop; };
        bool g = scan_dir(d.c_str(), &c, cb); bool stopped = c.stop > 0 && c.stop <= (int)want.size();
        h.check(g, "listing/refused", stopped ? "stopping by the callback is reported as failure" : "failed"); h.check(c.same, "listing/base", "directory name differs"); h.check((int)c.got.size() == (stopped ? c.stop : (int)want.size()), "listing/count", fmt("%d calls of %d", (int)c.got.size(), (int)want.size()));
        std::set<std::string> seen; for (auto& e : c.got) { auto it = want.find(e.first); h.check(seen.insert(e.first).second && it != want.end() && it->second == e.second, "listing/entry", e.first + fmt(" type %d", e.second)); }
        h.check(!scan_dir((d + "/none").c_str(), &c, cb), "listing/missing", "success on missing directory"); spill(d + "/plain", "x"); h.check(!scan_dir((d + "/plain").c_str(), &c, cb), "listing/file", "success on file");
        h.check(fds() == n0, "listing/descriptors", "a descriptor stays open");
        C e; e.base = d; e.stop = -1; e.seterr = false; calm(); DR.at = 1 + r.below(want.size() + 3); int at = DR.at; uint64_t h0 = DR.hits; g = scan_dir(d.c_str(), &e, cb); bool hit = DR.hits != h0; calm(); h.check(!hit || !g, "listing/error", fmt("success although reading of entry %d failed", at)); h.check(fds() == n0, "listing/error-descriptors", "a descriptor stays open after failure");
        wipe(d);
    });
    h.group_run("clock-and-ids", h.thorough ? 40 : 8, [](uint64_t i, Rng& r) {
        std::vector<uint64_t> v; int n = 200000; int64_t last = 0; for (int k = 0; k < n; k++) { v.push_back(i & 1 ? genU64() : (uint64_t)genI64());
            if (k % 100 == 0) { int64_t t = 0; bool ok = false; for (int q = 0; q < 5 && !ok; q++) { struct timespec a, b; clock_gettime(CLOCK_REALTIME, &a); t = GetCurrentTime64(); clock_gettime(CLOCK_REALTIME, &b); ok = t >= a.tv_sec * 1000ll + a.tv_nsec / 1000000 && t <= b.tv_sec * 1000ll + b.tv_nsec / 1000000; } h.check(ok, "clock", fmt("%lld is not between", (long long)t)); last = t; } }
        h.desc(fmt("%d identifiers", n)); h.distinct(fmt("%llu", (unsigned long long)i)); std::sort(v.begin(), v.end()); h.check(std::adjacent_find(v.begin(), v.end()) == v.end(), "ids/repeated", "the same identifier twice"); h.eval(n);
        uint64_t M = i & 1 ? 0x7fffffff7fffffffull : 0x3fffffffffffffffull, o = 0, a = ~0ull; for (auto x : v) o |= x, a &= x; h.check((o & M) == M && (a & M) == 0, "ids/constant-bits", fmt("or %llx and %llx", (unsigned long long)o, (unsigned long long)a)); (void)last;
    });
}
int main(int argc, char** argv) { h.init(argc, argv); umask(022); u05(); h.finish(); return 0; }
