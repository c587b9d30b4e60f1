// Harness core: runs cases in forked children so that an abort, sanitizer report or hang is attributed
// to the case that caused it; records verdicts, counters and samples as NDJSON for lib/runner.py.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return below(100) < (uint64_t)pct; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

static inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    return h;
}

static inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
static inline std::string hexs(const void* p, size_t n, size_t max = 64) {
    std::string o; const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n && i < max; i++) { char b[4]; snprintf(b, sizeof b, "%02x", c[i]); o += b; }
    if (n > max) o += "...";
    return o;
}
__attribute__((format(printf, 1, 2))) static inline std::string fmt(const char* f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

static const size_t KEYCAP = 1u << 19;     // distinct keys remembered per shard (a cap only ever undercounts)
struct Shared {
    uint64_t cur;                  // index of case being run
    uint64_t evals;                // oracle evaluations in the current group
    uint64_t nkeys;
    uint64_t fails;
    uint64_t samples;
    char desc[8192];
    uint64_t keys[KEYCAP];
};

struct H {
    uint64_t seed = 1; bool thorough = false; int shard = 0, nshards = 1; std::string only; std::string work;
    int64_t only_case = -1;
    int out = 1;
    Shared* sh = nullptr;
    std::string group;
    int errfd = -1; std::string errpath;

    void emit(const std::string& line) { std::string l = line + "\n"; ssize_t r = write(out, l.data(), l.size()); (void)r; }
    // what the current case is, remembered outside the process for crash attribution
    void desc(const std::string& d) { size_t n = d.size() < sizeof(sh->desc) - 1 ? d.size() : sizeof(sh->desc) - 1; memcpy(sh->desc, d.data(), n); sh->desc[n] = 0; }
    void eval(uint64_t n = 1) { sh->evals += n; }
    // a distinct non-trivial case, by content
    bool distinct(const std::string& k) {
        uint64_t h = hash_bytes(k.data(), k.size(), hash_bytes(group.data(), group.size())); if (!h) h = 1;
        size_t i = h & (KEYCAP - 1);
        for (int t = 0; t < 64; t++, i = (i + 1) & (KEYCAP - 1)) {
            if (sh->keys[i] == h) return false;
            if (sh->keys[i] == 0) { sh->keys[i] = h; sh->nkeys++; return true; }
        }
        return false;
    }
    void sample(const std::string& s) { if (sh->samples < 3) { sh->samples++; emit("{\"t\":\"sample\",\"group\":\"" + jesc(group) + "\",\"text\":\"" + jesc(s.substr(0, 400)) + "\"}"); } }
    // key: stable identification of the kind of failure;  msg: what was observed;
    void fail(const std::string& key, const std::string& msg) {
        sh->fails++;
        if (sh->fails > 40) return;
        emit("{\"t\":\"fail\",\"group\":\"" + jesc(group) + "\",\"case\":" + std::to_string(sh->cur) + ",\"key\":\"" + jesc(key) + "\",\"msg\":\"" + jesc(msg.substr(0, 3000)) + "\",\"desc\":\"" + jesc(std::string(sh->desc).substr(0, 3000)) + "\"}");
    }
    bool check(bool ok, const std::string& key, const std::string& msg) { sh->evals++; if (!ok) fail(key, msg); return ok; }

    void group_run(const std::string& name, uint64_t n, std::function<void(uint64_t, Rng&)> fn, unsigned per_case_s = 20, bool stop_after_fail = false) {
        if (!only.empty() && name != only) return;
        group = name;
        sh->cur = 0; sh->evals = 0; sh->fails = 0; sh->samples = 0; uint64_t k0 = sh->nkeys;
        uint64_t next = shard; int crashes = 0; uint64_t step = nshards;
        if (only_case >= 0) { next = only_case; n = only_case + 1; step = 1u << 30; }
        else if (nshards > 1 && n <= 1 && shard != 0) next = n;
        uint64_t cases = 0;
        for (uint64_t i = next; i < n; i += step) cases++;
        while (next < n) {
            int ef = open(errpath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            pid_t pid = fork();
            if (pid == 0) {
                int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(ef, 2);
                uint64_t done = 0;
                for (uint64_t i = next; i < n; i += step) {
                    sh->cur = i; sh->desc[0] = 0;
                    if ((done++ & 1023) == 0 && ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET);
                    alarm(per_case_s);
                    Rng r(hash_bytes(name.data(), name.size()) ^ (seed * 1000003ull) ^ (i * 0x9E3779B97F4A7C15ull));
                    fn(i, r);
                }
                alarm(0);
                _exit(0);
            }
            close(ef);
            int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
            std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("hang") : fmt("signal-%d", WTERMSIG(st))) : fmt("exit-%d", WEXITSTATUS(st));
            std::string err; { FILE* f = fopen(errpath.c_str(), "r"); if (f) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0 && err.size() < 200000) err.append(b, k); fclose(f); } }
            std::string head;
            size_t p = err.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = err.find(": ThreadSanitizer"); if (p == std::string::npos) p = err.find("runtime error:"); if (p == std::string::npos) p = err.find("Assertion");
            if (p != std::string::npos) { size_t b = err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; head = err.substr(b, 1800); } else head = err.size() > 1500 ? err.substr(err.size() - 1500) : err;
            sh->fails++;
            emit("{\"t\":\"crash\",\"group\":\"" + jesc(group) + "\",\"case\":" + std::to_string(sh->cur) + ",\"key\":\"" + jesc(why) + "\",\"msg\":\"" + jesc(head) + "\",\"desc\":\"" + jesc(std::string(sh->desc).substr(0, 3000)) + "\"}");
            next = sh->cur + step;
            if (++crashes >= 6) { emit("{\"t\":\"giveup\",\"group\":\"" + jesc(group) + "\"}"); break; }
        }
        emit("{\"t\":\"group\",\"group\":\"" + jesc(group) + "\",\"cases\":" + std::to_string(cases) + ",\"evals\":" + std::to_string(sh->evals) + ",\"distinct\":" + std::to_string(sh->nkeys - k0) + ",\"fails\":" + std::to_string(sh->fails) + "}");
    }
    void init(int argc, char** argv) {
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&](const char* k) -> const char* { size_t l = strlen(k); return a.compare(0, l, k) == 0 ? argv[i] + l : nullptr; };
            const char* v;
            if ((v = val("--seed="))) seed = strtoull(v, 0, 10);
            else if ((v = val("--tier="))) thorough = !strcmp(v, "thorough");
            else if ((v = val("--shard="))) sscanf(v, "%d/%d", &shard, &nshards);
            else if ((v = val("--group="))) only = v;
            else if ((v = val("--case="))) only_case = atoll(v);
            else if ((v = val("--work="))) work = v;
            else if ((v = val("--out="))) out = open(v, O_WRONLY | O_CREAT | O_APPEND, 0600);
        }
        if (out == 1) out = dup(1);
        if (work.empty()) work = "/tmp";
        errpath = work + fmt("/err-%d", shard);
        sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) { perror("mmap"); exit(3); }
        signal(SIGPIPE, SIG_IGN);
    }
    void finish() { emit("{\"t\":\"done\"}"); }
};

// exact-size heap buffer: any access outside is an ASan report
struct Buf { char* p; size_t n; explicit Buf(size_t n_) : p((char*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, 0xA5, n ? n : 1);
    } ~Buf() { free(p); } Buf(const Buf&) = delete; };
// exact-size copy of a C string
struct CStr { char* p; explicit CStr(const std::string& s) : p((char*)malloc(s.size() + 1)) { memcpy(p, s.data(), s.size()); p[s.size()] = 0; } ~CStr() { free(p); } CStr(const CStr&) = delete; };

} // namespace vh
