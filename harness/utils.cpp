// U01-U04: encodings, hashing and sorting, scanners, file names.
#include "vh.h"
#include "ref.h"
#include <limits.h>
#include <algorithm>
#include <numeric>
#include <thread>
#include <fcntl.h>
#include <iostream>
#include <binary_xml/utils.h>
#include <binary_xml/missings.h>
#include <binary_xml/macros.h>
#include <binary_xml/files.h>
#include <filesystem>
#include <set>
#include "tree.h"
using namespace vh;
static H h;

static std::string bytes(Rng& r, size_t n) {
    std::string s(n, 0); int m = r.below(6);
    for (auto& c : s) switch (m) { case 0: c = 0; break; case 1: c = (char)0xff; break; case 2: c = "\x00\x01\x7f\x80\xfe\xff"[r.below(6)]; break; case 3: c = 'a' + r.below(26); break; default: c = (char)r.next(); }
    return s;
}
static size_t small_len(Rng& r) { static const int e[] = {0,1,2,3,4,5,6,7,8,9,15,16,17,20,31,32,33,47,48,49,63,64,65,255,256,257}; return r.chance(60) ? e[r.below(sizeof e / sizeof *e)] : r.below(900); }
static int b64v(unsigned char c) { const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; const char* p = c ? strchr(T, c) : nullptr; return p ? int(p - T) : -1; }

// ---------------------------------------------------------------------------------------------------
static void u01() {
    const uint64_t N = h.thorough ? 200000 : 40000;
    h.group_run("base64-roundtrip", N, [](uint64_t i, Rng& r) {
        std::string src = bytes(r, i < 300 ? i : small_len(r)), want = ref::b64(src);
        h.desc("src " + hexs(src.data(), src.size())); h.distinct(src);
        Buf in(src.size()); memcpy(in.p, src.data(), src.size());
        int room = want.size() + 1 + (r.chance(50) ? r.below(9) : 0);
        Buf out(room);
        char* ret = base64_encode((unsigned char*)in.p, src.size(), out.p, room);
        h.check(ret == out.p, "b64/return", "encode does not return its buffer");
        size_t l = strnlen(out.p, room);
        h.check(l == want.size() && !memcmp(out.p, want.data(), l), "b64/encode", "got " + std::string(out.p, l).substr(0, 200) + " want " + want.substr(0, 200));
        h.check(!memcmp(in.p, src.data(), src.size()), "b64/src-changed", "encode changed its input");
        // decode the published encoding: exact room, more room, and cut room
        Buf enc(want.size()); memcpy(enc.p, want.data(), want.size());
        for (int k = 0; k < 3; k++) {
            int dr = k == 0 ? (int)src.size() : k == 1 ? (int)src.size() + r.below(9) : (int)r.below(src.size() + 1);
            Buf d(dr);
            int n = base64_decode((unsigned char*)enc.p, want.size(), d.p, dr);
            int wn = std::min<int>(dr, src.size());
            h.check(n == wn && (n <= 0 || !memcmp(d.p, src.data(), n)), "b64/decode", fmt("room %d: got %d bytes %s want %d bytes %s", dr, n, hexs(d.p, std::max(0, std::min(n, dr))).c_str(), wn, hexs(src.data(), wn).c_str()));
        }
        // without padding
        size_t np = want.find('='); if (np == std::string::npos) np = want.size();
        Buf d2(src.size()); int n2 = base64_decode((unsigned char*)enc.p, np, d2.p, src.size());
        h.check(n2 == (int)src.size() && !memcmp(d2.p, src.data(), n2), "b64/decode-unpadded", fmt("got %d want %d", n2, (int)src.size()));
        if (i == 17) h.sample("encode " + hexs(src.data(), src.size()) + " -> " + want);
    });
    h.group_run("base64-small-buffer", N / 2, [](uint64_t i, Rng& r) {
        std::string src = bytes(r, small_len(r) % 100), want = ref::b64(src);
        int room = r.below(want.size() + 2);
        h.desc(fmt("src %s room %d", hexs(src.data(), src.size()).c_str(), room)); h.distinct(src + fmt("/%d", room));
        Buf in(src.size()); memcpy(in.p, src.data(), src.size());
        Buf out(room ? room : 1); if (room == 0) out.p[0] = 'Z';
        base64_encode((unsigned char*)in.p, src.size(), out.p, room);
        // what is there is a prefix of the encoding
        size_t l = strnlen(out.p, room); h.check(l <= want.size() && !memcmp(out.p, want.data(), room == 0 ? 0 : std::min(l, (size_t)room)) , "b64/encode-prefix", "cut encoding is not a prefix: " + std::string(out.p, l) + " of " + want);
        if (room == 0) h.check(out.p[0] == 'Z', "b64/zero-room", "wrote into an empty buffer");
    });
    h.group_run("base64-malformed", N, [](uint64_t i, Rng& r) {
        std::string enc = ref::b64(bytes(r, small_len(r) % 60));
        for (int k = r.below(4); k > 0 && enc.size(); k--) switch (r.below(4)) {
            case 0: enc[r.below(enc.size())] = (char)r.next(); break;
            case 1: enc.erase(r.below(enc.size()), 1); break;
            case 2: enc.insert(r.below(enc.size() + 1), 1, "=-_ \n\0+/"[r.below(8)]); break;
            default: enc.resize(r.below(enc.size() + 1));
        }
        size_t k = 0; while (k < enc.size() && b64v(enc[k]) >= 0) k++;
        size_t bytes_ = 6 * k / 8;
        std::string want; { uint32_t acc = 0; int bits = 0; for (size_t j = 0; j < k; j++) { acc = (acc << 6) | b64v(enc[j]); bits += 6; if (bits >= 8) { bits -= 8; want += (char)(acc >> bits); } } }
        int dr = r.chance(50) ? want.size() : r.below(want.size() + 6);
        h.desc("text " + enc + fmt(" room %d", dr)); h.distinct(enc);
        Buf e(enc.size()); memcpy(e.p, enc.data(), enc.size());
        Buf d(dr);
        int n = base64_decode((unsigned char*)e.p, enc.size(), d.p, dr);
        int wn = std::min<int>(dr, bytes_);
        h.check(n == wn && !memcmp(d.p, want.data(), std::max(0, std::min(n, wn))), "b64/malformed", fmt("got %d bytes, the valid prefix of %d characters holds %d (room %d)", n, (int)k, (int)bytes_, dr));
    });
    h.group_run("hex", N, [](uint64_t i, Rng& r) {
        std::string src = bytes(r, i < 300 ? i : small_len(r)); h.desc("src " + hexs(src.data(), src.size())); h.distinct(src);
        Buf in(src.size()); memcpy(in.p, src.data(), src.size());
        std::string hx = ref::hex(src), want3;
        for (unsigned char c : src) want3 += fmt("%02X ", c);
        { Buf o(hx.size() + 1); const char* ret = Hex2Str(in.p, src.size(), o.p); h.check(ret == o.p && std::string(o.p) == hx, "hex/Hex2Str", o.p); }
        { Buf o(want3.size() + 1); const char* ret = Hex3Str(in.p, src.size(), o.p); h.check(ret == o.p && std::string(o.p) == want3, "hex/Hex3Str", o.p); }
        // back: plain, upper case, divided by spaces, dashes or lines
        std::string txt; int style = r.below(5);
        for (size_t j = 0; j < src.size(); j++) {
            if (j && ((style == 1) || (style == 2 && r.chance(30)))) txt += ' ';
            if (j && style == 3 && r.chance(30)) txt += '-';
            if (j && style == 4 && j % 16 == 0) txt += '\n';
            unsigned char c = src[j]; txt += fmt(style == 1 || r.chance(20) ? "%02X" : "%02x", c);
        }
        std::string tail = r.chance(30) ? std::string("g0") : std::string();
        CStr c(txt + tail); const char* p = c.p;
        int dr = r.chance(50) ? (int)src.size() : (int)r.below(src.size() + 5);
        Buf d(dr); int n = ScanHex(p, (uint8_t*)d.p, dr); int wn = std::min<int>(dr, src.size());
        h.check(n == wn && !memcmp(d.p, src.data(), std::max(0, std::min(n, wn))), "hex/ScanHex", fmt("style %d room %d: got %d want %d", style, dr, n, wn));
        h.check(p >= c.p && p <= c.p + txt.size(), "hex/ScanHex-position", fmt("position %d in a text of %d", (int)(p - c.p), (int)txt.size()));
        if (n == (int)src.size() && dr == n) h.check(*p == (tail.empty() ? 0 : 'g'), "hex/ScanHex-consumed", fmt("stopped at %d of %d", (int)(p - c.p), (int)txt.size()));
    });
    h.group_run("hex-malformed", N, [](uint64_t i, Rng& r) {
        std::string t; int n = r.below(24); static const char A[] = "0123456789abcdefABCDEFgGxX:/@`- \n\x7f\xe9";
        for (int k = 0; k < n; k++) t += r.chance(80) ? A[r.below(22)] : A[r.below(sizeof A - 1)];
        h.desc("text " + t); h.distinct(t);
        int dr = r.below(16); Buf d(dr); CStr c(t); const char* p = c.p;
        int got = ScanHex(p, (uint8_t*)d.p, dr);
        // reference: pairs of digits, at most one separator before each pair
        std::string want; size_t q = 0;
        while ((int)want.size() < dr) { if (q < t.size() && strchr("- \n", t[q])) q++; auto hv = [&](size_t k) { return k < t.size() && isxdigit((unsigned char)t[k]) ? (int)strtol(std::string(1, t[k]).c_str(), 0, 16) : -1; };
            int a = hv(q), b = hv(q + 1); if (a < 0 || b < 0) break; want += (char)(a * 16 + b); q += 2; }
        h.check(got == (int)want.size() && !memcmp(d.p, want.data(), std::max(0, std::min(got, (int)want.size()))), "hex/malformed", fmt("got %d want %d", got, (int)want.size()));
        h.check(p >= c.p && p <= c.p + t.size(), "hex/malformed-position", "position outside the text");
    });
    h.group_run("guid", N / 4, [](uint64_t i, Rng& r) {
        std::string src = bytes(r, 16); h.desc("guid " + hexs(src.data(), 16)); h.distinct(src);
        Buf in(16); memcpy(in.p, src.data(), 16); Buf o(37);
        const char* ret = GUID2Str(in.p, o.p);
        h.check(ret == o.p && strnlen(o.p, 37) == 36 && std::string(o.p, 36) == ref::guid(src), "guid/text", std::string(o.p, 36));
        const char* p = o.p; Buf d(16); int n = ScanHex(p, (uint8_t*)d.p, 16);
        h.check(n == 16 && !memcmp(d.p, src.data(), 16) && *p == 0, "guid/back", fmt("read %d bytes back", n));
    });
}

// ---------------------------------------------------------------------------------------------------
// reference SHA-1, bit by bit from FIPS 180
static std::string ref_sha1(const std::string& m) {
    uint32_t H5[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    std::string s = m; uint64_t bits = (uint64_t)m.size() * 8; s += (char)0x80; while (s.size() % 64 != 56) s += '\0';
    for (int i = 7; i >= 0; i--) s += (char)(bits >> (8 * i));
    auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for (size_t o = 0; o < s.size(); o += 64) {
        uint32_t w[80]; for (int t = 0; t < 16; t++) w[t] = (uint32_t)(uint8_t)s[o + 4 * t] << 24 | (uint32_t)(uint8_t)s[o + 4 * t + 1] << 16 | (uint32_t)(uint8_t)s[o + 4 * t + 2] << 8 | (uint8_t)s[o + 4 * t + 3];
        for (int t = 16; t < 80; t++) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
        uint32_t a = H5[0], b = H5[1], c = H5[2], d = H5[3], e = H5[4];
        for (int t = 0; t < 80; t++) {
            uint32_t f, k; if (t < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if (t < 40) f = b ^ c ^ d, k = 0x6ED9EBA1; else if (t < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6;
            uint32_t x = rol(a, 5) + f + e + k + w[t]; e = d; d = c; c = rol(b, 30); b = a; a = x;
        }
        H5[0] += a; H5[1] += b; H5[2] += c; H5[3] += d; H5[4] += e;
    }
    std::string o; for (uint32_t v : H5) for (int i = 3; i >= 0; i--) o += (char)(v >> (8 * i)); return o;
}
struct Cmp { int size, off, len; uint64_t calls; bool bad; const char* tag; };
static int cmp_cb(const void* a, const void* b, void* arg) {
    Cmp* c = (Cmp*)arg; c->calls++;
    int x = memcmp((const char*)a + c->off, (const char*)b + c->off, c->len);
    return x < 0 ? -1000 : x > 0 ? 7 : 0;
}
static void u02() {
    const uint64_t N = h.thorough ? 60000 : 6000;
    h.group_run("sha1", N, [](uint64_t i, Rng& r) {
        static const int e[] = {0,1,54,55,56,57,63,64,65,118,119,120,127,128,129,4095,4096,4097,8191,8192,16384,65535,65536,65537,131072};
        size_t n = i < 400 ? i : r.chance(40) ? e[r.below(sizeof e / sizeof *e)] : r.below(20000);
        std::string m = bytes(r, n), want = ref_sha1(m); h.desc(fmt("%d bytes ", (int)n) + hexs(m.data(), n, 24)); h.distinct(m);
        Buf in(n); memcpy(in.p, m.data(), n);
        { Buf o(20); unsigned char* ret = SHA1((unsigned char*)in.p, n, (unsigned char*)o.p); h.check(ret == (unsigned char*)o.p && !memcmp(o.p, want.data(), 20), "sha1/whole", hexs(o.p, 20) + " want " + hexs(want.data(), 20)); }
        { blk_SHA_CTX c; memset(&c, 0xee, sizeof c); blk_SHA1_Init(&c); size_t p = 0; std::string cuts;
          while (p < n || r.chance(20)) { size_t k = r.below(6) == 0 ? 0 : std::min<size_t>(n - p, r.chance(50) ? r.below(70) : 1 + r.below(1000)); if (n - p == 0) k = 0; blk_SHA1_Update(&c, in.p + p, k); p += k; if (cuts.size() < 200) cuts += fmt("%d,", (int)k); }
          Buf o(20); blk_SHA1_Final((unsigned char*)o.p, &c); h.check(!memcmp(o.p, want.data(), 20), "sha1/pieces", "cut as " + cuts); }
        if (i == 403) h.sample(fmt("sha1 of %d bytes = ", (int)n) + hexs(want.data(), 20));
    });
    h.group_run("sha1-long", h.thorough ? 8 : 2, [](uint64_t i, Rng& r) {   // more than 2^32 bits: the length field needs its upper half
        size_t chunk = 1 << 20; std::string one(chunk, 0); for (size_t k = 0; k < chunk; k++) one[k] = (char)(k * 2654435761u >> 13);
        static const char* known = nullptr; (void)known;
        blk_SHA_CTX c; blk_SHA1_Init(&c); int reps = i == 0 ? 530 : 64 + (int)i;   // 530 MB, 64 MB
        for (int k = 0; k < reps; k++) blk_SHA1_Update(&c, one.data(), chunk);
        // the padding is what differs: finish by hand from a context holding the same state
        blk_SHA_CTX d = c; unsigned char got[20]; blk_SHA1_Final(got, &c);
        // continue with explicit padding block, then read the chaining value out of a context
        std::string pad; pad += (char)0x80; while (pad.size() % 64 != 56) pad += '\0'; uint64_t bits = (uint64_t)reps * chunk * 8; for (int k = 7; k >= 0; k--) pad += (char)(bits >> (8 * k));
        blk_SHA1_Update(&d, pad.data(), pad.size());
        std::string want; for (unsigned v : d.H) for (int k = 3; k >= 0; k--) want += (char)(v >> (8 * k));
        h.desc(fmt("%d MB", reps)); h.distinct(fmt("%d", reps));
        h.check(!memcmp(got, want.data(), 20), "sha1/long", hexs(got, 20) + " want " + hexs(want.data(), 20));
    }, 120);
    h.group_run("sha1-file", h.thorough ? 400 : 80, [](uint64_t i, Rng& r) {
        static const int e[] = {0,1,63,64,4095,4096,4097,8191,8192,8193,12288,100000,65536};
        size_t n = i < 13 ? e[i] : r.below(30000); std::string m = bytes(r, n), want = ref_sha1(m); h.desc(fmt("file of %d bytes", (int)n)); h.distinct(m);
        std::string fn = h.work + fmt("/sha-%d", h.shard);
        { FILE* f = fopen(fn.c_str(), "w"); fwrite(m.data(), 1, n, f); fclose(f); }
        { Buf o(20); CStr c(fn); bool ok = file_getsha1(c.p, (unsigned char*)o.p); h.check(ok && !memcmp(o.p, want.data(), 20), "sha1/file", hexs(o.p, 20) + " want " + hexs(want.data(), 20)); }
        unlink(fn.c_str());
        if (i % 4 == 0) {  // a pipe delivers the same bytes in pieces
            std::string ff = fn + ".fifo"; unlink(ff.c_str()); if (mkfifo(ff.c_str(), 0600) == 0) {
                pid_t p = fork(); if (p == 0) { int fd = open(ff.c_str(), O_WRONLY); size_t q = 0; while (q < n) { size_t k = std::min<size_t>(n - q, 1 + r.below(3000)); if (write(fd, m.data() + q, k) < 0) break; q += k; usleep(500); } close(fd); _exit(0); }
                Buf o(20); bool ok = file_getsha1(ff.c_str(), (unsigned char*)o.p); int st; waitpid(p, &st, 0); unlink(ff.c_str());
                h.check(ok && !memcmp(o.p, want.data(), 20), "sha1/pipe", hexs(o.p, 20) + " want " + hexs(want.data(), 20)); } }
        unsigned char o[20]; h.check(!file_getsha1((fn + "-missing").c_str(), o), "sha1/missing", "a missing file has a hash");
    });
    auto sorting = [](bool merge) {
        return [merge](uint64_t i, Rng& r) {
            int size = r.chance(30) ? (int)sizeof(int32_t) : 1 + r.below(40), n = i < 40 ? (int)i : r.chance(80) ? r.below(60) : r.below(2000);
            Cmp c; c.size = size; c.calls = 0; c.off = r.below(size); c.len = 1 + r.below(std::min(size - c.off, 4));
            int alpha = 1 + r.below(r.chance(50) ? 4 : 200), pat = r.below(7);
            Buf b((size_t)size * n);
            std::vector<std::string> items(n);
            for (int k = 0; k < n; k++) { std::string s(size, 0); for (auto& ch : s) ch = (char)r.below(alpha); uint32_t v = k; if (pat == 1) v = n - k; if (pat == 2) v = k < n / 2 ? k : n - k; if (pat == 3) v = 5; if (pat == 4) v = k % 3;
                if (pat && pat < 5) for (int j = 0; j < c.len; j++) s[c.off + j] = (char)(v >> (8 * (c.len - 1 - j)));
                items[k] = s; memcpy(b.p + (size_t)size * k, s.data(), size); }
            h.desc(fmt("%d items of %d bytes, key %d+%d, pattern %d, alphabet %d", n, size, c.off, c.len, pat, alpha)); if (n > 1) h.distinct(std::string(b.p, (size_t)size * n));
            auto less = [&](const std::string& x, const std::string& y) { return memcmp(x.data() + c.off, y.data() + c.off, c.len) < 0; };
            if (merge) mergesort_r2(b.p, n, size, cmp_cb, &c); else qsort_r2(b.p, n, size, cmp_cb, &c);
            std::vector<std::string> got(n); for (int k = 0; k < n; k++) got[k].assign(b.p + (size_t)size * k, size);
            std::vector<std::string> want = items; std::stable_sort(want.begin(), want.end(), less);
            if (merge) h.check(got == want, "sort/merge", fmt("result of mergesort_r2 differs from a stable sort (%d items)", n));
            else {
                bool ord = true; for (int k = 1; k < n; k++) if (less(got[k], got[k - 1])) ord = false;
                h.check(ord, "sort/order", fmt("qsort_r2 left %d items unordered", n));
                auto a = got, e = items; std::sort(a.begin(), a.end()); std::sort(e.begin(), e.end()); h.check(a == e, "sort/items", "qsort_r2 lost or duplicated items");
            }
            if (n >= 2) h.check(c.calls > 0, "sort/arg", "the comparator was not called with its argument");
        };
    };
    h.group_run("mergesort", N * 2, sorting(true));
    h.group_run("qsort", N * 2, sorting(false));
    h.group_run("sort-large", h.thorough ? 16 : 6, [](uint64_t i, Rng& r) {
        int size = 4 + 4 * r.below(8), n = 400000; Buf b((size_t)size * n); Cmp c; c.size = size; c.off = 0; c.len = 4; c.calls = 0;
        for (int k = 0; k < n; k++) { uint32_t v = i % 3 == 0 ? (uint32_t)r.next() : i % 3 == 1 ? __builtin_bswap32(k) : 77; memset(b.p + (size_t)size * k, 0, size); memcpy(b.p + (size_t)size * k, &v, 4); }
        h.desc(fmt("%s of %d items of %d bytes", i % 2 ? "qsort_r2" : "mergesort_r2", n, size)); h.distinct(fmt("%d-%d", (int)i, size));
        if (i % 2) qsort_r2(b.p, n, size, cmp_cb, &c); else mergesort_r2(b.p, n, size, cmp_cb, &c);
        bool ord = true; for (int k = 1; k < n; k++) if (memcmp(b.p + (size_t)size * k, b.p + (size_t)size * (k - 1), 4) < 0) ord = false;
        h.check(ord, "sort/large", "not sorted");
    }, 60);
    // sizes at which the algorithms change what they do: whole runs, one item more or less, each item recognisable by its serial number
    std::vector<int> sizes; for (int n = 0; n <= 300; n++) sizes.push_back(n);
    for (int p2 = 512; p2 <= (h.thorough ? 1 << 18 : 1 << 15); p2 *= 2) for (int f = 2; f <= 3; f++) for (int d = -2; d <= 2; d++) sizes.push_back(p2 * f / 2 + d);
    for (int n : {1000, 5000, 10000, 50000, 100000}) sizes.push_back(n);
    h.group_run("sort-sizes", sizes.size() * 2, [&](uint64_t i, Rng& r) {
        bool merge = i % 2; int n = sizes[i / 2], size = 8 + 4 * r.below(4), pats = n <= 300 ? 6 : n <= 5000 ? 4 : 2; h.desc(fmt("%s of %d items of %d bytes", merge ? "mergesort_r2" : "qsort_r2", n, size)); h.distinct(fmt("%d/%d", n, (int)merge));
        for (int q = 0; q < pats; q++) {
            int pat = r.below(7); uint32_t mod = 1 + r.below(r.chance(50) ? 3 : n + 1);
            Buf b((size_t)size * n); Cmp c; c.size = size; c.off = 0; c.len = 4; c.calls = 0; std::vector<std::pair<uint32_t, uint32_t>> want(n), got(n);
            for (int k = 0; k < n; k++) {
                uint32_t v = pat == 0 ? (uint32_t)r.next() : pat == 1 ? k : pat == 2 ? n - k : pat == 3 ? 5 : pat == 4 ? k % mod : pat == 5 ? (k < n / 2 ? k : n - k) : (uint32_t)r.below(mod);
                uint32_t be = __builtin_bswap32(v), id = k; memset(b.p + (size_t)size * k, (char)k, size); memcpy(b.p + (size_t)size * k, &be, 4); memcpy(b.p + (size_t)size * k + 4, &id, 4); want[k] = {v, id}; }
            if (merge) mergesort_r2(b.p, n, size, cmp_cb, &c); else qsort_r2(b.p, n, size, cmp_cb, &c);
            bool rest = true; for (int k = 0; k < n; k++) { uint32_t be, id; memcpy(&be, b.p + (size_t)size * k, 4); memcpy(&id, b.p + (size_t)size * k + 4, 4); got[k] = {__builtin_bswap32(be), id}; for (int j = 8; j < size; j++) rest = rest && b.p[(size_t)size * k + j] == (char)id; }
            h.check(rest, "sort/whole-items", fmt("parts of items were exchanged (pattern %d)", pat));
            std::stable_sort(want.begin(), want.end(), [](auto& x, auto& y) { return x.first < y.first; });
            if (merge) h.check(got == want, "sort/merge-sizes", fmt("result of mergesort_r2 of %d items differs from a stable sort (pattern %d)", n, pat));
            else {
                bool ord = true; for (int k = 1; k < n; k++) if (got[k].first < got[k - 1].first) ord = false;
                h.check(ord, "sort/order-sizes", fmt("qsort_r2 left %d items unordered (pattern %d)", n, pat));
                std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); h.check(got == want, "sort/items-sizes", fmt("qsort_r2 of %d items lost or duplicated items (pattern %d)", n, pat));
            }
        }
    }, 60);
}

// ---------------------------------------------------------------------------------------------------
typedef __int128 I128;
static std::string numtext(Rng& r) {
    static const char* e[] = {"0","-0","00","007","-","--1","+1","","1","-1","9","10","255","256","-255","2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","9223372036854775807","9223372036854775808","-9223372036854775808","-9223372036854775809","18446744073709551615","18446744073709551616","99999999999999999999","184467440737095516150","0x","0x0","0xffffffffffffffff","0x10000000000000000","0x0000000000000000000ff","0xg","0X1f","0x7fffffff","0x80000000","-0x1","1e5","1.5","12abc","ffffffffffffffff","10000000000000000","deadBEEF","00000000000000000000000000000001","2147483650","4294967300","21474836470","-21474836480","6442450944"};
    std::string t;
    switch (r.below(4)) {
        case 0: t = e[r.below(sizeof e / sizeof *e)]; break;
        case 1: { uint64_t v = r.next() >> r.below(64); t = std::to_string(v); if (r.chance(40)) t = "-" + t; break; }
        case 2: { I128 b = r.chance(33) ? (I128)INT32_MAX : r.chance(50) ? (I128)INT64_MAX : (I128)UINT64_MAX; I128 v = b + r.range(-12, 12); bool neg = r.chance(30); std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } t = (neg ? "-" : "") + s; break; }
        default: { int n = r.below(23); if (r.chance(20)) t = "0x"; for (int k = 0; k < n; k++) t += "0123456789abcdefABCDEF-+.x "[r.below(r.chance(70) ? 10 : 27)]; }
    }
    if (r.chance(20)) t = std::string(1 + r.below(3), " \t\n"[r.below(3)]) + t;
    if (r.chance(25)) t += " ,.;x-9a\xe9"[r.below(9)];
    return t;
}
struct Scan1 { bool ok; I128 v; size_t used; };
// grammar: white space, [-] digits; hex: [0x] hex digits
static Scan1 ref_dec(const std::string& t, bool sign, I128 lo, I128 hi) {
    size_t p = 0; while (p < t.size() && isspace((unsigned char)t[p])) p++; bool neg = false; if (sign && p < t.size() && t[p] == '-') neg = true, p++;
    size_t b = p; I128 v = 0; while (p < t.size() && t[p] >= '0' && t[p] <= '9') { if (v < ((I128)1 << 100)) v = v * 10 + (t[p] - '0'); p++; }
    if (p == b) return {false, 0, 0}; if (neg) v = -v; if (v < lo || v > hi) return {false, 0, 0}; return {true, v, p};
}
static Scan1 ref_hex(const std::string& t) {
    size_t p = 0; while (p < t.size() && isspace((unsigned char)t[p])) p++; size_t b = p; I128 v = 0;
    while (p < t.size() && isxdigit((unsigned char)t[p])) { if (v < ((I128)1 << 100)) v = v * 16 + (isdigit((unsigned char)t[p]) ? t[p] - '0' : (t[p] | 32) - 'a' + 10); p++; }
    if (p == b || v > (I128)UINT64_MAX) return {false, 0, 0}; return {true, v, p};
}
static std::string i128s(I128 v) { if (v == 0) return "0"; bool n = v < 0; std::string s; while (v) { int d = (int)(v % 10); s.insert(s.begin(), '0' + (d < 0 ? -d : d)); v /= 10; } return n ? "-" + s : s; }

static bool ref_glob(const char* m, const char* v) {   // plain recursive definition
    if (*m == 0) return *v == 0;
    if (*m == '*') return ref_glob(m + 1, v) || (*v && ref_glob(m, v + 1));
    return *v && (*m == '?' || *m == *v) && ref_glob(m + 1, v + 1);
}
static void u03() {
    const uint64_t N = h.thorough ? 1500000 : 250000;
    h.group_run("numbers", N, [](uint64_t i, Rng& r) {
        std::string t = numtext(r); h.desc("text [" + t + "]"); h.distinct(t);
        auto judge = [&](const char* name, bool ok, I128 v, const char* p, const char* base, bool writeable, const Scan1& w) {
            if (!h.check(ok == w.ok, std::string("number/accepted/") + name, fmt("%s %s [%s]%s", name, ok ? "accepts" : "refuses", t.c_str(), ok ? (" as " + i128s(v)).c_str() : ""))) return;
            if (ok) { h.check(v == w.v, std::string("number/value/") + name, std::string(name) + " reads [" + t + "] as " + i128s(v) + ", it is " + i128s(w.v));
                      h.check(p == base + w.used, std::string("number/consumed/") + name, fmt("%s consumed %d of [%s], the number ends at %d", name, (int)(p - base), t.c_str(), (int)w.used)); }
            else h.check(p >= base && p <= base + t.size() && [&]{ for (const char* q = base; q < p; q++) if (!isspace((unsigned char)*q)) return false; return true; }(), std::string("number/moved/") + name, "moved over characters of a refused text [" + t + "]");
        };
        CStr c(t); const char* p; char* w; 
        { int v = -77; p = c.p; bool ok = ScanInt(p, v); judge("ScanInt", ok, v, p, c.p, false, ref_dec(t, true, INT32_MIN, INT32_MAX)); }
        { int v = -77; w = c.p; bool ok = ScanIntW(w, v); judge("ScanIntW", ok, v, w, c.p, true, ref_dec(t, true, INT32_MIN, INT32_MAX)); }
        { int64_t v = -77; p = c.p; bool ok = ScanInt64(p, v); judge("ScanInt64", ok, v, p, c.p, false, ref_dec(t, true, INT64_MIN, INT64_MAX)); }
        { int64_t v = -77; w = c.p; bool ok = ScanInt64W(w, v); judge("ScanInt64W", ok, v, w, c.p, true, ref_dec(t, true, INT64_MIN, INT64_MAX)); }
        Scan1 u; { size_t q = 0; while (q < t.size() && isspace((unsigned char)t[q])) q++;
            if (t.compare(q, 2, "0x") == 0) { std::string rest = t.substr(q + 2); if (rest.empty() || !isxdigit((unsigned char)rest[0])) u = {false, 0, 0}; else { u = ref_hex(rest); if (u.ok) u.used += q + 2; } } else u = ref_dec(t, false, 0, UINT64_MAX); }
        { uint64_t v = 77; p = c.p; bool ok = ScanUInt64(p, v); judge("ScanUInt64", ok, v, p, c.p, false, u); }
        { uint64_t v = 77; w = c.p; bool ok = ScanUInt64W(w, v); judge("ScanUInt64W", ok, v, w, c.p, true, u); }
        { uint64_t v = 77; p = c.p; bool ok = ScanUInt64Hex(p, v); judge("ScanUInt64Hex", ok, v, p, c.p, false, ref_hex(t)); }
        { // GetInt: decimal, or hexadecimal of 32 bits; otherwise the null value
            int v = GetInt(c.p); size_t q = 0; while (q < t.size() && isspace((unsigned char)t[q])) q++; size_t s = q; bool neg = s < t.size() && t[s] == '-'; if (neg) s++;
            if (t.compare(s, 2, "0x") == 0) { std::string rest = t.substr(s + 2); Scan1 x = rest.empty() || !isxdigit((unsigned char)rest[0]) ? Scan1{false, 0, 0} : ref_hex(rest);
                if (!x.ok || x.v > (I128)UINT32_MAX) h.check(v == (int)INT_NULL_VALUE, "number/GetInt", fmt("[%s] gives %d", t.c_str(), v)); else { uint32_t w32 = (uint32_t)x.v; if (neg) w32 = 0u - w32; h.check(v == (int)w32, "number/GetInt", fmt("[%s] gives %d", t.c_str(), v)); } }
            else { Scan1 x = ref_dec(t, true, INT32_MIN, INT32_MAX); h.check(v == (x.ok ? (int)x.v : (int)INT_NULL_VALUE), "number/GetInt", fmt("[%s] gives %d", t.c_str(), v)); } }
        if (i == 5) h.sample("text [" + t + "]");
    });
    h.group_run("addresses", N / 2, [](uint64_t i, Rng& r) {
        std::string t; int n = r.chance(80) ? 4 : 1 + r.below(6);
        for (int k = 0; k < n; k++) { if (k) t += r.chance(96) ? "." : r.chance(50) ? ".." : ","; int v = r.chance(75) ? r.below(256) : r.chance(50) ? 256 + r.below(10) : r.below(70000); if (r.chance(3)) t += " "; if (r.chance(3)) t += "-"; t += r.chance(4) ? "" : std::to_string(v); if (r.chance(2)) t += "99999999999"; }
        if (r.chance(10)) t = " " + t; if (r.chance(10)) t += "x. :"[r.below(4)];
        h.desc("text [" + t + "]"); h.distinct(t);
        size_t p = 0; while (p < t.size() && isspace((unsigned char)t[p])) p++;
        bool ok = true; uint32_t want = 0;
        for (int k = 0; k < 4 && ok; k++) { if (k) { if (p < t.size() && t[p] == '.') p++; else { ok = false; break; } } size_t b = p; I128 v = 0; while (p < t.size() && isdigit((unsigned char)t[p])) { if (v < 100000) v = v * 10 + (t[p] - '0'); p++; } if (p == b || v > 255) ok = false; want = want << 8 | (uint32_t)v; }
        CStr c(t); const char* q = c.p; uint32_t v = 0; bool got = ScanIPv4(q, v);
        if (h.check(got == ok, "ip/accepted", fmt("%s [%s]", got ? "accepts" : "refuses", t.c_str())) && ok) { h.check(v == want, "ip/value", fmt("%08x want %08x", v, want)); h.check(q == c.p + p, "ip/consumed", fmt("%d want %d", (int)(q - c.p), (int)p)); }
        if (!got) h.check(q == c.p, "ip/moved", "moved over a refused address");
        if (ok && p == t.size() && n == 4) h.distinct("ok" + t);
    });
    h.group_run("versions", N / 4, [](uint64_t i, Rng& r) {
        std::string t; int n = r.below(6); for (int k = 0; k < n; k++) { if (k) t += r.chance(95) ? '.' : '-'; t += std::to_string(r.chance(80) ? r.below(256) : r.below(100000)); } if (r.chance(15)) t += "beta.7 "[r.below(7)];
        h.desc("version [" + t + "]"); h.distinct(t);
        uint32_t want = 0; std::string s = t; size_t p = 0;
        for (int k = 0; k < 4 && p < s.size(); k++) { Scan1 x = ref_dec(s.substr(p), true, INT32_MIN, INT32_MAX); if (!x.ok) break; int v = (int)x.v; v = v < 0 ? 0 : v > 255 ? 255 : v; want |= (uint32_t)v << ((3 - k) * 8); p += x.used; if (p >= s.size() || s[p] != '.') break; p++; }
        CStr c(t); uint32_t v = GetVersion(c.p); h.check(v == want, "version", fmt("[%s] gives %08x want %08x", t.c_str(), v, want));
    });
    h.group_run("wildcards", N, [](uint64_t i, Rng& r) {
        std::string m, v; int ab = 1 + r.below(3);
        for (int k = r.below(9); k > 0; k--) m += r.chance(35) ? '*' : r.chance(25) ? '?' : (char)('a' + r.below(ab));
        if (r.chance(50)) for (char c : m) { if (c == '*') for (int k = r.below(4); k > 0; k--) v += (char)('a' + r.below(ab)); else v += c == '?' ? (char)('a' + r.below(ab)) : c; }
        else for (int k = r.below(9); k > 0; k--) v += (char)('a' + r.below(ab));
        if (r.chance(10)) v += 'b';
        h.desc("mask [" + m + "] value [" + v + "]"); h.distinct(m + "/" + v);
        CStr cm(m), cv(v); bool got = AdvEqual(cm.p, cv.p), want = ref_glob(m.c_str(), v.c_str());
        h.check(got == want, "wildcard", fmt("[%s] %s [%s]", m.c_str(), got ? "matches" : "does not match", v.c_str()));
        if (want) h.distinct("match" + m + v);
    });
    h.group_run("words", N / 2, [](uint64_t i, Rng& r) {
        static const char A[] = "ab \t\n,;x_9-\xc3\xa9"; std::string t; for (int k = r.below(16); k > 0; k--) t += A[r.below(sizeof A - 1)];
        h.desc("text [" + t + "]"); h.distinct(t);
        auto sp = [](char c) { return isspace((unsigned char)c) != 0; };
        CStr c(t); size_t lead = 0; while (lead < t.size() && sp(t[lead])) lead++;
        { const char* p = c.p; SkipSpaces(p); h.check(p == c.p + lead, "word/SkipSpaces", fmt("%d", (int)(p - c.p))); char* w = c.p; SkipSpacesW(w); h.check(w == c.p + lead, "word/SkipSpacesW", fmt("%d", (int)(w - c.p))); }
        { const char* p = c.p; bool g = SkipLine(p); size_t nl = t.find('\n'); h.check(g == (nl != std::string::npos) && p == c.p + (g ? nl + 1 : t.size()), "word/SkipLine", fmt("%d at %d", g, (int)(p - c.p)));
          char* w = c.p; g = SkipLineW(w); h.check(g == (nl != std::string::npos) && w == c.p + (g ? nl + 1 : t.size()), "word/SkipLineW", fmt("%d at %d", g, (int)(w - c.p))); }
        { char sep = ",;x"[r.below(3)]; const char* p = c.p; bool g = Go(p, sep); size_t q = t.find(sep); h.check(g == (q != std::string::npos) && p == c.p + (g ? q + 1 : t.size()), "word/Go", fmt("%d at %d", g, (int)(p - c.p))); }
        { std::string beg = r.chance(60) ? t.substr(lead, r.below(4)) : std::string("ab,").substr(0, r.below(4)); CStr b(beg); const char* p = c.p; bool g = Scan(p, b.p); bool w = t.compare(lead, beg.size(), beg) == 0 && lead + beg.size() <= t.size();
          h.check(g == w, "word/Scan", fmt("%d for [%s]", g, beg.c_str())); h.check(p == c.p + lead + (w ? beg.size() : 0), "word/Scan-position", fmt("%d", (int)(p - c.p)));
          char* pw = c.p; g = ScanW(pw, b.p); h.check(g == w && pw == c.p + lead + (w ? beg.size() : 0), "word/ScanW", fmt("%d at %d", g, (int)(pw - c.p))); }
        { char sep = " ,;x"[r.below(4)]; int size = 1 + r.below(12); size_t e = lead; while (e < t.size() && (sep == ' ' ? !sp(t[e]) : t[e] != sep)) e++;
          std::string word = t.substr(lead, e - lead), want = word.substr(0, size - 1); size_t pos = e < t.size() ? e + 1 : e;
          { Buf o(size); const char* p = c.p; bool g = ScanStr(p, sep, o.p, size); h.check(strnlen(o.p, size) < (size_t)size && want == o.p, "word/ScanStr", fmt("sep [%c] size %d", sep, size) + " got [" + std::string(o.p, strnlen(o.p, size)) + "] want [" + want + "]"); h.check(g == !want.empty() && p == c.p + pos, "word/ScanStr-position", fmt("%d at %d want %d", g, (int)(p - c.p), (int)pos)); }
          { Buf o(size); char* p = c.p; bool g = ScanStrW(p, sep, o.p, size); h.check(strnlen(o.p, size) < (size_t)size && want == o.p, "word/ScanStrW", std::string(o.p, strnlen(o.p, size))); h.check(g == !want.empty() && p == c.p + pos, "word/ScanStrW-position", fmt("%d at %d want %d", g, (int)(p - c.p), (int)pos)); } }
        { size_t k = 0; if (!t.empty() && (isalpha((unsigned char)t[0]) || t[0] == '_')) while (k < t.size() && (isalnum((unsigned char)t[k]) || t[k] == '_')) k++; h.check(GetIdentLen(c.p) == (int)k, "word/GetIdentLen", fmt("%d want %d", GetIdentLen(c.p), (int)k)); }
        { std::string end = r.chance(60) && t.size() ? t.substr(t.size() - r.below(std::min<size_t>(4, t.size() + 1))) : std::string("ab"); CStr m(t), e(end); bool g = EatEnd(m.p, e.p); bool w = t.size() >= end.size() && t.compare(t.size() - end.size(), end.size(), end) == 0; h.check(g == w && std::string(m.p) == (w ? t.substr(0, t.size() - end.size()) : t), "word/EatEnd", fmt("%d [%s] without [%s]", g, m.p, end.c_str())); }
        { std::string o = r.chance(50) ? t : t.substr(0, r.below(t.size() + 1)); CStr a(t), b(o); h.check(streq(a.p, b.p) == (t == o), "word/streq", "streq"); h.check(streq(nullptr, b.p) == o.empty() && streq(b.p, nullptr) == o.empty() && streq(nullptr, nullptr), "word/streq-null", "streq with null"); }
        { int room = r.below(20); Buf o(room); char* d = o.p; const char* s = c.p; bool lim = r.chance(50); const char* e = lim ? c.p + r.below(t.size() + 1) : nullptr; size_t n = lim ? e - c.p : t.size();
          bool g = StrWrite(d, o.p + room, s, e); bool w = n <= (size_t)room; h.check(g == w && (w ? d == o.p + n && s == c.p + n && !memcmp(o.p, t.data(), n) : d == o.p && s == c.p), "word/StrWrite", fmt("%d room %d size %d moved %d", g, room, (int)n, (int)(d - o.p))); }
    });
    h.group_run("identifiers", N / 4, [](uint64_t i, Rng& r) {
        static const char A[] = "abZ_09- \t.,\xc3"; std::string t; int n = r.chance(70) ? r.below(20) : 50 + r.below(40); for (int k = 0; k < n; k++) t += A[r.below(sizeof A - 1)];
        static const char* ST[] = {"", "_", "U", "U!", "_U"}; const char* st = ST[r.below(5)];
        h.desc("text [" + t + "] style " + st); h.distinct(t + st);
        CStr c(t); std::string o = MakeIdent(c.p, st);
        bool ok = o.size() < 64; for (size_t k = 0; k < o.size(); k++) { unsigned char ch = o[k]; if (!(isalpha(ch) || ch == '_' || (k && isdigit(ch)))) ok = false; }
        h.check(ok, "ident/valid", "[" + o + "] is not an identifier");
        bool clean = !t.empty() && t.size() < 63 && (isalpha((unsigned char)t[0]) || t[0] == '_'); for (unsigned char ch : t) if (!(isalnum(ch) && ch < 128) && ch != '_') clean = false;
        if (clean && !strchr(st, 'U')) h.check(o == t, "ident/kept", "[" + t + "] changed to [" + o + "]");
    });
    h.group_run("numbers-to-text", N / 2, [](uint64_t i, Rng& r) {
        static const int64_t e[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MIN + 1, 10, -10, INT32_MIN, UINT32_MAX}; int64_t v = i < 10 ? e[i] : (int64_t)r.next() >> r.below(64);
        h.desc(fmt("value %lld", (long long)v)); h.distinct(fmt("%lld", (long long)v));
        Buf b(sizeof(char40_t)); const char* p = Int64ToStr(v, b.p); h.check(p >= b.p && p < b.p + sizeof(char40_t) && std::string(p) == std::to_string(v), "text/Int64ToStr", p ? p : "null");
        CStr c(p); const char* q = c.p; int64_t x; h.check(ScanInt64(q, x) && x == v && *q == 0, "text/back", "number does not read back");
    });
}

// ---------------------------------------------------------------------------------------------------
static void u04() {
    const uint64_t N = h.thorough ? 300000 : 60000;
    h.group_run("names", N, [](uint64_t i, Rng& r) {
        static const char* comp[] = {"a", "b.c", "dir.d", "x-y", "..", "a.b.c", "x", "Name With Space", "v1.2"}; static const char* fn[] = {"file", "file.xml", "file.tar.gz", "f.", "f.x.y.z", "noext", "1.2", "a.json", "README", "x.XML"};
        std::string dirs; if (r.chance(20)) dirs = "/"; for (int k = r.below(4); k > 0; k--) { dirs += comp[r.below(9)]; dirs += '/'; }
        if (r.chance(5)) dirs += std::string(100 + r.below(5000), 'd') + "/";
        std::string f = fn[r.below(10)]; if (r.chance(20)) { f = ""; for (int k = 1 + r.below(8); k > 0; k--) f += "abc.-_"[r.below(6)]; if (f[0] == '.') f = "q" + f; }
        std::string pre; for (int k = r.chance(20) ? 1 + r.below(2) : 0; k > 0; k--) pre += "./"; if (dirs[0] == '/') pre = "";
        std::string name = pre + dirs + f; std::string ext = r.pick(std::vector<std::string>{".xb", ".xbw", ".xml", "", ".long-extension", ".tmp.xb"}); bool noext = r.chance(10);
        std::string target = r.chance(35) ? r.pick(std::vector<std::string>{"build", "build/temp.d", "/tmp/t", "t.x"}) : ""; if (!target.empty() && r.chance(4)) target = std::string(4080 + r.below(40), 't');
        size_t dot = f.rfind('.'); std::string want = dirs + (noext ? f : (dot == std::string::npos ? f : f.substr(0, dot)) + ext);
        if (!target.empty()) { if (want[0] == '/') want = want.substr(1); want = target + "/" + want; }
        h.desc("name " + name + " ext " + (noext ? "(null)" : ext) + " target " + target); h.distinct(name + "|" + ext + "|" + target);
        CStr c(name), e(ext), t(target); char* got = AllocFilenameChangeExt(c.p, noext ? nullptr : e.p, target.empty() ? nullptr : t.p);
        h.check(got && want == got, "name", std::string("got ") + (got ? got : "(null)") + " want " + want);
        h.check(name == c.p && ext == e.p && target == t.p, "name/arguments", "an argument was changed");
        delete[] got;
        if (i == 3) h.sample(name + " -> " + want);
    });
    // names of a source and of the results of every kind of creator
    h.group_run("creators", h.thorough ? 8000 : 1200, [](uint64_t i, Rng& r) {
        namespace fs = std::filesystem; using namespace pklib_xml;
        std::string top = h.work + fmt("/cr%d-%d", h.shard, (int)i); fs::remove_all(top); fs::create_directories(top); fs::current_path(top);
        auto name_of = [&](bool file) { static const char* D[] = {"", "", "d/", "d.x/", "d.xb/e.f/", "a b/", "./", "d/../d/"}; static const char* F[] = {"a", "a.b.c", "x.xml", "n.json", "q.xbw.src", "..z.src", "a%d", "a'b", "-x.src"}; std::string s = std::string(D[r.below(8)]) + F[r.below(9)]; if (file) s += r.chance(60) ? ".src" : ""; else s += r.chance(60) ? ".out" : ""; return s; };
        auto swap_ext = [](const std::string& n, const std::string& e) { size_t sl = n.rfind('/'), b = sl == std::string::npos ? 0 : sl + 1, d = n.rfind('.'); return (d == std::string::npos || d < b ? n : n.substr(0, d)) + e; };
        auto rel = [&](const std::string& n) { return fs::path(n).is_absolute() ? fs::path(n).lexically_normal().string() : (fs::path(top) / n).lexically_normal().string(); };
        std::string src = name_of(true), dst = name_of(false); if (r.chance(25)) src = top + "/" + src; if (r.chance(25)) dst = top + "/" + dst;
        auto mkdirs = [&](std::string n) { std::string t; if (n[0] != '/') n = top + "/" + n; for (size_t k = top.size() + 1; k < n.size(); k++) if (n[k] == '/') { t = n.substr(0, k); fs::create_directories(t); } };
        mkdirs(src); mkdirs(dst); tree::write_file(rel(src), "source"); tree::GenOpt o; o.maxnodes = 6; auto t = tree::rand_tree(r, o);
        // the name of the source can be set more than once and in every way
        CStr c(src); tree::TreePlugin P(r.chance(50) ? c.p : "first.src", t.get()); int how = r.below(3);
        if (how == 0) P.setFilename(c.p, nullptr); else if (how == 1) P.setFilenameFmt("%s", c.p); else { size_t sl = src.rfind('/'); std::string base = sl == std::string::npos ? src : src.substr(sl + 1), d = sl == std::string::npos ? "" : src.substr(0, sl + 1); P.setFilenameFmt("%s%s%s", d.c_str(), base.substr(0, 1).c_str(), base.c_str() + 1); }
        std::string plain = src; while (plain.compare(0, 2, "./") == 0) plain = plain.substr(2);
        h.desc("source " + src + " target " + dst); h.check(P.getFilename() && plain == P.getFilename(), "creator/source-name", std::string("got ") + P.getFilename() + " want " + plain);
        bool xbw = r.chance(40); Bin_xml_creator_target T = xbw ? XBTARGET_XBW : XBTARGET_XB; int kind = r.below(xbw ? 3 : 5); CStr d(dst); const char* ext = xbw ? ".xbw" : ".xb";
        std::string want = rel(swap_ext(kind == 0 || kind == 3 ? dst : src, ext)); bool same = want == rel(src); std::string old = r.chance(30) && !same ? std::string(9000, 'o') : ""; if (!old.empty()) tree::write_file(want, old);
        std::set<std::string> before, after; auto list = [&](std::set<std::string>& S) { for (auto& e : fs::recursive_directory_iterator(top)) S.insert(e.path().string()); }; list(before);
        bool ok; { std::unique_ptr<Bin_xml_creator> X; if (kind == 0) X.reset(new Bin_xml_creator(&P, d.p, T)); else if (kind == 1) X.reset(new Bin_xml_creator(&P, nullptr, T)); else if (kind == 2) X.reset(new Bin_xml_creator(&P, T)); else X.reset(new Bin_xml_packer(&P, kind == 3 ? d.p : nullptr)); ok = X->DoAll(); }
        h.distinct(src + "|" + dst + fmt("|%d%d", kind, xbw)); std::string how_s = fmt(" (kind %d, target %s)", kind, ext); list(after);
        h.check(src == c.p && dst == d.p, "creator/arguments", "an argument was changed"); h.check(tree::read_file(rel(src)) == "source", "creator/source-changed", "the source was changed" + how_s);
        if (same) { h.check(!ok && before == after, "creator/same-file", "result named like its source was accepted"); }
        else { before.insert(want); std::string df; for (auto& x : after) if (!before.count(x)) df += "+" + x; for (auto& x : before) if (!after.count(x)) df += "-" + x;
            h.check(ok, "creator/refused", "the conversion failed" + how_s); h.check(df.empty(), "creator/files", "files differ: " + df + how_s); std::string x = tree::read_file(want);
            if (xbw) h.check(x.size() > 92 && x.compare(4, 21, "binary_xml.pksoft.org") == 0, "creator/content", "result is not a writable document" + how_s);
            else { h.check(x.find(std::string(P.getFilename()) + '\0') != std::string::npos, "creator/stored-name", "name of the source is not in the result" + how_s); std::string q = want; XB_reader R(&q[0]); h.check(R.Initialize(), "creator/content", "result cannot be opened" + how_s); R.Finalize(); } }
        if (i == 7) h.sample(src + " as " + want);
        fs::current_path("/"); fs::remove_all(top);
    });
    // the packer's own naming of results: a caller's buffer of the size of the source's name is enough
    h.group_run("getxb", h.thorough ? 4000 : 600, [](uint64_t i, Rng& r) {
        namespace fs = std::filesystem; using namespace pklib_xml;
        std::string top = h.work + fmt("/gx%d-%d", h.shard, (int)i); fs::remove_all(top); fs::create_directories(top); fs::current_path(top);
        static const char* D[] = {"", "", "d/", "d.x/", "d.xml/e.f/", "a b/", "./", "d.wsdl/"}; static const char* F[] = {"a", "a.b.c", "xml", "n.xml", "..z", "a%d", "wsdl", "", "a.xb"}; static const char* E[] = {".xml", ".xml", ".xsd", ".wsdl", ".wsdl", ".XML", ".xmlx", "", ".", ".xb", ".txt", ".wsd", ".xm"};
        std::string d = D[r.below(8)], ext = E[r.below(13)], src = d + F[r.below(9)] + ext; if (src.empty() || src.back() == '/' || src == "." || (src.size() > 1 && src.compare(src.size() - 2, 2, "/.") == 0)) src += "x"; if (r.chance(25)) src = top + "/" + src;
        if (!d.empty()) fs::create_directories(top + "/" + d);
        size_t sl = src.rfind('/'), b0 = sl == std::string::npos ? 0 : sl + 1, dot = src.rfind('.'); bool known = false; std::string want; if (dot != std::string::npos && dot >= b0) { std::string e = src.substr(dot); known = e == ".xml" || e == ".xsd" || e == ".wsdl"; want = src.substr(0, dot) + ".xb"; }
        auto abs = [&](const std::string& n) { return fs::path(n).is_absolute() ? n : top + "/" + n; };
        int what = r.below(10); bool there = what < 8, good = what < 6; std::string text = good ? fmt("<?xml version=\"1.0\"?><r n=\"%d\"><v>text %d</v></r>", (int)i, (int)i) : "<r><v></r>"; if (there) tree::write_file(abs(src), text);
        std::set<std::string> before, after; auto list = [&](std::set<std::string>& S) { for (auto& e : fs::recursive_directory_iterator(top)) S.insert(fs::path(e.path()).lexically_normal().string()); }; list(before);
        CStr c(src); std::unique_ptr<char[]> out(new char[src.size() + 1]); memset(out.get(), 'z', src.size()); out[src.size()] = 0; const char* msg = (const char*)1;
        h.desc("GetXB of " + src + fmt(" (%s)", good ? "well-formed" : there ? "malformed" : "missing")); h.distinct(src + fmt("|%d", what));
        bool ok = Bin_xml_packer::GetXB(c.p, out.get(), &msg); list(after); h.eval(1);
        h.check(src == c.p, "getxb/argument", "the source's name was changed"); h.check(!there || tree::read_file(abs(src)) == text, "getxb/source", "the source was changed");
        h.check(ok == (known && good), "getxb/result", fmt("returned %d", ok)); h.check(ok == (msg == nullptr) , "getxb/message", ok ? "message with success" : "failure without message");
        if (ok) { h.check(want == out.get(), "getxb/name", std::string("got ") + out.get() + " want " + want); before.insert(fs::path(abs(want)).lexically_normal().string()); std::string q = abs(want); XB_reader R(&q[0]); h.check(R.Initialize(), "getxb/content", "result cannot be opened"); R.Finalize(); }
        std::string df; for (auto& x : after) if (!before.count(x)) df += "+" + x; for (auto& x : before) if (!after.count(x)) df += "-" + x; h.check(df.empty(), "getxb/files", "files differ: " + df);
        if (i == 3) h.sample(src + " as " + out.get());
        fs::current_path("/"); fs::remove_all(top);
    });
    h.group_run("null-name", 1, [](uint64_t, Rng&) { h.check(AllocFilenameChangeExt(nullptr, ".xb") == nullptr, "name/null", "no name gives a name"); h.distinct("null"); });
}

int main(int argc, char** argv) {
    h.init(argc, argv);
    std::string prop; for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "--prop=", 7)) prop = argv[i] + 7;
    if (prop == "U01") u01(); else if (prop == "U02") u02(); else if (prop == "U03") u03(); else if (prop == "U04") u04(); else return 3;
    h.finish(); return 0;
}
