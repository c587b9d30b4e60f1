// Reference arithmetic and codecs, written independently of the code under test.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
namespace ref {
// proleptic Gregorian calendar (era based algorithm)
static inline int64_t days_from_civil(int64_t y, int m, int d) {
    y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400;
    int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
static inline void civil_from_days(int64_t z, int64_t& y, int& m, int& d) {
    z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; int64_t doe = z - era * 146097;
    int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400;
    int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100); int64_t mp = (5 * doy + 2) / 153;
    d = (int)(doy - (153 * mp + 2) / 5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y += m <= 2;
}
static inline bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static inline int mdays(int64_t y, int m) { static const int t[] = {31,28,31,30,31,30,31,31,30,31,30,31}; return m == 2 && leap(y) ? 29 : t[m - 1]; }
static inline std::string date(int64_t days) { int64_t y; int m, d; civil_from_days(days, y, m, d); char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02d", (int)y, m, d); return b; }
static inline int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static inline std::string tod(int64_t sec) { char b[64]; snprintf(b, sizeof b, "%02d:%02d:%02d", (int)(sec / 3600), (int)(sec / 60 % 60), (int)(sec % 60)); return b; }
static inline std::string time32(uint32_t t) { return date(t / 86400) + " " + tod(t % 86400); }
static inline std::string time64(int64_t ms) { int64_t day = fdiv(ms, 86400000); int64_t r = (int64_t)((uint64_t)ms - (uint64_t)day * 86400000u); char b[16]; snprintf(b, sizeof b, ".%03d", (int)(r % 1000)); return date(day) + " " + tod(r / 1000) + b; }
static inline std::string scaled(int32_t v, int dec) {
    int64_t p = 1; for (int i = 0; i < dec; i++) p *= 10; int64_t a = v < 0 ? -(int64_t)v : v;
    char b[64]; snprintf(b, sizeof b, "%s%lld.%0*lld", v < 0 ? "-" : "", (long long)(a / p), dec, (long long)(a % p)); return b;
}
static inline std::string hex(const std::string& s) { static const char* H = "0123456789abcdef"; std::string o; for (unsigned char c : s) { o += H[c >> 4]; o += H[c & 15]; } return o; }
static inline std::string hexlines(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i += 16) { if (i) o += '\n'; o += hex(s.substr(i, 16)); } return o; }
static inline std::string guid(const std::string& s) { std::string h = hex(s); return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20); }
static inline std::string b64(const std::string& s) {
    static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; uint32_t acc = 0; int bits = 0;
    for (unsigned char c : s) { acc = (acc << 8) | c; bits += 8; while (bits >= 6) { bits -= 6; o += T[(acc >> bits) & 63]; } }
    if (bits) o += T[(acc << (6 - bits)) & 63]; while (o.size() % 4) o += '='; return o;
}
static inline std::string ip4(uint32_t v) { char b[32]; snprintf(b, sizeof b, "%u.%u.%u.%u", v >> 24, (v >> 16) & 255, (v >> 8) & 255, v & 255); return b; }
static inline std::string xmlesc(const std::string& s) { std::string o; for (char c : s) { if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '&') o += "&amp;"; else if (c == '"') o += "&quot;"; else if (c == '\r') o += "&#13;"; else o += c; } return o; }
}
