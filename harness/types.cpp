// T01-T06: typed values.
#include "vh.h"
#include "ref.h"
#include <math.h>
#include <limits.h>
#include <float.h>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_types.h>
#include <binary_xml/utils.h>
using namespace vh;
using namespace pklib_xml;
static H h;

static const char* TN(int t) { return t >= 0 && t <= XBT_LAST ? XML_BINARY_TYPE_NAMES[t] : "?"; }

// -- calling the code under test -------------------------------------------------------------------
static bool from_string(const std::string& s, XML_Binary_Type t, std::string& out, int room = -1) {
    CStr c(s);
    size_t n = room >= 0 ? room : s.size() * 2 + 64;
    Buf b(n);
    char* wp = b.p;
    if (!XBT_FromString(c.p, t, &wp, b.p + n)) return false;
    out.assign(b.p, wp - b.p);
    return true;
}
// the complete text of a stored value, taken piece by piece; false when rendering misbehaves
static bool render(XML_Binary_Type t, const char* data, int dst_size, std::string& out, std::string& why, size_t limit = 1 << 20) {
    out.clear();
    int off = 0;
    for (int guard = 0;; guard++) {
        Buf d(dst_size);
        int n = XBT_ToStringChunk(t, data, off, d.p, dst_size);
        if (n == 0) return true;
        if (n < 0) { why = fmt("chunk returned %d", n); return false; }
        if (n >= dst_size) { why = fmt("chunk returned %d for a buffer of %d", n, dst_size); return false; }
        if ((size_t)n != strnlen(d.p, dst_size)) { why = fmt("chunk announced %d bytes but wrote a text of %d", n, (int)strnlen(d.p, dst_size)); return false; }
        out.append(d.p, n);
        if (out.size() > limit || guard > 100000) { why = "rendering does not end"; return false; }
    }
}
static std::string stored(XML_Binary_Type t, const std::string& raw) { // how a value of this type lies in memory
    if (t == XBT_STRING) return raw + std::string(1, 0);
    if (t == XBT_HEX || t == XBT_BLOB) { int32_t n = raw.size(); return std::string((char*)&n, 4) + raw; }
    if (t == XBT_BLOB_STRING) { int32_t n = raw.size() + 1; return std::string((char*)&n, 4) + raw + std::string(1, 0); }
    return raw;
}
template<class T> static std::string raw(T v) { return std::string((char*)&v, sizeof v); }

static int64_t edge64(Rng& r) {
    switch (r.below(6)) {
        case 0: { static const int64_t e[] = {0,1,-1,9,10,-9,-10,99,100,127,128,255,256,INT32_MAX,INT32_MIN,(int64_t)INT32_MAX+1,(int64_t)INT32_MIN-1,UINT32_MAX,(int64_t)UINT32_MAX+1,INT64_MAX,INT64_MIN,INT64_MAX-1,INT64_MIN+1,-576460752303423488ll,576460752303423488ll,1000000000ll,-1000000000ll}; return e[r.below(sizeof e / sizeof *e)]; }
        case 1: { int b = r.below(63); int64_t v = (int64_t)1 << b; v += r.range(-2, 2); return r.chance(50) ? v : -v; }
        case 2: { int64_t v = 1; for (int k = r.below(18); k > 0; k--) v *= 10; v += r.range(-2, 2); return r.chance(50) ? v : -v; }
        case 3: return (int64_t)r.next() >> r.below(64);
        case 4: return r.range(-2000, 2000);
        default: return (int64_t)r.next();
    }
}
static int32_t edge32(Rng& r) { for (;;) { int64_t v = edge64(r); if (r.chance(30)) v = (int32_t)v; if (v >= INT32_MIN && v <= INT32_MAX) return (int32_t)v; } }
static std::string rbytes(Rng& r, size_t n) { std::string s(n, 0); int mode = r.below(3); for (auto& c : s) c = mode == 0 ? (char)r.next() : mode == 1 ? (char)(r.chance(50) ? 0xff : 0) : (char)r.below(16); return s; }

// one canonical (text, stored value) pair of a type
static const std::vector<XML_Binary_Type> TEXT_TYPES = {XBT_INT32, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO, XBT_UINT32, XBT_INT64, XBT_UINT64, XBT_IPv4, XBT_GUID, XBT_SHA1, XBT_HEX, XBT_UNIX_TIME, XBT_UNIX_DATE, XBT_UNIX_TIME64_MSEC, XBT_STRING};
static const int64_t DAY0000 = ref::days_from_civil(0, 1, 1), DAY9999 = ref::days_from_civil(9999, 12, 31);
static void canonical(XML_Binary_Type t, Rng& r, std::string& text, std::string& val) {
    switch (t) {
        case XBT_INT32: { int32_t v = edge32(r); text = std::to_string(v); val = raw(v); break; }
        case XBT_INT32_DECI: { int32_t v = edge32(r); text = ref::scaled(v, 1); val = raw(v); break; }
        case XBT_INT32_CENTI: { int32_t v = edge32(r); text = ref::scaled(v, 2); val = raw(v); break; }
        case XBT_INT32_MILI: { int32_t v = edge32(r); text = ref::scaled(v, 3); val = raw(v); break; }
        case XBT_INT32_MICRO: { int32_t v = edge32(r); text = ref::scaled(v, 6); val = raw(v); break; }
        case XBT_INT32_NANO: { int32_t v = edge32(r); text = ref::scaled(v, 9); val = raw(v); break; }
        case XBT_UINT32: { uint32_t v = (uint32_t)edge64(r); text = std::to_string(v); val = raw(v); break; }
        case XBT_INT64: { int64_t v = edge64(r); text = std::to_string(v); val = raw(v); break; }
        case XBT_UINT64: { uint64_t v = (uint64_t)edge64(r); text = std::to_string(v); val = raw(v); break; }
        case XBT_IPv4: { uint32_t v = r.chance(30) ? (uint32_t)edge64(r) : (uint32_t)r.next(); text = ref::ip4(v); val = raw(v); break; }
        case XBT_GUID: { std::string b = rbytes(r, 16); text = ref::guid(b); val = b; break; }
        case XBT_SHA1: { std::string b = rbytes(r, 20); text = ref::hex(b); val = b; break; }
        case XBT_HEX: { std::string b = rbytes(r, r.chance(70) ? 1 + r.below(16) : 1 + r.below(200)); text = r.chance(50) ? ref::hexlines(b) : ref::hex(b); val = b; break; }
        case XBT_UNIX_TIME: { uint32_t v = (uint32_t)edge64(r); if (r.chance(40)) v = (uint32_t)(r.below(49710) * 86400 + (r.chance(50) ? r.below(86400) : r.chance(50) ? 0 : 86399)); text = ref::time32(v); val = raw(v); break; }
        case XBT_UNIX_DATE: { int32_t v = (int32_t)(DAY0000 + (int64_t)r.below(DAY9999 - DAY0000 + 1)); if (r.chance(30)) { int64_t y = r.range(1, 9999); v = ref::days_from_civil(y, r.chance(50) ? 12 : 2, r.chance(50) ? 28 : 1) + r.below(5); } if (v > DAY9999) v = DAY9999; text = ref::date(v); val = raw(v); break; }
        case XBT_UNIX_TIME64_MSEC: { int64_t v = (int64_t)r.below(4294967296000ull); if (r.chance(30)) v = (int64_t)r.below(49710) * 86400000 + r.range(-2, 2); if (v < 0) v = 0; text = ref::time64(v); val = raw(v); break; }
        case XBT_STRING: { size_t n = r.below(r.chance(10) ? 3000 : 40); std::string s; for (size_t i = 0; i < n; i++) { char c = (char)(1 + r.below(255)); if (r.chance(70)) c = " abcXYZ019.-:<>&\"'\n\t\\"[r.below(21)]; s += c; } text = s; val = s; break; }
        default: break;
    }
}

// ================================================================================== T01
static void t01() {
    uint64_t n = h.thorough ? 400000 : 24000;
    for (XML_Binary_Type t : TEXT_TYPES) {
        h.group_run(fmt("text-value-text/%s", TN(t)), n, [&](uint64_t, Rng& r) {
            std::string text, val; canonical(t, r, text, val);
            h.desc(fmt("%s \"%s\"", TN(t), text.substr(0, 300).c_str()));
            std::string got, back, why;
            if (!h.check(from_string(text, t, got), fmt("T01/%s/refused", TN(t)), "canonical text '" + text.substr(0, 200) + "' was refused")) return;
            std::string want = stored(t, val);
            if (!h.check(got == want, fmt("T01/%s/value", TN(t)), "text '" + text.substr(0, 200) + "' gave bytes " + hexs(got.data(), got.size()) + " instead of " + hexs(want.data(), want.size()))) return;
            Buf b(want.size()); memcpy(b.p, want.data(), want.size());
            if (!h.check(render(t, b.p, 4096, back, why), fmt("T01/%s/render", TN(t)), why + " for value of '" + text.substr(0, 200) + "'")) return;
            std::string wtext = t == XBT_HEX ? ref::hexlines(val) : text; // hex data is rendered as lines of 16 bytes
            h.check(back == wtext, fmt("T01/%s/text", TN(t)), "value " + hexs(want.data(), want.size()) + " rendered as '" + back.substr(0, 200) + "' instead of '" + wtext.substr(0, 200) + "'");
            const char* s = XBT_ToString(t, b.p);
            h.check(s != nullptr && wtext == s, fmt("T01/%s/tostring", TN(t)), std::string("whole rendering gave '") + (s ? s : "(null)") + "' instead of '" + wtext.substr(0, 200) + "'");
            h.distinct(text); h.sample(text);
        });
    }
    // a text stays valid while the next 63 values are rendered (as when a whole line of values is printed at once)
    h.group_run("held-texts", h.thorough ? 40000 : 4000, [&](uint64_t, Rng& r) {
        int k = 2 + r.below(63); std::vector<std::string> want; std::vector<const char*> got; std::vector<XML_Binary_Type> ty; XML_Binary_Type only = TEXT_TYPES[r.below(TEXT_TYPES.size())]; bool same = r.chance(30);
        for (int i = 0; i < k; i++) {
            XML_Binary_Type t = same ? only : TEXT_TYPES[r.below(TEXT_TYPES.size())]; if (t == XBT_HEX || t == XBT_STRING) t = XBT_GUID; std::string text, val; canonical(t, r, text, val); std::string st = stored(t, val); Buf b(st.size()); memcpy(b.p, st.data(), st.size());
            ty.push_back(t); want.push_back(text); got.push_back(XBT_ToString(t, b.p)); if (r.chance(10)) { std::string x = stored(XBT_HEX, rbytes(r, 1 + r.below(300))); Buf y(x.size()); memcpy(y.p, x.data(), x.size()); XBT_ToString(XBT_HEX, y.p); }
        }
        std::string all; for (int i = 0; i < k; i++) { all += want[i] + ' '; if (!h.check(got[i] && want[i] == got[i], fmt("T01/%s/held", TN(ty[i])), fmt("text %d of %d is now '%s' instead of '%s'", i, k, got[i] ? got[i] : "(null)", want[i].c_str()))) return; }
        h.distinct(all); h.sample(all.substr(0, 200));
    });
    // binary -> text -> binary for floating point
    h.group_run("value-text-value/FLOAT", n, [&](uint64_t, Rng& r) {
        uint32_t bits = (uint32_t)r.next(); float f;
        switch (r.below(4)) { case 0: f = (float)(r.range(-1000000, 1000000)) / (float)(1 << r.below(20)); break; case 1: f = ldexpf(1.0f + (float)r.below(1000) / 1000, r.range(-126, 127)); if (r.chance(50)) f = -f; break; case 2: { static const float e[] = {0.f, -0.f, 1.f, -1.f, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45f, 16777217.f, 0.1f, 1e-7f, 123456.789f}; f = e[r.below(12)]; break; } default: memcpy(&f, &bits, 4); }
        if (isnan(f) || isinf(f)) f = 2.5f;
        h.desc(fmt("FLOAT %.9g", f));
        std::string back, why, got; Buf b(4); memcpy(b.p, &f, 4);
        if (!h.check(render(XBT_FLOAT, b.p, 4096, back, why), "T01/FLOAT/render", why)) return;
        if (!h.check(from_string(back, XBT_FLOAT, got), "T01/FLOAT/refused", "own rendering '" + back + "' refused")) return;
        h.check(got == raw(f), "T01/FLOAT/value", fmt("value %.9g rendered as '%s' reads back as %s", f, back.c_str(), hexs(got.data(), got.size()).c_str()));
        h.distinct(raw(f)); h.sample(back);
    });
    h.group_run("value-text-value/DOUBLE", n, [&](uint64_t, Rng& r) {
        uint64_t bits = r.next(); double f;
        switch (r.below(4)) { case 0: f = (double)(r.range(-100000000, 100000000)) / (double)(1 << r.below(20)); break; case 1: f = ldexp(1.0 + (double)r.below(100000) / 100000, r.range(-1022, 1023)); if (r.chance(50)) f = -f; break; case 2: { static const double e[] = {0., -0., 1., -1., DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, 9007199254740993., 0.1, 1e-7, 12345678.9123}; f = e[r.below(12)]; break; } default: memcpy(&f, &bits, 8); }
        if (isnan(f) || isinf(f)) f = 2.5;
        h.desc(fmt("DOUBLE %.17g", f));
        std::string back, why, got; Buf b(8); memcpy(b.p, &f, 8);
        if (!h.check(render(XBT_DOUBLE, b.p, 4096, back, why), "T01/DOUBLE/render", why)) return;
        if (!h.check(from_string(back, XBT_DOUBLE, got), "T01/DOUBLE/refused", "own rendering '" + back + "' refused")) return;
        h.check(got == raw(f), "T01/DOUBLE/value", fmt("value %.17g rendered as '%s' reads back as %s", f, back.c_str(), hexs(got.data(), got.size()).c_str()));
        h.distinct(raw(f)); h.sample(back);
    });
}

// ================================================================================== T02
static std::string neartext(Rng& r) {
    static const std::vector<std::string> toks = {"0","1","9","10","12","123","007","2147483647","2147483648","-2147483648","4294967295","4294967296","9223372036854775807","9223372036854775808","18446744073709551615","18446744073709551616","99999999999999999999","0x","0x10","0xAB","-","--","+",".","..",":"," ","  ","T","Z","e","E","E5","E-5","e10","a","b","f","Ada","bed","DEAD","beef","cafe","x","g","1.5","0.5","-0.5","-0.0","1.50","00.1","1.234567890","2.147483647","2.147483648","5000.12345","255","256","1.2.3.4","192.168.255.255","1.2.3.256","01.2.3.4","2021-06-15","2021-02-29","2020-02-29","2021-13-45","1999-12-31","0000-01-01","22:41:40","24:00:00","23:59:60",".000",".773","2021-06-15 22:41:40","2021-06-15 22:41:40.123","2026-03-20T15:51:55.773Z","9b6aa6cc7c5a71c13fc7ee1011ef309c333a904c","9B6AA6CC7C5A71C13FC7EE1011EF309C333A904C","fcac7dbb-08c7-478d-bf97-7e595ca39aab","FCAC7DBB-08C7-478D-BF97-7E595CA39AAB","fcac7dbb08c7478dbf977e595ca39aab","4142\n","\t","\n","\r","\xc3\xa9","&","<","nan","inf","1,5","1 000"};
    std::string s;
    switch (r.below(6)) {
        case 0: { int n = 1 + r.below(3); for (int i = 0; i < n; i++) s += r.pick(toks); return s; }
        case 1: { static const char A[] = "0123456789abcdefABCDEFx-.: \nTZ+"; size_t n = 1 + r.below(14); for (size_t i = 0; i < n; i++) s += A[r.below(sizeof A - 1)]; return s; }
        case 2: { static const char A[] = "0123456789.-"; size_t n = 1 + r.below(22); for (size_t i = 0; i < n; i++) s += A[r.below(r.chance(80) ? 10 : 12)]; return s; }
        case 3: { std::string v; canonical(TEXT_TYPES[r.below(TEXT_TYPES.size() - 1)], r, s, v); // canonical text with one small mutation
                  if (s.empty()) return "0"; size_t p = r.below(s.size()); switch (r.below(5)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, "0123456789abcdefA-.: xZT"[r.below(24)]); break; case 2: s[p] = "0123456789abcdefA-.: xZT"[r.below(24)]; break; case 3: s = (r.chance(50) ? "0" : "-") + s; break; case 4: s[p] = toupper(s[p]); break; } return s; }
        case 4: { static const char A[] = "0123456789abcdef"; static const int L[] = {1,2,3,4,7,8,31,32,33,39,40,41,64}; size_t n = L[r.below(13)]; bool dec = r.chance(30); for (size_t i = 0; i < n; i++) s += A[r.below(dec ? 10 : 16)]; if (r.chance(20)) for (auto& c : s) c = toupper(c); return s; }
        default: { // date/time shapes
                  char b[96]; int y = r.chance(70) ? r.range(1970, 2105) : r.range(0, 9999), mo = r.range(0, 13), d = r.range(0, 32), hh = r.range(0, 25), mi = r.range(0, 61), se = r.range(0, 61), ms = r.range(0, 999);
                  switch (r.below(5)) { case 0: snprintf(b, sizeof b, "%04d-%02d-%02d", y, mo, d); break; case 1: snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, hh, mi, se); break; case 2: snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d.%03d", y, mo, d, hh, mi, se, ms); break; case 3: snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", y, mo, d, hh, mi, se, ms); break; default: snprintf(b, sizeof b, "%04d-%2d-%2d %2d:%02d:%02d", y, mo, d, hh, mi, se); }
                  return b; }
    }
}
static void t02() {
    uint64_t n = h.thorough ? 3000000 : 300000;
    h.group_run("recognised-type-holds-text", n, [&](uint64_t, Rng& r) {
        std::string s = neartext(r); size_t z = s.find('\0'); if (z != std::string::npos) s.resize(z);
        h.desc("text \"" + s + "\"");
        CStr c(s);
        XML_Binary_Type t = XBT_Detect(c.p);
        h.check(t == XBT_Detect(s.c_str()), "T02/unstable", "two recognitions of the same text differ");
        if (t == XBT_NULL) { h.check(s.empty(), "T02/null", "non-empty text recognised as empty value"); return; }
        if (t == XBT_STRING) { h.eval(); return; }
        h.distinct(s); h.sample(fmt("%s: ", TN(t)) + s);
        std::string val, back, why;
        if (!h.check(from_string(s, t, val), fmt("T02/%s/refuses", TN(t)), "text '" + s + "' recognised as " + TN(t) + " but conversion refuses it")) return;
        Buf b(val.size()); memcpy(b.p, val.data(), val.size());
        if (!h.check(render(t, b.p, 4096, back, why), fmt("T02/%s/render", TN(t)), "text '" + s + "': " + why)) return;
        // the ISO spelling of a time in UTC is the one documented variant: it is kept as the same instant
        std::string norm = s; if (t == XBT_UNIX_TIME64_MSEC && s.size() == 24 && s[10] == 'T' && s[23] == 'Z') { norm[10] = ' '; norm.pop_back(); }
        h.check(back == norm, fmt("T02/%s/changes", TN(t)), "text '" + s + "' recognised as " + TN(t) + " reads back as '" + back + "'");
    });
    h.group_run("canonical-text-recognised", n / 6, [&](uint64_t, Rng& r) {
        static const XML_Binary_Type ts[] = {XBT_INT32, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO, XBT_INT64, XBT_UINT64, XBT_UINT32, XBT_IPv4, XBT_GUID, XBT_SHA1, XBT_UNIX_DATE, XBT_UNIX_TIME, XBT_UNIX_TIME64_MSEC};
        XML_Binary_Type t = ts[r.below(15)]; std::string s, v; canonical(t, r, s, v);
        XML_Binary_Type want = t;
        if (t == XBT_INT64 || t == XBT_UINT64 || t == XBT_UINT32 || t == XBT_INT32) {
            bool neg = s[0] == '-'; unsigned long long m = strtoull(s.c_str() + neg, 0, 10);
            if (neg) want = m <= 0x80000000ull ? XBT_INT32 : XBT_INT64; else want = m <= 0x7fffffffull ? XBT_INT32 : m <= 0xffffffffull ? XBT_UINT32 : m <= INT64_MAX ? XBT_INT64 : XBT_UINT64;
            if (want == XBT_UINT64 && s.size() > 19) { h.eval(); return; } // 20 digit numbers may stay texts
        }
        if (t == XBT_SHA1 && s.find_first_of("abcdef") == std::string::npos) { h.eval(); return; }
        h.desc("text \"" + s + "\"");
        CStr c(s); XML_Binary_Type g = XBT_Detect(c.p);
        h.distinct(s); h.sample(fmt("%s: ", TN(want)) + s);
        h.check(g == want, fmt("T02/%s/unrecognised", TN(want)), "canonical text '" + s + "' recognised as " + TN(g) + " instead of " + TN(want));
    });
    h.group_run("plain-strings-stay", n / 6, [&](uint64_t, Rng& r) {
        size_t len = 1 + r.below(30); std::string s; for (size_t i = 0; i < len; i++) s += "ghijklmnopqrsuvwyzGHIJKLMNOPQRSUVWY_/ "[r.below(38)];
        if (s.find_first_not_of(' ') == std::string::npos) s = "g";
        h.desc("text \"" + s + "\""); CStr c(s); h.distinct(s);
        XML_Binary_Type g = XBT_Detect(c.p); h.check(g == XBT_STRING, "T02/STRING/unkept", "'" + s + "' recognised as " + TN(g));
    });
    h.group_run("join", 1, [&](uint64_t, Rng&) {
        auto placeholder = [](int t) { return t == XBT_NULL || t == XBT_UNKNOWN || t == XBT_LAST; };
        auto scale = [](int t) { switch (t) { case XBT_INT32: return 0; case XBT_INT32_DECI: return 1; case XBT_INT32_CENTI: return 2; case XBT_INT32_MILI: return 3; case XBT_INT32_MICRO: return 6; case XBT_INT32_NANO: return 9; default: return -1; } };
        std::vector<XML_Binary_Type> ts; for (int i = 0; i <= XBT_LAST; i++) ts.push_back((XML_Binary_Type)i);
        for (auto a : ts) for (auto b : ts) {
            XML_Binary_Type j = XBT_JoinTypes(a, b), k = XBT_JoinTypes(b, a);
            std::string nm = fmt("%s + %s = %s", TN(a), TN(b), TN(j)); h.desc(nm);
            if (placeholder(a) && placeholder(b)) { h.check(placeholder(j), "T02/join/placeholder", nm); continue; }
            h.check(j == k, "T02/join/symmetric", nm + " but swapped " + TN(k)); h.distinct(nm);
            if (a == b) h.check(j == a, "T02/join/idempotent", nm);
            if (placeholder(a)) h.check(j == b, "T02/join/empty", nm);
            bool textual = a == XBT_STRING || b == XBT_STRING || a == XBT_BLOB_STRING || b == XBT_BLOB_STRING;
            if (textual) h.check(j == XBT_STRING || j == XBT_BLOB_STRING, "T02/join/text", nm);
            if (scale(a) >= 0 && scale(b) >= 0) h.check(scale(j) == std::max(scale(a), scale(b)) || j == XBT_VARIANT || j == XBT_STRING, "T02/join/scale", nm);
            auto num = [](int t) { return t == XBT_INT32 || t == XBT_INT64 || t == XBT_FLOAT || t == XBT_DOUBLE; };
            if (num(a) && num(b) && a != b) {
                bool fl = a == XBT_FLOAT || b == XBT_FLOAT || a == XBT_DOUBLE || b == XBT_DOUBLE, big = a == XBT_INT64 || b == XBT_INT64 || a == XBT_DOUBLE || b == XBT_DOUBLE;
                bool jfl = j == XBT_FLOAT || j == XBT_DOUBLE, jbig = j == XBT_INT64 || j == XBT_DOUBLE;
                h.check(j == XBT_VARIANT || j == XBT_STRING || ((!fl || jfl) && (!big || jbig)), "T02/join/number", nm);
            } else if (!textual && !placeholder(a) && !placeholder(b) && a != b && !(scale(a) >= 0 && scale(b) >= 0) && !(num(a) && num(b))) h.check(j == XBT_VARIANT || j == XBT_STRING, "T02/join/mixed", nm);
            for (auto c : ts) { if (placeholder(a) + placeholder(b) + placeholder(c) > 1) continue; XML_Binary_Type l = XBT_JoinTypes(XBT_JoinTypes(a, b), c), m = XBT_JoinTypes(a, XBT_JoinTypes(b, c)); h.check(l == m, "T02/join/associative", nm + fmt(" then %s: %s vs %s", TN(c), TN(l), TN(m))); }
        }
        h.sample("all pairs and triples of types");
    });
    h.group_run("detect2-joins", n / 6, [&](uint64_t, Rng& r) {
        std::string s = neartext(r); XML_Binary_Type e = (XML_Binary_Type)r.below(XBT_LAST); CStr c(s);
        h.desc("text \"" + s + "\" with " + TN(e));
        XML_Binary_Type g = XBT_Detect2(c.p, e); h.distinct(s + (char)e);
        h.check(g == (e == XBT_VARIANT ? XBT_VARIANT : XBT_JoinTypes(XBT_Detect(c.p), e)), "T02/detect2", "'" + s + "' with " + TN(e) + " gave " + TN(g));
    });
}

// ================================================================================== T03
static void t03() {
    uint64_t n = h.thorough ? 300000 : 16000;
    for (XML_Binary_Type t : TEXT_TYPES) h.group_run(fmt("capacity/%s", TN(t)), n, [&](uint64_t, Rng& r) {
        std::string text, val; canonical(t, r, text, val);
                std::string want = stored(t, val);
        CStr c(text);
        int announced = XBT_SizeFromString(c.p, t), total = XBT_Size2(t, announced), align = XBT_Align(t);
        h.desc(fmt("%s \"%s\"", TN(t), text.substr(0, 200).c_str()));
        h.check(total == (int)want.size(), fmt("T03/%s/announced", TN(t)), fmt("text '%s': announced %d bytes, a stored value takes %d", text.substr(0, 100).c_str(), total, (int)want.size()));
        h.distinct(text);
        int off = r.below(8);                        // every alignment of the write position
        int pad = align ? ((-off) & (align - 1)) : 0;
        int need = pad + (int)want.size();
        std::vector<int> rooms = {need, need + 1, need + (int)r.below(16), (int)r.below(need + 1), need - 1};
        for (int room : rooms) {
            if (room < 0) continue;
            Buf b(off + room); char* wp = b.p + off;
            h.desc(fmt("%s \"%s\" room=%d need=%d offset=%d", TN(t), text.substr(0, 200).c_str(), room, need, off));
            bool ok = XBT_FromString(c.p, t, &wp, b.p + off + room);
            if (room < need) h.check(!ok, fmt("T03/%s/overflow-accepted", TN(t)), fmt("conversion of '%s' into %d bytes (needs %d) reported success", text.substr(0, 100).c_str(), room, need));
            else {
                h.check(ok, fmt("T03/%s/refused-fitting", TN(t)), fmt("conversion of '%s' into %d bytes (needs %d) was refused", text.substr(0, 100).c_str(), room, need));
                if (ok) h.check(wp == b.p + off + need && memcmp(b.p + off + pad, want.data(), want.size()) == 0, fmt("T03/%s/wrote", TN(t)), fmt("conversion of '%s' wrote %d bytes instead of %d", text.substr(0, 100).c_str(), (int)(wp - b.p - off), need));
            }
            // copying a stored value
            int content = t == XBT_STRING || t == XBT_HEX ? (int)val.size() : 0;
            Buf src(want.size()); memcpy(src.p, want.data(), want.size());
            Buf d(off + room); char* w2 = d.p + off;
            bool ok2 = XBT_Copy(src.p, t, content, &w2, d.p + off + room);
            if (room < need) h.check(!ok2, fmt("T03/%s/copy-overflow", TN(t)), "copy into too small room reported success");
            else if (room >= (int)want.size() + align) h.check(ok2, fmt("T03/%s/copy-refused", TN(t)), fmt("copy into %d bytes (needs %d) refused", room, need));
            if (ok2 && room >= need) h.check(w2 == d.p + off + need && memcmp(d.p + off + pad, want.data(), want.size()) == 0, fmt("T03/%s/copied", TN(t)), fmt("copy of '%s' wrote %d bytes instead of %d, or other bytes", text.substr(0, 100).c_str(), (int)(w2 - d.p - off), need));
        }
        h.sample(text);
    });
    // text with spare room: length in front, the text, its end, all inside the announced size
    h.group_run("capacity/BLOB_STRING", h.thorough ? 60000 : 6000, [&](uint64_t i, Rng& r) {
        std::string text, val; if (i < 3000) text = std::string(i, 'a' + i % 26); else if (r.chance(30)) { size_t q = (size_t)(r.chance(50) ? 16 : 24) << r.below(15); text = std::string(q + r.range(-2, 1), 'q'); } else do canonical(XBT_STRING, r, text, val); while (text.empty());
        CStr c(text); int n = XBT_SizeFromString(c.p, XBT_BLOB_STRING), total = XBT_Size2(XBT_BLOB_STRING, n), off = r.below(8), pad = (-off) & 3; h.distinct(fmt("%zu", text.size())); h.desc(fmt("text of %zu bytes, announced %d, stored %d, offset %d", text.size(), n, total, off));
        h.check(n >= (int)text.size() && total >= 4 + (int)text.size() + 1 && total % 4 == 0, "T03/BLOB_STRING/announced", fmt("text of %zu bytes has announced size %d, stored %d", text.size(), n, total));
        if (total < 4 + (int)text.size() + 1) return; // said above
        int32_t cap = total - 4; Buf src(total); memset(src.p, 0, total); memcpy(src.p, &cap, 4); memcpy(src.p + 4, text.c_str(), text.size() + 1);
        for (int room : {pad + total, pad + total + 4 + (int)r.below(9), pad + total - 1 - (int)r.below(total)}) {
            Buf b(off + room); memset(b.p, 0x5a, off + room); char* wp = b.p + off; bool ok = XBT_Copy(src.p, XBT_BLOB_STRING, cap, &wp, b.p + off + room);
            if (room < pad + total) h.check(!ok, "T03/BLOB_STRING/copy-overflow", fmt("text of %zu bytes was copied into %d bytes", text.size(), room)); else if (room >= total + 4) h.check(ok, "T03/BLOB_STRING/copy-refused", fmt("copy of text of %zu bytes was refused in %d bytes", text.size(), room));
            if (!ok || room < pad + total) continue; std::string back, why;
            h.check(wp == b.p + off + pad + total && !memcmp(b.p + off + pad, src.p, total), "T03/BLOB_STRING/copied", fmt("copy of text of %zu bytes is other", text.size()));
            h.check(render(XBT_BLOB_STRING, b.p + off + pad, 300, back, why) && back == text, "T03/BLOB_STRING/read", "the stored text is read differently");
        }
        if (i > 3000) h.sample(fmt("%zu bytes", text.size()));
    });
    h.group_run("render-into-smallest-buffers", n, [&](uint64_t, Rng& r) {
        XML_Binary_Type t = r.chance(50) ? r.pick(TEXT_TYPES) : r.chance(50) ? XBT_BLOB : XBT_BLOB_STRING; std::string text, val;
        if (t == XBT_BLOB || t == XBT_BLOB_STRING) { val = rbytes(r, r.below(900)); if (t == XBT_BLOB_STRING) for (auto& c : val) if (!c) c = 1; } else canonical(t, r, text, val);
        std::string st = stored(t, val); Buf b(st.size()); memcpy(b.p, st.data(), st.size());
        int size = 257 + (r.chance(70) ? r.below(8) : r.below(5000));
        h.desc(fmt("%s %s buffer=%d", TN(t), hexs(val.data(), val.size()).c_str(), size)); h.distinct(st + (char)size);
        std::string out, why; h.check(render(t, b.p, size, out, why), fmt("T03/%s/render-buffer", TN(t)), why);
        (void)XBT_ToString(t, b.p);
        h.eval();
    });
    h.group_run("near-texts-stay-inside", n * 4, [&](uint64_t, Rng& r) {
        std::string s = neartext(r); size_t z = s.find('\0'); if (z != std::string::npos) s.resize(z);
        XML_Binary_Type t = (XML_Binary_Type)r.below(XBT_LAST); if (t == XBT_VARIANT || t == XBT_BLOB || t == XBT_UNKNOWN) t = XBT_HEX;
        int room = r.below(48); CStr c(s); Buf b(room); char* wp = b.p;
        h.desc(fmt("%s \"%s\" room=%d", TN(t), s.c_str(), room)); h.distinct(s + (char)t);
        bool ok = XBT_FromString(c.p, t, &wp, b.p + room);
        h.check(!ok || (wp >= b.p && wp <= b.p + room), "T03/limit", fmt("'%s' as %s: write position passed the limit", s.c_str(), TN(t)));
    });
}

// ================================================================================== T04
static void t04() {
    auto lens = [&](Rng& r, int buf) { int k; switch (r.below(5)) { case 0: k = r.below(70); break; case 1: k = 16 * r.below(40) + r.range(-1, 1); break; case 2: k = (buf - 1) * r.range(1, 3) + r.range(-3, 3); break; case 3: k = ((buf - 2) / 4) * 3 * r.range(1, 3) + r.range(-3, 3); break; default: k = r.below(9000); } return k < 0 ? 0 : k; };
    uint64_t n = h.thorough ? 120000 : 8000;
    for (XML_Binary_Type t : {XBT_STRING, XBT_BLOB_STRING, XBT_HEX, XBT_BLOB}) h.group_run(fmt("pieces/%s", TN(t)), n, [&](uint64_t, Rng& r) {
        int size = r.chance(40) ? 257 + r.below(6) : r.chance(50) ? 4097 : 257 + r.below(8000);
        int len = lens(r, size); std::string val = rbytes(r, len);
        if (t == XBT_STRING || t == XBT_BLOB_STRING) for (size_t i = 0; i < val.size(); i++) { val[i] = (char)(1 + (i * 7 + i / 251) % 255); if (r.chance(5)) val[i] = "<>&\""[r.below(4)]; }
        std::string st = stored(t, val); Buf b(st.size()); memcpy(b.p, st.data(), st.size());
        std::string want = t == XBT_HEX ? ref::hexlines(val) : t == XBT_BLOB ? ref::b64(val) : val;
        h.desc(fmt("%s of %d bytes through a buffer of %d", TN(t), len, size)); h.distinct(st + std::to_string(size)); if (len > size) h.sample(fmt("%s of %d bytes through a buffer of %d", TN(t), len, size));
        std::string out, why;
        if (!h.check(render(t, b.p, size, out, why), fmt("T04/%s/piece", TN(t)), why)) return;
        h.check(out == want, fmt("T04/%s/pieces", TN(t)), fmt("%d bytes through a buffer of %d: pieces give %d characters instead of %d", len, size, (int)out.size(), (int)want.size()));
        const char* w = XBT_ToString(t, b.p);
        h.check(std::string(w ? w : "") == want, fmt("T04/%s/whole", TN(t)), fmt("%d bytes: rendering at once gives %d characters instead of %d", len, (int)(w ? strlen(w) : 0), (int)want.size()));
        std::ostringstream o1, o2; XBT_ToStringStream(t, b.p, o1); XBT_ToXMLStream(t, b.p, o2);
        h.check(o1.str() == want, fmt("T04/%s/stream", TN(t)), fmt("%d bytes: stream got %d characters instead of %d", len, (int)o1.str().size(), (int)want.size()));
        h.check(o2.str() == ref::xmlesc(want), fmt("T04/%s/xmlstream", TN(t)), fmt("%d bytes: XML stream got %d characters instead of %d", len, (int)o2.str().size(), (int)ref::xmlesc(want).size()));
    });
    h.group_run("scalars", n, [&](uint64_t, Rng& r) {
        XML_Binary_Type t = r.pick(TEXT_TYPES); if (t == XBT_HEX || t == XBT_STRING) t = XBT_INT64;
        std::string text, val; canonical(t, r, text, val); Buf b(val.size()); memcpy(b.p, val.data(), val.size());
        int size = r.chance(50) ? 257 + r.below(4) : 4097; h.desc(fmt("%s %s buffer %d", TN(t), text.c_str(), size)); h.distinct(text + (char)t);
        std::string out, why; if (!h.check(render(t, b.p, size, out, why), fmt("T04/%s/piece", TN(t)), why)) return;
        std::ostringstream o1, o2; XBT_ToStringStream(t, b.p, o1); XBT_ToXMLStream(t, b.p, o2); const char* w = XBT_ToString(t, b.p);
        h.check(out == o1.str() && out == o2.str() && w && out == w, fmt("T04/%s/differ", TN(t)), fmt("pieces '%s' stream '%s' xml '%s' whole '%s'", out.c_str(), o1.str().c_str(), o2.str().c_str(), w ? w : "(null)"));
    });
}

// ================================================================================== T05
static bool scan_date(const std::string& s, int32_t& v, std::string& rest) { CStr c(s); const char* p = c.p; bool ok = ScanUnixDate(p, v); if (ok) rest = p; return ok; }
static bool scan_time(const std::string& s, uint32_t& v, std::string& rest) { CStr c(s); const char* p = c.p; bool ok = ScanUnixTime(p, v); if (ok) rest = p; return ok; }
static bool scan_time64(const std::string& s, int64_t& v, std::string& rest) { CStr c(s); const char* p = c.p; bool ok = ScanUnixTime64msec(p, v); if (ok) rest = p; return ok; }
static void t05() {
    int64_t years = 10000;
    h.group_run("every-day-0000-9999", years, [&](uint64_t y, Rng& r) {
        int64_t first = ref::days_from_civil(y, 1, 1); int n = 365 + ref::leap(y);
        h.distinct(std::to_string(y));
        for (int i = 0; i < n; i++) {
            int32_t v = (int32_t)(first + i); std::string want = ref::date(v), rest; h.desc(fmt("day %d = %s", v, want.c_str()));
            Buf b(40); char* s = UnixDate2Str(v, b.p);
            h.check(s && want == s, "T05/date/render", fmt("day %d rendered as '%s' instead of %s", v, s ? s : "(null)", want.c_str()));
            int32_t g = 0; bool ok = scan_date(want, g, rest);
            h.check(ok && g == v && rest.empty(), "T05/date/scan", fmt("%s scanned as %d (%s) instead of %d", want.c_str(), g, ok ? "ok" : "refused", v));
            if (y >= 1970 && y < 2106) { uint32_t t = 0; int sec = r.below(86400); std::string tx = want + " " + ref::tod(sec); ok = scan_time(tx, t, rest);
                h.check(ok && t == (uint32_t)((int64_t)v * 86400 + sec) && rest.empty(), "T05/time/scan", fmt("%s scanned as %u (%s) instead of %u", tx.c_str(), t, ok ? "ok" : "refused", (uint32_t)((int64_t)v * 86400 + sec))); }
        }
        if (y % 997 == 0) h.sample(fmt("all %d days of %d", n, (int)y));
    }, 60);
    h.group_run("seconds-of-a-day", 86400, [&](uint64_t s, Rng& r) {
        uint32_t day = (uint32_t)r.below(49710); uint32_t v = day * 86400 + (uint32_t)s; std::string want = ref::time32(v), rest; h.desc(want); h.distinct(want);
        uint32_t g = 0; bool ok = scan_time(want, g, rest); h.check(ok && g == v && rest.empty(), "T05/time/scan", fmt("%s scanned as %u instead of %u", want.c_str(), g, v));
        Buf b(4); memcpy(b.p, &v, 4); const char* t = XBT_ToString(XBT_UNIX_TIME, b.p); h.check(t && want == t, "T05/time/render", fmt("second %u rendered as '%s' instead of %s", v, t ? t : "(null)", want.c_str()));
        int64_t ms = (int64_t)v * 1000 + r.below(1000); std::string w64 = ref::time64(ms); int64_t g64 = 0; ok = scan_time64(w64, g64, rest);
        h.check(ok && g64 == ms && rest.empty(), "T05/time64/scan", fmt("%s scanned as %lld instead of %lld", w64.c_str(), (long long)g64, (long long)ms));
        Buf b8(8); memcpy(b8.p, &ms, 8); t = XBT_ToString(XBT_UNIX_TIME64_MSEC, b8.p); h.check(t && w64 == t, "T05/time64/render", fmt("%lld rendered as '%s' instead of %s", (long long)ms, t ? t : "(null)", w64.c_str()));
        if (s % 20000 == 0) h.sample(w64);
    });
    uint64_t n = h.thorough ? 1000000 : 60000;
    h.group_run("milliseconds-any-year", n, [&](uint64_t, Rng& r) {
        int64_t day = DAY0000 + (int64_t)r.below(DAY9999 - DAY0000 + 1); if (r.chance(40)) day = r.range(-800, 800); int64_t ms = day * 86400000 + (r.chance(30) ? (r.chance(50) ? 0 : 86399999) : r.below(86400000));
        std::string want = ref::time64(ms); h.desc(fmt("%lld = %s", (long long)ms, want.c_str())); h.distinct(want);
        Buf b(40); char* s = UnixTime642Str(ms, b.p); h.check(s && want == s, "T05/time64/str", fmt("%lld written as '%s' instead of %s", (long long)ms, s ? s : "(null)", want.c_str()));
        Buf b8(8); memcpy(b8.p, &ms, 8); const char* t = XBT_ToString(XBT_UNIX_TIME64_MSEC, b8.p); h.check(t && want == t, "T05/time64/render", fmt("%lld rendered as '%s' instead of %s", (long long)ms, t ? t : "(null)", want.c_str()));
        int64_t g = 0; std::string rest; bool ok = scan_time64(want, g, rest); // may be outside what the scanner supports, but never a wrong value
        h.check(!ok || (g == ms && rest.empty()), "T05/time64/scan", fmt("%s scanned as %lld instead of %lld", want.c_str(), (long long)g, (long long)ms));
        if (ms >= 0 && ms < 4294967296000ll) h.check(ok, "T05/time64/refused", want + " refused");
    });
    h.group_run("zones", n / 4, [&](uint64_t, Rng& r) {
        int64_t ms = (int64_t)r.below(4294880000ull) * 1000 + r.below(1000); if (r.chance(20)) ms = r.below(86400000);
        int hh = r.below(r.chance(80) ? 14 : 24), mm = r.chance(70) ? r.below(4) * 15 : r.below(60); if (ms < 86400000) { hh = 0; if (mm * 60000 > ms) mm = 0; } bool plus = r.chance(50), z = r.chance(25);
        std::string s = ref::time64(ms); s[10] = 'T'; if (r.chance(50)) for (int k = 1 + r.below(r.chance(70) ? 6 : 14); k > 0; k--) s += '0' + r.below(10); /* more decimals are cut */ if (z) s += "Z"; else s += fmt("%c%02d:%02d", plus ? '+' : '-', hh, mm);
        int64_t want = z ? ms : ms - (plus ? 1 : -1) * (hh * 60 + mm) * 60000ll; h.desc(s); h.distinct(s);
        int64_t g = 0; std::string rest; bool ok = scan_time64(s, g, rest); h.check(ok && g == want && rest.empty(), "T05/time64/zone", fmt("%s scanned as %lld (%s) instead of %lld", s.c_str(), (long long)g, ok ? "ok" : "refused", (long long)want)); h.sample(s);
    });
    h.group_run("impossible-dates", n, [&](uint64_t, Rng& r) {
        int y = r.chance(60) ? r.range(1970, 2105) : r.range(1, 9999), m = r.range(1, 12), d; std::string s; std::string rest; h.eval();
        int kind = r.below(4); bool time = y >= 1970 && y < 2106 && r.chance(50); int hh = r.below(24), mi = r.below(60), se = r.below(60);
        if (kind == 0) { d = r.chance(50) ? ref::mdays(y, m) + 1 + r.below(3) : 0; } else if (kind == 1) { m = r.chance(50) ? 0 : 13 + r.below(80); d = 1 + r.below(28); } else if (kind == 2) { d = 1 + r.below(28); time = true; y = r.range(1970, 2104); switch (r.below(3)) { case 0: hh = 24 + r.below(70); break; case 1: mi = 60 + r.below(40); break; default: se = 61 + r.below(39); } } else { d = 32 + r.below(60); }
        s = fmt("%04d-%02d-%02d", y, m, d); h.desc(s);
        if (!time) { int32_t g; h.distinct(s); h.check(!scan_date(s, g, rest), "T05/date/impossible", "impossible date " + s + " accepted"); uint32_t u; if (y >= 1970 && y < 2106) h.check(!scan_time(s + " 00:00:00", u, rest), "T05/time/impossible", "impossible date " + s + " accepted as time"); }
        else { s += fmt(" %02d:%02d:%02d", hh, mi, se); h.desc(s); h.distinct(s); uint32_t g; int64_t g6; h.check(!scan_time(s, g, rest), "T05/time/impossible", "impossible time " + s + " accepted"); h.check(!scan_time64(s + ".000", g6, rest), "T05/time64/impossible", "impossible time " + s + ".000 accepted"); }
        h.sample(s);
    });
}

// ================================================================================== T06
struct Val { XML_Binary_Type t; std::string st; std::string text; };
static Val cmpval(XML_Binary_Type t, Rng& r, const Val* near) {
    Val v; v.t = t; std::string text;
    if (near && r.chance(25)) return *near;
    if (t == XBT_FLOAT) { float f = (float)edge64(r) / (float)(1 << r.below(24)); if (f == 0) f = 0.f; v.st = raw(f); return v; }
    if (t == XBT_DOUBLE) { double f = (double)edge64(r) / (double)(1 << r.below(24)); if (f == 0) f = 0.; v.st = raw(f); return v; }
    if (t == XBT_STRING) { size_t n = r.below(6); for (size_t i = 0; i < n; i++) v.st += (char)(r.chance(50) ? 'a' + r.below(3) : 1 + r.below(255)); v.text = v.st; v.st += '\0'; return v; }
    canonical(t, r, v.text, v.st);
    if (t == XBT_GUID || t == XBT_SHA1) { if (near && r.chance(50)) { v.st = near->st; v.st[r.below(v.st.size())] ^= (char)(1 << r.below(8)); } }
    return v;
}
static int sgn(int64_t x) { return x < 0 ? -1 : x > 0; }
template<class T> static int cmp3(const std::string& a, const std::string& b) { T x, y; memcpy(&x, a.data(), sizeof x); memcpy(&y, b.data(), sizeof y); return x < y ? -1 : x > y; }
static int refcmp(XML_Binary_Type t, const Val& a, const Val& b) {
    switch (t) {
        case XBT_UINT32: case XBT_UNIX_TIME: case XBT_IPv4: return cmp3<uint32_t>(a.st, b.st);
        case XBT_INT64: case XBT_UNIX_TIME64_MSEC: return cmp3<int64_t>(a.st, b.st);
        case XBT_UINT64: return cmp3<uint64_t>(a.st, b.st);
        case XBT_FLOAT: return cmp3<float>(a.st, b.st); case XBT_DOUBLE: return cmp3<double>(a.st, b.st);
        case XBT_STRING: return sgn(strcmp(a.st.c_str(), b.st.c_str()));
        case XBT_GUID: case XBT_SHA1: return sgn(memcmp(a.st.data(), b.st.data(), a.st.size()));
        default: return cmp3<int32_t>(a.st, b.st);
    }
}
static void t06() {
    static const std::vector<XML_Binary_Type> ts = {XBT_INT32, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO, XBT_UINT32, XBT_INT64, XBT_UINT64, XBT_FLOAT, XBT_DOUBLE, XBT_STRING, XBT_GUID, XBT_SHA1, XBT_IPv4, XBT_UNIX_TIME, XBT_UNIX_DATE, XBT_UNIX_TIME64_MSEC};
    uint64_t n = h.thorough ? 300000 : 12000;
    for (XML_Binary_Type t : ts) h.group_run(fmt("order/%s", TN(t)), n, [&](uint64_t, Rng& r) {
        Val v[3]; v[0] = cmpval(t, r, 0); v[1] = cmpval(t, r, &v[0]); v[2] = cmpval(t, r, &v[1]);
        Buf b0(v[0].st.size()), b1(v[1].st.size()), b2(v[2].st.size()); Buf* b[3] = {&b0, &b1, &b2}; for (int i = 0; i < 3; i++) memcpy(b[i]->p, v[i].st.data(), v[i].st.size());
        std::string d = TN(t); for (auto& x : v) d += " " + hexs(x.st.data(), x.st.size()); h.desc(d); h.distinct(d); h.sample(d);
        int c[3][3];
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
            int raw_c = XBT_Compare(t, b[i]->p, v[i].st.size(), t, b[j]->p, v[j].st.size());
            h.check(raw_c != INT_MIN, fmt("T06/%s/uncomparable", TN(t)), "two values of one type reported as not comparable"); c[i][j] = sgn(raw_c);
            int w = refcmp(t, v[i], v[j]);
            h.check(c[i][j] == w, fmt("T06/%s/order", TN(t)), fmt("comparing %s with %s gave %d instead of %d", hexs(v[i].st.data(), v[i].st.size()).c_str(), hexs(v[j].st.data(), v[j].st.size()).c_str(), raw_c, w));
            XML_Binary_Data_Ref A, B; memset(&A, 0, sizeof A); memset(&B, 0, sizeof B); A.type = B.type = t; A.data = A.content = b[i]->p; B.data = B.content = b[j]->p; A.size = A.content_size = v[i].st.size(); B.size = B.content_size = v[j].st.size();
            h.check(XBT_Equal(A, B) == (w == 0), fmt("T06/%s/equal", TN(t)), fmt("equality of %s and %s is %d but they compare as %d", hexs(v[i].st.data(), v[i].st.size()).c_str(), hexs(v[j].st.data(), v[j].st.size()).c_str(), (int)XBT_Equal(A, B), w));
        }
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { h.check(c[i][j] == -c[j][i], fmt("T06/%s/antisymmetric", TN(t)), "antisymmetry"); for (int k = 0; k < 3; k++) if (c[i][j] <= 0 && c[j][k] <= 0) h.check(c[i][k] <= 0, fmt("T06/%s/transitive", TN(t)), "transitivity"); }
    });
    // a text is equal to a typed value exactly when it is that value's text
    h.group_run("equal-text-and-value", n, [&](uint64_t, Rng& r) {
        static const std::vector<XML_Binary_Type> tt = {XBT_INT32, XBT_INT64, XBT_UINT64, XBT_IPv4, XBT_SHA1, XBT_GUID, XBT_UNIX_TIME, XBT_UNIX_DATE, XBT_UNIX_TIME64_MSEC, XBT_INT32_CENTI};
        XML_Binary_Type t = r.pick(tt); std::string text, val, t2, v2; canonical(t, r, text, val); if (r.chance(50)) { t2 = text; v2 = val; } else canonical(t, r, t2, v2);
        CStr c(t2); Buf b(val.size()); memcpy(b.p, val.data(), val.size()); h.desc(fmt("%s %s vs text %s", TN(t), text.c_str(), t2.c_str())); h.distinct(text + "|" + t2);
        XML_Binary_Data_Ref A, B; memset(&A, 0, sizeof A); memset(&B, 0, sizeof B); A.type = t; A.data = A.content = b.p; A.size = A.content_size = val.size(); B.type = XBT_STRING; B.data = B.content = c.p; B.size = B.content_size = t2.size() + 1;
        h.check(XBT_Equal(A, B) == (val == v2), "T06/equal/text", fmt("%s value %s and text '%s'", TN(t), text.c_str(), t2.c_str()));
        h.check(XBT_Equal(B, A) == (val == v2), "T06/equal/text-swapped", fmt("text '%s' and %s value %s", t2.c_str(), TN(t), text.c_str()));
    });
    // the same for texts longer than any stack
    h.group_run("equal-long-text", h.thorough ? 24 : 6, [&](uint64_t i, Rng& r) {
        size_t n = (size_t)(5 + r.below(h.thorough ? 30 : 12)) << 20; n += r.below(4096); std::string val, text, st; bool same = i % 3 != 2; XML_Binary_Type t = i % 2 ? XBT_INT32 : XBT_HEX;
        if (t == XBT_HEX) { val.resize(n); for (size_t k = 0; k < n; k++) val[k] = (char)(k * 2654435761u >> 11); text = ref::hex(val); if (!same) val.back() ^= 1; st = stored(t, val); }
        else { int32_t v = edge32(r); text = std::to_string(v) + std::string(2 * n, 'x'); st = raw(v); same = false; }
        h.desc(fmt("%s against a text of %zu characters", TN(t), text.size())); h.distinct(fmt("%s/%d", TN(t), (int)same)); h.sample(fmt("%s, %zu characters", TN(t), text.size()));
        Buf b(st.size()); memcpy(b.p, st.data(), st.size()); CStr c(text);
        XML_Binary_Data_Ref A, B; memset(&A, 0, sizeof A); memset(&B, 0, sizeof B); A.type = t; A.data = b.p; A.size = st.size(); B.type = XBT_STRING; B.data = c.p; B.size = text.size() + 1;
        h.check(XBT_Equal(A, B) == same, "T06/equal/long-text", fmt("%s value and its text of %zu characters: equality %d", TN(t), text.size(), !same));
        h.check(XBT_Equal(B, A) == same, "T06/equal/long-text-swapped", fmt("text of %zu characters and %s value: equality %d", text.size(), TN(t), !same));
    });
}

int main(int argc, char** argv) {
    h.init(argc, argv);
    std::string prop; for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "--prop=", 7)) prop = argv[i] + 7;
    if (prop == "T01") t01(); else if (prop == "T02") t02(); else if (prop == "T03") t03(); else if (prop == "T04") t04(); else if (prop == "T05") t05(); else if (prop == "T06") t06(); else return 3;
    h.finish();
    return 0;
}
