// Changes of the dictionary of a writable document: names registered again, types altered.
#pragma once
#include "xbwed.h"
namespace bwm {
static bool ref_convertible(int s, int d) { // the pairs that lose nothing
    if (s == d) return true;
    switch (d) { case XBT_STRING: return s != XBT_BLOB && s != XBT_HEX; case XBT_BLOB: case XBT_BLOB_STRING: return true; case XBT_INT32: return s == XBT_UNIX_TIME || s == XBT_UNIX_DATE; }
    return false;
}
static int ref_join(int a, int b) { // the narrowest type that holds both
    for (int t : {XBT_BLOB_STRING, XBT_STRING}) if (a == t || b == t) return t;
    if (a == XBT_NULL) return b; if (b == XBT_NULL || a == b) return a;
    auto dec = [](int t) { return t == XBT_INT32 ? 0 : t >= XBT_INT32_DECI && t <= XBT_INT32_NANO ? t - XBT_INT32_DECI + 1 : -1; };
    if (dec(a) >= 0 && dec(b) >= 0) { int m = std::max(dec(a), dec(b)); return m ? XBT_INT32_DECI + m - 1 : XBT_INT32; }
    auto num = [](int t) { return t == XBT_INT32 ? 0 : t == XBT_FLOAT ? 1 : t == XBT_INT64 ? 2 : t == XBT_DOUBLE ? 3 : -1; };
    if (num(a) >= 0 && num(b) >= 0) { static const int N[] = {XBT_INT32, XBT_FLOAT, XBT_INT64, XBT_DOUBLE}; return N[num(a) | num(b)]; }
    return XBT_VARIANT;
}
static std::string bytes_of(W_t* W) { BW_pool* p = W->getPool(); return std::string((const char*)p, p->file_size); }
// one change of the dictionary; only the byte of the type may change
static std::string evolve(W_t* W, Doc& D, Rng& r, std::string& what, uint64_t n[4]) {
    int k = r.below(2); if (D.d.t[k].empty()) k = 0; int c = D.d.t[k].size(), id = r.below(c), old = D.d.t[k][id].second, nt = k ? pick(r, ATTR_TYPES) : pick(r, TAG_TYPES); BW_pool* p = W->getPool(); if (r.chance(15)) nt = old;
    BW_offset_t o = 0; XML_Binary_Type gt; (k ? p->params : p->tags).getByName(p, D.d.t[k][id].first.c_str(), &o, &gt); int want = old; std::string before = bytes_of(W), e;
    if (r.chance(50)) {
        want = ref_join(nt, old); if (want == XBT_VARIANT) { what = ""; return ""; } what = vh::fmt(" register %s %d again as t%d over t%d", k ? "attribute" : "tag", id, nt, old);
        vh::CStr s(D.d.t[k][id].first); int g = k ? (int)W->registerParam(s.p, (XML_Binary_Type)nt) : (int)W->registerTag(s.p, (XML_Binary_Type)nt); n[want == old ? 0 : 1]++; if (g != id) return vh::fmt("name %d registered again got number %d", id, g);
    } else {
        int q = id; bool ok; if (r.chance(12)) q = r.chance(50) ? c + (int)r.below(5) : -1 - (int)r.below(12); ok = q == id && ref_convertible(old, nt); if (r.chance(4)) { ok = false; nt = XBT_LAST + r.below(20); }
        what = vh::fmt(" alter %s %d to t%d from t%d", k ? "attribute" : "tag", q, nt, old); bool g = k ? W->alterAttr(q, (XML_Binary_Type)nt) : W->alterTag(q, (XML_Binary_Type)nt); n[ok ? 2 : 3]++; if (g != ok) return ok ? "allowed change was refused" : "change that loses something was accepted"; if (ok) want = nt;
    }
    if (p != W->getPool()) return "document moved"; std::string after = bytes_of(W); before[o + 2] = (char)want; D.d.t[k][id].second = want;
    if (before != after) { size_t i = 0; while (i < before.size() && i < after.size() && before[i] == after[i]) i++; return vh::fmt("byte %d of document differs (type is at %d)", (int)i, o + 2); }
    return "";
}
} // namespace bwm
