// Model of a writable document (.xbw): an ordinary tree, the operations on it, and their application to the real one.
#pragma once
#include "tree.h"
#include <binary_xml/bin_write_plugin.h>
#include <deque>
#include <set>
namespace bwm {
using namespace tree;
typedef BW_plugin W_t;

struct Dict { std::vector<std::pair<std::string, int>> t[2]; };     // [0] tags, [1] attributes: name, type; number = position
struct M { int id; bool el; Value v; std::vector<M*> ch, at; M* up = nullptr; int32_t off = 0; };

static const int ATTR_TYPES[] = {XBT_NULL, XBT_STRING, XBT_STRING, XBT_BLOB, XBT_INT32, XBT_INT32, XBT_INT64, XBT_FLOAT, XBT_DOUBLE, XBT_HEX, XBT_GUID, XBT_SHA1, XBT_UNIX_TIME, XBT_IPv4, XBT_UINT64, XBT_UNIX_TIME64_MSEC, XBT_UINT32, XBT_UNIX_DATE, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO, XBT_BLOB_STRING};
static const int TAG_TYPES[] = {XBT_NULL, XBT_NULL, XBT_NULL, XBT_STRING, XBT_STRING, XBT_BLOB, XBT_INT32, XBT_INT32, XBT_INT64, XBT_FLOAT, XBT_DOUBLE, XBT_HEX, XBT_GUID, XBT_SHA1, XBT_UNIX_TIME, XBT_IPv4, XBT_UINT64, XBT_UNIX_TIME64_MSEC, XBT_UINT32, XBT_UNIX_DATE, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO, XBT_BLOB_STRING};
template<size_t N> static int pick(Rng& r, const int (&a)[N]) { return a[r.below(N)]; }
static bool is4(int t) { return t == XBT_INT32 || t == XBT_FLOAT || t == XBT_UNIX_TIME || t == XBT_IPv4 || t == XBT_UINT32 || t == XBT_UNIX_DATE || (t >= XBT_INT32_DECI && t <= XBT_INT32_NANO); }
static bool is8(int t) { return t == XBT_INT64 || t == XBT_DOUBLE || t == XBT_UINT64 || t == XBT_UNIX_TIME64_MSEC; }
static bool isvar(int t) { return t == XBT_BLOB || t == XBT_HEX || t == XBT_BLOB_STRING; }

static Dict rand_dict(Rng& r, int maxn, bool alltypes = false) {
    Dict d;
    for (int k = 0; k < 2; k++) {
        int n = 1 + r.below(maxn); if (k == 1 && r.chance(10)) n = 0;
        auto names = name_pool(r, n, ""); if (alltypes) while ((int)names.size() < 30) { auto more = name_pool(r, 30, "z"); for (auto& x : more) if (std::find(names.begin(), names.end(), x) == names.end()) names.push_back(x); }
        for (size_t i = 0; i < names.size(); i++) d.t[k].push_back({names[i], k ? (alltypes && i < sizeof ATTR_TYPES / sizeof(int) ? ATTR_TYPES[i] : pick(r, ATTR_TYPES)) : i == 0 ? XBT_NULL : alltypes && i < sizeof TAG_TYPES / sizeof(int) ? TAG_TYPES[i] : pick(r, TAG_TYPES)});
    }
    return d;
}
// every way to describe the document to be opened: all at once, or one thing after another, in any order and more than once
static W_t* open_doc(Rng r, const std::string& p, int size, uint32_t flags = 0) {
    if (r.chance(60)) { vh::CStr c(p); return new W_t(c.p, nullptr, size, flags); }
    bool f = r.chance(70), z = r.chance(70), g = r.chance(70); vh::CStr c(p); size_t d = p.rfind('.'); vh::CStr base(r.chance(50) ? p.substr(0, d) : p.substr(0, d) + ".old");
    W_t* W = z ? new W_t(f ? nullptr : c.p, nullptr, r.chance(50) ? 0 : 0x4000 + (int)r.below(0x400000), g ? flags ^ BIN_WRITE_CFG_ALWAYS_CREATE_NEW : flags) : new W_t(f ? nullptr : c.p, nullptr, size, g ? flags ^ BIN_WRITE_CFG_ALWAYS_CREATE_NEW : flags);
    for (int k = r.below(3), i = 0; i < 3; i++, k = (k + 1) % 3) { if (k == 0 && f) { if (r.chance(30)) W->setFilename("/nonexistent/other", ".xbw"); if (r.chance(50)) W->setFilename(base.p, ".xbw"); else W->setFilenameFmt("%s", c.p); } if (k == 1 && z) W->setMaxPoolSize(size); if (k == 2 && g) W->setFlags(flags); }
    return W;
}
// ---------------------------------------------------------------------------------------- dictionary
enum { REG_ID, REG_NAME, REG_ID_MIXED, REG_NAME_MIXED, REG_N };
static bool reg1(W_t* W, const Dict& d, int k, int i, bool by_id) {
    vh::CStr n(d.t[k][i].first); XML_Binary_Type t = (XML_Binary_Type)d.t[k][i].second;
    if (by_id) return k ? W->registerAttr(i, n.p, t) : W->registerTag(i, n.p, t);
    return (k ? (int)W->registerParam(n.p, t) : (int)W->registerTag(n.p, t)) == i;
}
static bool reg(W_t* W, const Dict& d, int how, Rng r, int limit = 1 << 30) {
    bool by_id = how == REG_ID || how == REG_ID_MIXED; size_t a = 0, b = 0; bool ok = true; int n = 0;
    while ((a < d.t[0].size() || b < d.t[1].size()) && n++ < limit) {
        bool tag = a < d.t[0].size() && (how < REG_ID_MIXED || a == 0 || b >= d.t[1].size() || r.chance(50));
        if (tag) ok = reg1(W, d, 0, a, by_id) && ok, a++; else ok = reg1(W, d, 1, b, by_id) && ok, b++;
    }
    return ok;
}
static std::string check_dict(W_t* W, const Dict& d) {
    BW_pool* p = W->getPool();
    for (int k = 0; k < 2; k++) {
        int mx = k ? p->params.max_id : p->tags.max_id; if (mx != (int)d.t[k].size() - 1) return vh::fmt("%s: highest number is %d and should be %d", k ? "attributes" : "tags", mx, (int)d.t[k].size() - 1);
        if (W->getSymbolCount(k ? SYMBOL_TABLE_PARAMS : SYMBOL_TABLE_NODES) != mx + 1) return "getSymbolCount";
        for (int i = 0; i <= mx; i++) {
            const char* n = k ? p->getAttrName(i) : p->getTagName(i); int t = k ? p->getAttrType(i) : p->getTagType(i);
            if (!n || d.t[k][i].first != n || t != d.t[k][i].second) return vh::fmt("%s %d is %s (type %d) and should be %s (type %d)", k ? "attribute" : "tag", i, n ? n : "(null)", t, d.t[k][i].first.c_str(), d.t[k][i].second);
            XML_Binary_Type st; const char* sn = W->getSymbol(k ? SYMBOL_TABLE_PARAMS : SYMBOL_TABLE_NODES, i, st); if (!sn || n != std::string(sn) || st != t) return "getSymbol differs";
            BW_offset_t o = 0; XML_Binary_Type gt = XBT_LAST; int g = (k ? p->params : p->tags).getByName(p, n, &o, &gt); if (g != i || gt != t) return vh::fmt("getByName(%s) is %d", n, g);
        }
    }
    return "";
}
// ---------------------------------------------------------------------------------------- creation
static XML_Binary_Data_Ref ref_of(const Value& v, std::vector<uint64_t>& keep) {
    keep.assign(v.raw.size() / 8 + 2, 0); char* p = (char*)keep.data(); memcpy(p, v.raw.data(), v.raw.size());
    XML_Binary_Data_Ref R; R.type = (XML_Binary_Type)v.type; R.data = p; R.size = v.raw.size(); R.content = isvar(v.type) ? p + 4 : p; R.content_size = isvar(v.type) ? R.size - 4 : R.size; return R;
}
static XML_Binary_Data_Ref text_ref(const Value& v, std::vector<uint64_t>& keep) { Value s; s.type = XBT_STRING; s.raw = text_of(v) + '\0'; return ref_of(s, keep); }
static int32_t i32(const Value& v) { int32_t x = 0; memcpy(&x, v.raw.data(), 4); return x; }
static int64_t i64(const Value& v) { int64_t x = 0; memcpy(&x, v.raw.data(), 8); return x; }
static bool from_text(const Value& v) { // values that a text carries exactly
    if (v.type == XBT_UNIX_TIME64_MSEC) { int64_t t = i64(v); return t >= 0 && t < 4294967296000ll; }
    switch (v.type) { case XBT_HEX: return v.raw.size() > 4; case XBT_INT32_DECI: case XBT_INT32_CENTI: case XBT_INT32_MILI: case XBT_INT32_MICRO: case XBT_INT32_NANO: case XBT_INT32: case XBT_UINT32: case XBT_INT64: case XBT_UINT64: case XBT_GUID: case XBT_SHA1: case XBT_IPv4: case XBT_UNIX_TIME: case XBT_UNIX_DATE: return true; } return false;
}
static std::string txt(const Value& v) { return v.type == XBT_STRING ? std::string(v.raw.c_str()) : std::string(v.raw.data() + 4, strnlen(v.raw.data() + 4, v.raw.size() - 4)); }
// method 0.. chooses among ways that can store the value
static BW_element* mk(W_t* W, int id, const Value& v, unsigned method) {
    std::vector<uint64_t> keep; XML_Binary_Data_Ref R = ref_of(v, keep); BW_pool* p = W->getPool(); unsigned m = method % 4;
    if (m == 3) { if (v.type == XBT_NULL) { R.data = nullptr; R.size = 0; } return W->tagData(id, R); }
    if (m == 2 && from_text(v)) { R = text_ref(v, keep); const XML_Binary_Data_Ref R0 = R; BW_element* x = W->tagData(id, R); if (memcmp(&R0, &R, sizeof R)) { fprintf(stderr, "tagData changed data of its caller\n"); return nullptr; } return x; }
    switch (v.type) {
        case XBT_NULL: return m == 1 && p->getTagType(id) == XBT_NULL ? p->tag(id) : W->tag(id);
        case XBT_STRING: { vh::CStr s(txt(v)); return m == 0 ? W->tagStr(id, s.p) : m == 1 ? p->tagString(id, s.p) : p->tagAny(id, XBT_STRING, s.p, v.raw.size()); }
        case XBT_BLOB_STRING: { vh::CStr s(txt(v)); return W->tagStr(id, s.p); }
        case XBT_BLOB: case XBT_HEX: { vh::Buf b(v.raw.size() - 4); memcpy(b.p, v.raw.data() + 4, v.raw.size() - 4); return v.type == XBT_BLOB ? W->tagBLOB(id, b.p, v.raw.size() - 4) : W->tagHEX(id, b.p, v.raw.size() - 4); }
        case XBT_INT64: return m ? p->tagInt64(id, i64(v)) : W->tagInt64(id, i64(v));
        case XBT_UNIX_TIME64_MSEC: return m ? p->tagInt64(id, i64(v)) : W->tagTime64(id, i64(v));
        case XBT_GUID: return W->tagGUID(id, (GUID_t*)keep.data());
        case XBT_SHA1: return m ? p->tagSHA1(id, (uint8_t*)keep.data()) : W->tagSHA1(id, (uint8_t*)keep.data());
        case XBT_UNIX_TIME: return m ? p->tagTime(id, (uint32_t)i32(v)) : W->tagTime(id, (uint32_t)i32(v));
        case XBT_FLOAT: if (m == 0) { float f; memcpy(&f, v.raw.data(), 4); return W->tagFloat(id, f); }
    }
    if (is8(v.type)) return p->tagInt64(id, i64(v));
    return m ? p->tagInt32(id, i32(v)) : W->tagInt32(id, i32(v));
}
static bool mkattr(BW_element* E, int id, const Value& v, unsigned method) {
    std::vector<uint64_t> keep; XML_Binary_Data_Ref R = ref_of(v, keep); unsigned m = method % 4; BW_element* x = nullptr;
    if (v.type == XBT_NULL) return E->attrNull(id) == E;
    if (m == 3) return E->attrData(id, R) == E;
    if (m == 2 && from_text(v)) { R = text_ref(v, keep); return E->attrData(id, R) == E; }
    switch (v.type) {
        case XBT_STRING: { vh::CStr s(txt(v)); x = m ? E->attrStr(id, s.p) : E->attrStr2(id, s.p, s.p + v.raw.size() - 1); break; }
        case XBT_BLOB: case XBT_HEX: { vh::Buf b(v.raw.size() - 4); memcpy(b.p, v.raw.data() + 4, v.raw.size() - 4); x = v.type == XBT_BLOB ? E->attrBLOB(id, b.p, v.raw.size() - 4) : E->attrHEX(id, b.p, v.raw.size() - 4); break; }
        case XBT_INT32: { BW_element* a = nullptr; x = E->attrInt32(id, i32(v), m ? &a : nullptr); if (m && x && !(a && a->identification == id)) return false; break; }
        case XBT_UINT32: x = E->attrUInt32(id, (uint32_t)i32(v)); break;
        case XBT_INT64: x = E->attrInt64(id, i64(v)); break;
        case XBT_UINT64: x = m ? E->attrInt64(id, i64(v)) : E->attrUInt64(id, (uint64_t)i64(v)); break;
        case XBT_FLOAT: { float f; memcpy(&f, v.raw.data(), 4); x = E->attrFloat(id, f); break; }
        case XBT_DOUBLE: { double f; memcpy(&f, v.raw.data(), 8); x = E->attrDouble(id, f); break; }
        case XBT_GUID: x = E->attrGUID(id, (char*)keep.data()); break;
        case XBT_SHA1: x = E->attrSHA1(id, (char*)keep.data()); break;
        case XBT_UNIX_TIME: x = E->attrTime(id, (uint32_t)i32(v)); break;
        case XBT_UNIX_TIME64_MSEC: x = m ? E->attrInt64(id, i64(v)) : E->attrTime64(id, i64(v)); break;
        default: x = E->attrData(id, R);
    }
    return x == E;
}
static bool same(BW_element* E, const Value& v) {
    if (E->value_type != v.type) return false;
    XML_Binary_Data_Ref R = E->getData(); const char* d = E->BWD();
    if (v.type == XBT_NULL) return true;
    if (R.type != v.type || R.data != d) return false;
    if (v.type == XBT_BLOB_STRING) { int32_t c; memcpy(&c, d, 4); std::string t = txt(v); return c > (int)t.size() && strlen(d + 4) == t.size() && !memcmp(d + 4, t.data(), t.size()) && R.size == c + 4 && R.content == d + 4; }
    return R.size == (int)v.raw.size() && !memcmp(d, v.raw.data(), v.raw.size());
}
// ---------------------------------------------------------------------------------------- whole document against model
struct Doc {
    Dict d; M* root = nullptr; std::deque<M> all; std::vector<M*> loose;       // loose: detached, to be inserted again
    M* node(int id, bool el, const Value& v) { all.emplace_back(); M* m = &all.back(); m->id = id; m->el = el; m->v = v; return m; }
    void collect(M* m, std::vector<M*>& o) { o.push_back(m); for (M* c : m->ch) collect(c, o); }
    std::vector<M*> nodes() { std::vector<M*> o; if (root) collect(root, o); return o; }
};
struct Used { int64_t b, e; std::string who; bool operator<(const Used& o) const { return b < o.b; } };
static thread_local std::vector<Used> g_used; static thread_local const Dict* g_dict;
static int type_of(const Dict& d, int k, int id) { if (id >= 0) return d.t[k][id].second; if (k == 0) return XBT_NULL; switch (id) { case XPNR_NAME: return XBT_STRING; case XPNR_HASH: return XBT_SHA1; case XPNR_MODIFIED: return XBT_UNIX_TIME; case XPNR_AUTHOR: return XBT_INT64; case XPNR_TIME_MS: return XBT_UNIX_TIME64_MSEC; case XPNR_NULL: return XBT_NULL; } return XBT_INT32; }
static std::string name_of(const Dict& d, int k, int id) { if (id >= 0) return d.t[k][id].first; if (k == 0) return id == XTNR_TRANSACTION ? "transaction" : id == XTNR_ET_TECERA ? "et-tecera" : "?"; switch (id) { case XPNR_NAME: return "name"; case XPNR_HASH: return "hash"; case XPNR_MODIFIED: return "modified"; case XPNR_COUNT: return "count"; case XPNR_FORMAT_VERSION: return "version"; case XPNR_TYPE_COUNT: return "type_count"; case XPNR_ID: return "id"; case XPNR_AUTHOR: return "author"; case XPNR_TIME_MS: return "time_ms"; } return "?"; }
static std::string cmp_ring(W_t* W, BW_element* P, M* m, bool el, bool link, std::set<int32_t>& seen);
static std::string cmp(W_t* W, int32_t off, M* m, bool link, std::set<int32_t>& seen) {
    BW_pool* p = W->getPool(); std::string who = vh::fmt("%s %d at +%d", m->el ? "element" : "attribute", m->id, off);
    if (off < (int)sizeof(BW_pool) || off + (int)sizeof(BW_element) > p->allocator || (off & 3)) return who + " is outside of the document";
    if (!seen.insert(off).second) return who + " is linked twice";
    BW_element* E = W->BWE(off); if (E->offset != off) return who + vh::fmt(" says it is at +%d", E->offset);
    if (E->identification != m->id) return who + vh::fmt(" has number %d", E->identification);
    if (!!(E->flags & BIN_WRITE_ELEMENT_FLAG) != m->el) return who + " has wrong flags";
    if (!link && m->off && m->off != off) return who + vh::fmt(" was at +%d", m->off);
    m->off = off;
    if (E->value_type == m->v.type && m->v.type != XBT_NULL && m->v.type != XBT_STRING) { XML_Binary_Data_Ref R = E->getData(); if (R.size < 0 || (int64_t)off + 24 + R.size > p->allocator) return who + " has value outside of the document"; }
    if (is8(E->value_type) && (off & 7)) return who + " is not aligned";
    if (!same(E, m->v)) { XML_Binary_Data_Ref R = E->getData(); return who + vh::fmt(": value is type %d %s and should be type %d ", E->value_type, R.data ? vh::hexs(R.data, std::min(40, std::max(0, R.size))).c_str() : "-", m->v.type) + vh::hexs(m->v.raw.data(), m->v.raw.size(), 40); }
    { const char* n = E->getName(); if (!n || n != name_of(*g_dict, m->el ? 0 : 1, m->id)) return who + " has name " + (n ? n : "(null)"); }
    g_used.push_back({off, off + 24 + std::max(0, E->getData().size), who});
    std::string s = cmp_ring(W, E, m, true, link, seen); if (s.empty()) s = cmp_ring(W, E, m, false, link, seen);
    return s;
}
static std::string cmp_ring(W_t* W, BW_element* P, M* m, bool el, bool link, std::set<int32_t>& seen) {
    auto& L = el ? m->ch : m->at; int32_t first = el ? P->first_child : P->first_attribute, o = first; std::string who = vh::fmt("%s of %d at +%d: ", el ? "children" : "attributes", m->id, P->offset);
    if (L.empty()) return first == 0 ? "" : who + "should be none";
    if (first == 0) return who + vh::fmt("none but should be %d", (int)L.size());
    for (size_t i = 0; i < L.size(); i++) {
        std::string s = cmp(W, o, L[i], link, seen); if (!s.empty()) return s;
        BW_element* E = W->BWE(o); int32_t n = E->next;
        if (n < (int)sizeof(BW_pool) || n + 24 > W->getPool()->allocator) return who + vh::fmt("link to +%d", n);
        if (W->BWE(n)->prev != o) return who + vh::fmt("back link of +%d is +%d and not +%d", n, W->BWE(n)->prev, o);
        if ((n == first) != (i + 1 == L.size())) return who + vh::fmt("%s than %d", n == first ? "fewer" : "more", (int)L.size());
        o = n;
    }
    return "";
}
static std::string compare_content(W_t* W, Doc& D, bool link = false);
static std::string compare(W_t* W, Doc& D, bool link = false) {
    BW_pool* p = W->getPool();
    if (p->allocator > p->allocator_limit || p->allocator_limit > (int64_t)p->file_size || p->file_size > p->mmap_size) return vh::fmt("limits of pool: %d %d %u %u", p->allocator, p->allocator_limit, p->file_size, p->mmap_size);
    struct stat st; if (fstat(W->getFd(), &st) || st.st_size != (off_t)p->file_size) return vh::fmt("file has %ld bytes, pool says %u", (long)st.st_size, p->file_size);
    return compare_content(W, D, link);
}
static std::string compare_content(W_t* W, Doc& D, bool link) {
    BW_pool* p = W->getPool();
    std::set<int32_t> seen; std::string s; g_used.clear(); g_dict = &D.d;
    if (!D.root) { if (p->root || W->getRoot()) return "document should be empty"; }
    else {
        if (p->root == 0) return "document is empty";
        if (W->getRoot() != W->BWE(p->root)) return "getRoot";
        s = cmp(W, p->root, D.root, link, seen);
    }
    if (s.empty() && !link) for (M* l : D.loose) { s = cmp(W, l->off, l, link, seen); if (!s.empty()) { s = "detached: " + s; break; } }
    if (!s.empty()) return s;
    // nothing shares a place
    for (int k = 0; k < 2; k++) { BW_symbol_table_16B& t = k ? p->params : p->tags; if (t.max_id < 0) continue; int64_t e = t.names_offset; for (auto& x : D.d.t[k]) e = (e + 3 + x.first.size() + 1 + 3) / 4 * 4; g_used.push_back({t.names_offset, e, k ? "names of attributes" : "names of tags"}); if (t.index) g_used.push_back({t.index, t.index + 4 * (t.max_id + 1), k ? "index of attributes" : "index of tags"}); }
    std::sort(g_used.begin(), g_used.end());
    for (size_t i = 0; i < g_used.size(); i++) { if (g_used[i].b < (int)sizeof(BW_pool) || g_used[i].e > p->allocator) return g_used[i].who + " is outside of the document"; if (i && g_used[i].b < g_used[i - 1].e) return g_used[i].who + " overlaps " + g_used[i - 1].who; }
    return "";
}
static std::unique_ptr<Node> to_tree(const Dict& d, M* m) {
    std::unique_ptr<Node> n(new Node); n->name = name_of(d, 0, m->id); n->v = m->v; for (M* a : m->at) n->attrs.push_back({name_of(d, 1, a->id), a->v});
    for (M* c : m->ch) { n->ch.push_back(to_tree(d, c)); n->ch.back()->parent = n.get(); } return n;
}
static std::string show(M* m, int deep = 0) { std::string s = std::string(deep, ' ') + vh::fmt("%d:t%d", m->id, m->v.type); for (M* a : m->at) s += vh::fmt(" @%d", a->id); s += "\n"; for (M* c : m->ch) s += show(c, deep + 1); return s; }
} // namespace bwm
