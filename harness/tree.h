// Reference tree, random generator of typed trees, and a source plugin that feeds them to the real creator.
#pragma once
#include "vh.h"
#include "ref.h"
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_creator.h>
#include <binary_xml/bin_xml_packer.h>
#include <binary_xml/bin_xml_types.h>
#include <memory>
#include <algorithm>
namespace tree {
using namespace pklib_xml;
using vh::Rng;

// value: type and stored image (strings with terminator, blobs with length prefix)
struct Value {
    int type = XBT_NULL; std::string raw;
    bool operator==(const Value& o) const { return type == o.type && raw == o.raw; }
};
struct Attr { std::string name; Value v; };
struct Node { std::string name; Value v; std::vector<Attr> attrs; std::vector<std::unique_ptr<Node>> ch; Node* parent = nullptr; bool named = true; };

static inline std::string le32(uint32_t v) { return std::string((char*)&v, 4); }
static inline std::string le64(uint64_t v) { return std::string((char*)&v, 8); }
static const int STORABLE[] = {XBT_NULL, XBT_STRING, XBT_BLOB, XBT_INT32, XBT_INT64, XBT_FLOAT, XBT_DOUBLE, XBT_HEX, XBT_GUID, XBT_SHA1, XBT_UNIX_TIME, XBT_IPv4, XBT_UINT64, XBT_UNIX_TIME64_MSEC, XBT_UINT32, XBT_UNIX_DATE, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO, XBT_BLOB_STRING};
static const int NSTORABLE = sizeof STORABLE / sizeof *STORABLE;

static inline std::string rand_text(Rng& r, size_t maxlen) {
    static const char* W[] = {"a", "B", " ", "0", "-", "&", "<", ">", "\"", "'", "\xc3\xa9", "\xe2\x82\xac", "xyz", "\n", "\t", ".", "123", "]]>", "\xf0\x9f\x98\x80", "&#65;", "&lt;", "&#x26;", "#", ";", "--", "?>", "/>"};
    std::string s; size_t n = r.below(maxlen + 1);
    while (s.size() < n) {
        if (r.chance(12)) s += (char)(32 + r.below(95));
        else if (r.chance(4)) { // any other character
            uint32_t c = r.chance(40) ? 0x80 + r.below(0x780) : r.chance(70) ? 0x800 + r.below(0xd000) : r.chance(40) ? 0xe000 + r.below(0x1ffe) : 0x10000 + r.below(0x100000);
            if (c < 0x800) { s += (char)(0xc0 | c >> 6); } else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); } else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); }
            s += (char)(0x80 | (c & 63));
        }
        else s += W[r.below(sizeof W / sizeof *W)];
    }
    return s;
}
static inline int blob_string_capacity(int len) { // capacity classes of BLOB_STRING storage (any capacity > len is legal for a reader)
    int c = 16; while (c < len + 1) c = c + (c >> 1); return (c + 3) & ~3;
}
static inline Value rand_value(Rng& r, int type, size_t maxlen = 40) {
    Value v; v.type = type;
    switch (type) {
        case XBT_NULL: break;
        case XBT_STRING: v.raw = rand_text(r, maxlen) + '\0'; break;
        case XBT_BLOB: case XBT_HEX: { size_t n = r.below(maxlen + 1); std::string d; for (size_t i = 0; i < n; i++) d += (char)r.next(); v.raw = le32(n) + d; break; }
        case XBT_BLOB_STRING: { std::string t = rand_text(r, maxlen); int c = blob_string_capacity(t.size()); v.raw = le32(c) + t + std::string(c - t.size(), '\0'); break; }
        case XBT_GUID: for (int i = 0; i < 16; i++) v.raw += (char)r.next(); break;
        case XBT_SHA1: for (int i = 0; i < 20; i++) v.raw += (char)r.next(); break;
        case XBT_FLOAT: { float f = r.chance(50) ? (float)((int)r.range(-100000, 100000)) / 8 : (float)r.range(-9, 9) * 1e10f; v.raw = std::string((char*)&f, 4); break; }
        case XBT_DOUBLE: { double f = r.chance(50) ? (double)((int64_t)r.next() >> 20) / 1024 : (double)r.range(-9, 9) * 1e100; v.raw = std::string((char*)&f, 8); break; }
        case XBT_UNIX_TIME64_MSEC: v.raw = le64((uint64_t)((int64_t)(r.next() % 8000000000000ull) - 1000000000000ll)); break;
        case XBT_UNIX_DATE: v.raw = le32((uint32_t)r.below(60000)); break;
        case XBT_UNIX_TIME: v.raw = le32(r.chance(5) ? 0xffffffffu - r.below(3) : r.chance(5) ? r.below(3) : r.chance(30) ? (uint32_t)r.next() : (uint32_t)r.below(0x7fffffff)); break;
        case XBT_INT64: case XBT_UINT64: { if (r.chance(6)) { static const uint64_t X[] = {0, 1, ~0ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xffffffff80000000ull, 0x100000000ull}; v.raw = le64(X[r.below(8)]); break; } uint64_t x = r.next() >> r.below(64); if (type == XBT_INT64 && r.chance(40)) x = -x; v.raw = le64(x); break; }
        default: { if (r.chance(6)) { static const uint32_t X[] = {0, 1, 0xffffffffu, 0x7fffffff, 0x80000000u, 0x80000001u, 999999999, (uint32_t)-999999999, 0xf8000000u}; v.raw = le32(X[r.below(9)]); break; }
                   uint32_t x = (uint32_t)r.next() >> r.below(32); if (r.chance(40)) x = -x; v.raw = le32(x); break; }
    }
    return v;
}
// text of a value, computed without the library
static inline std::string text_of(const Value& v) {
    const char* p = v.raw.data(); int32_t i = 0; int64_t l = 0; if (v.raw.size() >= 4) memcpy(&i, p, 4); if (v.raw.size() >= 8) memcpy(&l, p, 8);
    char b[512];
    switch (v.type) {
        case XBT_NULL: return "";
        case XBT_STRING: return std::string(p);
        case XBT_BLOB: return ref::b64(v.raw.substr(4));
        case XBT_HEX: return ref::hexlines(v.raw.substr(4));
        case XBT_BLOB_STRING: return std::string(p + 4, strnlen(p + 4, i));
        case XBT_INT32: snprintf(b, sizeof b, "%d", i); return b;
        case XBT_UINT32: snprintf(b, sizeof b, "%u", (uint32_t)i); return b;
        case XBT_INT64: snprintf(b, sizeof b, "%lld", (long long)l); return b;
        case XBT_UINT64: snprintf(b, sizeof b, "%llu", (unsigned long long)l); return b;
        case XBT_GUID: return ref::guid(v.raw);
        case XBT_SHA1: return ref::hex(v.raw);
        case XBT_UNIX_TIME: return ref::time32((uint32_t)i);
        case XBT_UNIX_DATE: return ref::date(i);
        case XBT_UNIX_TIME64_MSEC: return ref::time64(l);
        case XBT_IPv4: return ref::ip4((uint32_t)i);
        case XBT_INT32_DECI: return ref::scaled(i, 1);
        case XBT_INT32_CENTI: return ref::scaled(i, 2);
        case XBT_INT32_MILI: return ref::scaled(i, 3);
        case XBT_INT32_MICRO: return ref::scaled(i, 6);
        case XBT_INT32_NANO: return ref::scaled(i, 9);
    }
    return "?";
}
static inline bool text_known(int type) { return type != XBT_FLOAT && type != XBT_DOUBLE; }

struct GenOpt { int maxnodes = 40; int maxdepth = 8; int names = 12; int maxattrs = 4; size_t maxlen = 40; bool repeats = false; bool xmlnames = true; };
static inline std::string rand_name(Rng& r, const std::vector<std::string>& pool) { return pool[r.below(pool.size())]; }
static inline std::vector<std::string> name_pool(Rng& r, int n, const char* prefix) {
    std::vector<std::string> v; static const char* A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.";
    for (int i = 0; i < n; i++) {
        std::string s; int k = r.below(10);
        if (k == 0 && i) s = v[r.below(v.size())] + (char)('a' + r.below(26));   // prefixes of each other
        else { s = prefix; s += A[r.below(52)]; int l = r.below(k == 1 ? 40 : 6); for (int j = 0; j < l; j++) s += A[r.below(65)]; if (k == 2) s += "\xc3\xa9"; }
        if (s == "et-tecera") continue;
        if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s);
    }
    return v;
}
static inline void copy_into(Node& d, const Node& s) {
    d.name = s.name; d.v = s.v; d.attrs = s.attrs;
    for (auto& c : s.ch) { d.ch.emplace_back(new Node); d.ch.back()->parent = &d; copy_into(*d.ch.back(), *c); }
}
static inline int count(const Node& n) { int k = 1; for (auto& c : n.ch) k += count(*c); return k; }
static inline std::unique_ptr<Node> rand_tree(Rng& r, const GenOpt& o, std::vector<std::string>* tags_ = nullptr, std::vector<std::string>* attrs_ = nullptr) {
    std::vector<std::string> tags = name_pool(r, 1 + r.below(o.names), ""), attrs = name_pool(r, 1 + r.below(o.names), "");
    if (tags_) *tags_ = tags; if (attrs_) *attrs_ = attrs;
    std::unique_ptr<Node> root(new Node); std::vector<std::pair<Node*, int>> all; all.push_back({root.get(), 0});
    int n = 1 + r.below(o.maxnodes); int shape = r.below(4);
    auto fill = [&](Node* x) {
        x->name = rand_name(r, tags); x->v = rand_value(r, STORABLE[r.below(NSTORABLE)], r.chance(5) ? 3000 : o.maxlen);
        int k = r.chance(30) ? 0 : r.below(o.maxattrs + 1); std::vector<std::string> used;
        for (int i = 0; i < k; i++) { std::string a = rand_name(r, attrs); if (std::find(used.begin(), used.end(), a) != used.end()) continue; used.push_back(a); x->attrs.push_back({a, rand_value(r, STORABLE[r.below(NSTORABLE)], o.maxlen)}); }
    };
    fill(root.get());
    for (int i = 1; i < n; i++) {
        auto p = shape == 0 ? all[r.below(all.size())] : shape == 1 ? all.back() : shape == 2 ? all[0] : all[all.size() - 1 - r.below(std::min<size_t>(3, all.size()))];
        if (p.second >= o.maxdepth) p = all[0];
        p.first->ch.emplace_back(new Node); Node* x = p.first->ch.back().get(); x->parent = p.first;
        if (o.repeats && r.chance(35)) { Node* s = all[r.below(all.size())].first; bool anc = false; for (Node* y = x; y; y = y->parent) if (y == s) anc = true; if (!anc && count(*s) < 30) { copy_into(*x, *s); continue; } }
        fill(x); all.push_back({x, p.second + 1});
    }
    return root;
}

// feeds a tree (binary values) to the creator
class TreePlugin : public Bin_src_plugin {
public:
    Node* root;
    std::vector<std::unique_ptr<std::vector<uint64_t>>> keep;   // aligned copies of values
    std::map<const Value*, const char*> img;
    TreePlugin(const char* fn, Node* root_) : Bin_src_plugin(fn, nullptr), root(root_) {}
    const char* image(const Value& v) {
        auto it = img.find(&v); if (it != img.end()) return it->second;
        keep.emplace_back(new std::vector<uint64_t>(v.raw.size() / 8 + 2)); char* p = (char*)keep.back()->data(); memcpy(p, v.raw.data(), v.raw.size());
        img[&v] = p; return p;
    }
    bool Initialize() override { return true; }
    void* getRoot() override { return root; }
    const char* getNodeName(void* e) override { return ((Node*)e)->name.c_str(); }
    const char* getNodeValue(void*) override { return nullptr; }
    const char* getNodeBinValue(void* e, XML_Binary_Type& t, int& size) override {
        Node* n = (Node*)e; t = (XML_Binary_Type)n->v.type; size = 0;
        if (t == XBT_NULL) return nullptr;
        const char* p = image(n->v);
        if (XBT_IS_VARSIZE(t)) memcpy(&size, p, 4);
        return p;
    }
    void ForAllChildren(OnElement_t f, void* p, void* u) override { if (!p) return; for (auto& c : ((Node*)p)->ch) f(c.get(), u); }
    void ForAllChildrenRecursively(OnElementRec_t f, void* p, void* u, int deep) override { if (!p) return; f(p, u, deep); for (auto& c : ((Node*)p)->ch) ForAllChildrenRecursively(f, c.get(), u, deep + 1); }
    void ForAllParams(OnParam_t, void*, void*) override {}
    bool ForAllBinParams(OnBinParam_t f, void* e, void* u) override { for (auto& a : ((Node*)e)->attrs) f(a.name.c_str(), -1, (XML_Binary_Type)a.v.type, a.v.type == XBT_NULL ? nullptr : image(a.v), e, u); return true; }
};
static inline std::string show(const Node& n, int deep = 0) {
    std::string s = std::string(deep, ' ') + n.name + "(" + XML_BINARY_TYPE_NAMES[n.v.type] + ":" + vh::hexs(n.v.raw.data(), n.v.raw.size(), 12) + ")";
    for (auto& a : n.attrs) s += " " + a.name + "=" + XML_BINARY_TYPE_NAMES[a.v.type] + ":" + vh::hexs(a.v.raw.data(), a.v.raw.size(), 8);
    s += "\n"; for (auto& c : n.ch) s += show(*c, deep + 1); return s;
}
// spec file for the python side
static inline void write_spec(FILE* f, const Node& n, int deep = 0) {
    fprintf(f, "E %d %s %d %s\n", deep, vh::hexs(n.name.data(), n.name.size(), 1 << 20).c_str(), n.v.type, vh::hexs(n.v.raw.data(), n.v.raw.size(), 1 << 26).c_str());
    for (auto& a : n.attrs) fprintf(f, "A %s %d %s\n", vh::hexs(a.name.data(), a.name.size(), 1 << 20).c_str(), a.v.type, vh::hexs(a.v.raw.data(), a.v.raw.size(), 1 << 26).c_str());
    for (auto& c : n.ch) write_spec(f, *c, deep + 1);
}
static inline std::string read_file(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static inline void write_file(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); } }
} // namespace tree
