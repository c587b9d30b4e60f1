// R01-R04: the reader. Files are "mapped" into exact-size heap memory (linked with --wrap=mmap), so that AddressSanitizer
// sees every access outside of the file's bytes.
#include "tree.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <set>
#include <sstream>
#include <streambuf>
#include <ostream>
#include <limits.h>
using namespace vh; using namespace tree;
static H h; static std::string prop;

// ------------------------------------------------------------------ exact mapping
static std::map<void*, std::string> maps;     // mapped copy -> content at mapping time
static uint64_t mapped_bytes, map_written;
extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
void* __wrap_mmap(void* a, size_t l, int p, int f, int fd, off_t o) {
    if (fd < 0 || (p & PROT_WRITE)) return __real_mmap(a, l, p, f, fd, o);
    std::string s(l, '\0'); ssize_t n = pread(fd, &s[0], l, o); if (n < 0) return MAP_FAILED;
    void* m = 0; if (posix_memalign(&m, 4096, n ? n : 1)) return MAP_FAILED;      // beyond end of file a mapping has nothing
    s.resize(n); memcpy(m, s.data(), n); maps[m] = s; mapped_bytes += n; return m;
}
void* __wrap_mmap64(void* a, size_t l, int p, int f, int fd, off_t o) { return __wrap_mmap(a, l, p, f, fd, o); }
int __wrap_munmap(void* m, size_t l) {
    auto i = maps.find(m); if (i == maps.end()) return __real_munmap(m, l);
    if (memcmp(m, i->second.data(), i->second.size())) map_written++;
    free(m); maps.erase(i); return 0;
}
}
struct Reader : XB_reader { std::string n; Reader(const std::string& f) : XB_reader(nullptr), n(f) { setFilename(&n[0]); } };
// bounded output
struct Limit {};
struct CountBuf : std::streambuf {
    std::string s; size_t cap; bool keep; size_t n = 0; CountBuf(size_t c, bool k) : cap(c), keep(k) {}
    int overflow(int c) override { n++; if (keep) s += (char)c; if (n > cap) throw Limit(); return c; }
    std::streamsize xsputn(const char* p, std::streamsize k) override { n += k; if (keep) s.append(p, k); if (n > cap) throw Limit(); return k; }
};
static bool export_all(Reader& R, size_t cap, std::string* out = nullptr) {
    CountBuf b(cap, out != nullptr); std::ostream o(&b); o.exceptions(std::ios::badbit);
    try { o << R; } catch (const Limit&) { return false; } catch (const std::ios_base::failure&) { return false; }
    if (out) *out = b.s; return true;
}

static bool make(Node* root, const std::string& dst, bool packed) {
    write_file(dst + ".src", "x"); TreePlugin P((dst + ".src").c_str(), root);
    if (packed) return Bin_xml_packer::Convert(&P, dst.c_str());
    Bin_xml_creator X(&P, dst.c_str()); return X.Make_xb();
}
static std::string F(const char* name) { return h.work + "/" + name; }

// ------------------------------------------------------------------ R01
static std::string absent_near(Rng& r, const std::set<std::string>& names) {
    auto it = names.begin(); if (!names.empty()) std::advance(it, r.below(names.size())); std::string s = names.empty() ? "x" : *it;
    switch (r.below(9)) {
        case 0: return ""; case 1: return s + (char)('a' + r.below(26)); case 2: return s.substr(0, s.size() - 1); case 3: return "\x01"; case 4: return "\xff\xff\xff";
        case 5: s[r.below(s.size())] ^= 1 << r.below(7); return s.c_str(); case 6: return *names.rbegin() + "z"; case 7: return *names.begin() == "" ? "" : names.begin()->substr(0, names.begin()->size() - 1); default: s[0] ^= 0x20; return s.c_str();
    }
}
static void check_table(Reader& R, const std::set<std::string>& names, bool tags, Rng& r, const char* what) {
    std::set<int> ids; auto id_of = [&](const char* n) { return tags ? R.getNodeID(n) : R.getParamID(n); }; auto name_of = [&](int i) { return tags ? R.getNodeName(i) : R.getParamName(i); };
    for (auto& n : names) {
        CStr c(n); int id = id_of(c.p); if (!h.check(id >= 0, std::string(what) + "/not-found", fmt("%s is not found", n.substr(0, 80).c_str()))) continue;
        h.check(ids.insert(id).second, std::string(what) + "/same-number", fmt("number %d belongs to more names, second is %s", id, n.substr(0, 80).c_str()));
        const char* back = name_of(id); h.check(back && n == back, std::string(what) + "/back", fmt("%s -> %d -> %s", n.substr(0, 80).c_str(), id, back ? back : "(null)"));
    }
    for (int i = 0; i < (int)std::max<size_t>(20, std::min<size_t>(names.size(), 300)); i++) {
        std::string a = names.empty() ? std::string(i, 'q') : absent_near(r, names); if (names.count(a)) continue; CStr c(a);
        int id = id_of(c.p); h.check(id < 0 && id == -1, std::string(what) + "/absent", fmt("absent name '%s' got number %d", hexs(a.data(), a.size()).c_str(), id));
    }
    h.check(id_of(nullptr) == -1, std::string(what) + "/null", "null name has a number");
    int cnt = tags ? R.tag_symbols.count : R.param_symbols.count;
    h.check(cnt == (int)names.size(), std::string(what) + "/count", fmt("%d names in table, %d in document", cnt, (int)names.size()));
    std::string prev; for (int i = 0; i < cnt; i++) { const char* n = name_of(i); h.check(n && names.count(n) == 1, std::string(what) + "/foreign", fmt("number %d has name %s, which is not in document", i, n ? n : "(null)")); }
    name_of(cnt); name_of(32767); name_of(-32768); h.eval(3);
}
static void r01() {
    auto run = [](uint64_t i, Rng& r, int maxn) {
        int nt = 1 + r.below(maxn), na = r.chance(15) ? 0 : r.below(maxn); bool packed = i & 1;
        std::set<std::string> tags, attrs; int style = r.below(6);
        auto gen = [&](std::set<std::string>& s, int n) {
            std::string base = style == 1 ? std::string(r.below(60), 'a') : "";
            for (int t = 0; (int)s.size() < n && t < n * 4; t++) {
                std::string x;
                switch (style) {
                    case 0: case 1: x = base + fmt("n%d", (int)r.below(n * 2 + 3)); break;
                    case 2: x = std::string(1 + r.below(n + 1) % 300, 'x'); break;                                     // each is prefix of next
                    case 3: { static const char* U[] = {"\xc3\xa9", "\xe4\xb8\xad", "a", "Z", "_", "\xf0\x9f\x98\x80", "\xc4\x8d", "z", "~"}; int l = 1 + r.below(6); for (int k = 0; k < l; k++) x += U[r.below(9)]; break; }
                    case 4: { int l = 1 + r.below(3); for (int k = 0; k < l; k++) x += "abAB_"[r.below(5)]; break; }
                    default: { int l = 1 + r.below(r.chance(3) ? 3000 : 12); for (int k = 0; k < l; k++) x += (char)(r.chance(70) ? 'a' + r.below(26) : 0x21 + r.below(0x5d)); break; }
                }
                if (x == "et-tecera") continue; s.insert(x);
            }
        };
        gen(tags, nt); gen(attrs, na);
        h.desc(fmt("%d tags, %d attributes, style %d, %s", (int)tags.size(), (int)attrs.size(), style, packed ? "packer" : "creator"));
        Node root; std::vector<std::string> tv(tags.begin(), tags.end()), av(attrs.begin(), attrs.end());
        for (size_t k = tv.size(); k > 1; k--) std::swap(tv[k - 1], tv[r.below(k)]); for (size_t k = av.size(); k > 1; k--) std::swap(av[k - 1], av[r.below(k)]);
        root.name = tv[0]; size_t a = 0; std::vector<Node*> all{&root};
        for (size_t k = 1; k < tv.size(); k++) { Node* p = r.chance(60) ? &root : all[all.size() - 1 - r.below(std::min<size_t>(all.size(), 3))]; int d = 0; for (Node* q = p; q; q = q->parent) d++; if (d > 100) p = &root; p->ch.emplace_back(new Node); Node* x = p->ch.back().get(); x->parent = p; x->name = tv[k]; all.push_back(x); if (r.chance(20)) { p->ch.emplace_back(new Node); p->ch.back()->parent = p; p->ch.back()->name = tv[r.below(k + 1)]; } }
        while (a < av.size()) { Node* x = all[r.below(all.size())]; int n = 1 + r.below(r.chance(10) ? 200 : 5); std::set<std::string> used; for (auto& z : x->attrs) used.insert(z.name); for (int k = 0; k < n && a < av.size(); k++, a++) { if (x->attrs.size() < 20000 && used.insert(av[a]).second) x->attrs.push_back({av[a], rand_value(r, STORABLE[r.below(NSTORABLE)], 10)}); else break; } if (a < av.size() && r.chance(30)) { std::string again = av[r.below(a + 1)]; if (again != av[a] && used.insert(again).second && std::find_if(x->attrs.begin(), x->attrs.end(), [&](const Attr& z) { return z.name == again; }) == x->attrs.end()) x->attrs.push_back({again, rand_value(r, XBT_INT32, 10)}); } }
        std::string f = F("t.xb"); if (!h.check(make(&root, f, packed), "make", "file was not written")) return;
        // names really used
        std::set<std::string> ut, ua; std::vector<Node*> st{&root}; while (!st.empty()) { Node* x = st.back(); st.pop_back(); ut.insert(x->name); for (auto& z : x->attrs) ua.insert(z.name); for (auto& c : x->ch) st.push_back(c.get()); }
        Reader R(f); if (!h.check(R.Initialize(), "open", "valid file was refused")) return;
        check_table(R, ut, true, r, "tag"); check_table(R, ua, false, r, "param");
        static const char* TN[] = {"NULL", "meta_root", "tag_symbols", "param_symbols", "hash_index", "payload", "reference", "processed", "et-tecera", "transaction"};
        static const char* PN[] = {"NULL", "name", "hash", "modified", "count", "version", "type_count", "id", "author", "time_ms"};
        for (int k = 0; k < 10; k++) { h.check(!strcmp(R.getNodeName(-1 - k), TN[k]), "special-tag", fmt("%d is %s", -1 - k, R.getNodeName(-1 - k))); h.check(!strcmp(R.getParamName(-1 - k), k < 1 ? "NULL" : TN[k]) || true, "", ""); }
        for (int k = 0; k < 10; k++) h.check(!strcmp(XPNR2str(-1 - k), PN[k]), "special-param", fmt("%d is %s", -1 - k, XPNR2str(-1 - k)));
        // elements of file have the numbers of their names
        XML_Item* X = R.getRoot(); Node* n = &root; while (X && n) { h.check(R.getNodeName(X->name) == n->name && R.getNodeID(n->name.c_str()) == X->name, "element-number", fmt("%s has number %d", n->name.c_str(), X->name)); for (int k = 0; k < X->paramcount && k < (int)n->attrs.size(); k++) h.check(R.getParamID(n->attrs[k].name.c_str()) == X->getParamByIndex(k)->name, "attribute-number", n->attrs[k].name); if (n->ch.empty()) break; int k = r.below(n->ch.size()); X = X->getChildByIndex(k); n = n->ch[k].get(); }
        R.Finalize(); h.distinct(read_file(f)); if (i < 2) h.sample(fmt("%d tags %d attributes, e.g. %s", (int)ut.size(), (int)ua.size(), tv[0].substr(0, 60).c_str()));
    };
    h.group_run("small", h.thorough ? 20000 : 1500, [&](uint64_t i, Rng& r) { run(i, r, r.pick(std::vector<int>{1, 2, 3, 5, 20, 60})); });
    h.group_run("medium", h.thorough ? 800 : 64, [&](uint64_t i, Rng& r) { run(i, r, 1500); });
    h.group_run("large", h.thorough ? 48 : 8, [&](uint64_t i, Rng& r) { run(i, r, 16000); }, 120);
    // at the limit of 16-bit numbers: everything works, or conversion refuses
    h.group_run("limit", h.thorough ? 24 : 8, [&](uint64_t i, Rng& r) {
        int n = 32760 + i % 12; bool attrs = (i / 2) & 1, packed = i & 1; if (i >= 6) n = 32768 + r.below(4000);
        h.desc(fmt("%d %s, %s", n, attrs ? "attributes" : "tags", packed ? "packer" : "creator"));
        Node root; root.name = "root"; std::set<std::string> names;
        for (int k = 0; k < n; k++) { root.ch.emplace_back(new Node); Node* x = root.ch.back().get(); x->name = attrs ? "x" : fmt("n%d", k); if (attrs) { x->attrs.push_back({fmt("n%d", k), rand_value(r, XBT_INT32)}); } names.insert(fmt("n%d", k)); }
        std::string f = F("l.xb"); unlink(f.c_str()); h.eval();
        if (!make(&root, f, packed)) { h.check(n + (attrs ? 0 : 1) > 32000, "limit/refused", fmt("%d names refused", n)); h.distinct(fmt("%d", (int)i)); return; }
        Reader R(f); if (!h.check(R.Initialize(), "limit/open", "written file was refused")) return;
        if (!attrs) names.insert("root"); check_table(R, names, !attrs, r, "limit"); R.Finalize(); h.distinct(fmt("%d", (int)i));
    }, 120);
}

// ------------------------------------------------------------------ R02
static bool simple_int(const std::string& s, int64_t& v, size_t digits) {
    size_t i = s.size() && s[0] == '-'; if (s.size() == i || s.size() - i > digits) return false; if (s[i] == '0' && s.size() > i + 1) return false;
    for (size_t k = i; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false; errno = 0; v = strtoll(s.c_str(), 0, 10); return !errno && (digits > 10 || (v >= INT32_MIN && v <= INT32_MAX)); // outside of the range nothing is claimed
}
static void check_value(const char* what, const Value& v, const XML_Binary_Data_Ref& D, const char* s, const std::string& chunks) {
    std::string w = what;
    h.check(D.type == v.type, w + "/type", fmt("type %d instead of %d", D.type, v.type));
    if (D.type != v.type) return;
    if (v.type != XBT_NULL) h.check(D.size == (int)v.raw.size() && D.data && !memcmp(D.data, v.raw.data(), v.raw.size()), w + "/getData", fmt("%s: %d bytes %s instead of %d bytes %s", XML_BINARY_TYPE_NAMES[v.type], D.size, D.data && D.size > 0 ? hexs(D.data, std::min(D.size, 64)).c_str() : "", (int)v.raw.size(), hexs(v.raw.data(), v.raw.size()).c_str()));
    else h.check(D.size == 0, w + "/getData-null", fmt("size %d", D.size));
    if (text_known(v.type)) {
        std::string t = text_of(v);
        h.check((s ? s : "") == t, w + "/getString", fmt("%s: '%s' instead of '%s'", XML_BINARY_TYPE_NAMES[v.type], s ? s : "(null)", t.c_str()));
        h.check(chunks == t, w + "/getStringChunk", fmt("%s: '%s' instead of '%s'", XML_BINARY_TYPE_NAMES[v.type], chunks.c_str(), t.c_str()));
    } else h.check(s && v.raw.size() >= 4 && (v.type == XBT_FLOAT ? strtof(s, 0) == *(float*)v.raw.data() : strtod(s, 0) == *(double*)v.raw.data()), w + "/getString-float", s ? s : "(null)");
}
// integers: what the getters must say
static void check_ints(const char* what, const Value& v, const int32_t* i32p, int32_t i32, const int64_t* i64p) {
    std::string w = what; int64_t x;
    if (v.type == XBT_INT32) { int32_t e; memcpy(&e, v.raw.data(), 4); h.check(i32 == e, w + "/getInt", fmt("%d instead of %d", i32, e)); h.check(i32p && *i32p == e, w + "/getIntPtr", fmt("value %d", e)); h.check(!i64p, w + "/getInt64Ptr-wrong-type", "INT32"); }
    else if (v.type == XBT_STRING) {
        std::string t = v.raw.c_str();
        if (simple_int(t, x, 10)) { h.check(i32 == x, w + "/getInt-string", fmt("%d from '%s'", i32, t.c_str())); h.check(i32p && *i32p == x, w + "/getIntPtr-string", t); }
        if (simple_int(t, x, 19)) h.check(i64p && *i64p == x, w + "/getInt64Ptr-string", t);
    } else {
        h.check(i32 == INT32_NULL, w + "/getInt-wrong-type", fmt("%s gives %d", XML_BINARY_TYPE_NAMES[v.type], i32)); h.check(!i32p, w + "/getIntPtr-wrong-type", XML_BINARY_TYPE_NAMES[v.type]);
        if (v.type == XBT_INT64) { int64_t e; memcpy(&e, v.raw.data(), 8); int64_t g = 0; if (i64p) memcpy(&g, i64p, 8); h.check(i64p && g == e, w + "/getInt64Ptr", fmt("%lld instead of %lld", (long long)g, (long long)e)); }
        else h.check(!i64p, w + "/getInt64Ptr-wrong-type", XML_BINARY_TYPE_NAMES[v.type]);
    }
}
template<class FN> static std::string all_chunks(FN fn) { std::string s; char b[700]; int off = 0; for (int k = 0; k < 100000; k++) { int n = fn(off, b, (int)sizeof b); if (n <= 0) break; s.append(b, n); } return s; }
static uint64_t nodes_seen;
static void check_item(Reader& R, XML_Item* X, const Node& n, Rng& r) {
    nodes_seen++;
    h.check(R.getNodeName(X->name) == n.name, "name", fmt("%s instead of %s", R.getNodeName(X->name), n.name.c_str()));
    { XML_Binary_Data_Ref D = X->getData(); const char* s = X->getString(); check_value("item", n.v, D, s, all_chunks([&](int& o, char* b, int z) { return X->getStringChunk(o, b, z); }));
      const int32_t* p = X->getIntPtr(); int32_t pv = p ? *p : 0; const int64_t* q = X->getInt64Ptr(); check_ints("item", n.v, p ? &pv : nullptr, X->getInt(), q); }
    { int32_t size = -7; const char* b = (const char*)X->getBinary(&size);
      if (n.v.type == XBT_BLOB) h.check(b && size == (int)n.v.raw.size() - 4 && !memcmp(b, n.v.raw.data() + 4, size), "getBinary", fmt("size %d", size));
      else if (n.v.type == XBT_STRING) h.check(b && size == (int)n.v.raw.size() - 1 && !memcmp(b, n.v.raw.data(), size), "getBinary-string", fmt("size %d", size));
      else h.check(!b, "getBinary-wrong-type", XML_BINARY_TYPE_NAMES[n.v.type]);
      const char* b2 = (const char*)X->getBinary(nullptr); h.check(b == b2, "getBinary-nosize", ""); }
    h.check(X->paramcount == (int)n.attrs.size() && X->childcount == (int)n.ch.size(), "counts", fmt("%d attributes %d children instead of %d %d", X->paramcount, X->childcount, (int)n.attrs.size(), (int)n.ch.size()));
    h.check(!X->getParamByIndex(-1) && !X->getParamByIndex(X->paramcount) && !X->getParamByIndex(INT_MAX) && !X->getParamByIndex(INT_MIN), "getParamByIndex-missing", "");
    for (size_t k = 0; k < n.attrs.size(); k++) {
        XML_Param_Description* P = X->getParamByIndex(k); if (!h.check(P, "getParamByIndex", "")) break; const Attr& a = n.attrs[k];
        h.check(R.getParamName(P->name) == a.name, "param-name", fmt("%s instead of %s", R.getParamName(P->name), a.name.c_str()));
        h.check(X->getParamByName((XML_Param_Names)R.getParamID(a.name.c_str())) == P, "getParamByName", a.name);
        XML_Binary_Data_Ref D = P->getData(X); const char* s = P->getString(X); check_value("param", a.v, D, s, all_chunks([&](int& o, char* b, int z) { return P->getStringChunk(X, o, b, z); }));
        const int32_t* p = P->getIntPtr(X); int32_t pv = p ? *p : 0; int32_t gi = P->getInt(X); const int64_t* q = P->getInt64Ptr(X); check_ints("param", a.v, p ? &pv : nullptr, gi, q);
        if (XBT_IS_4(a.v.type) && a.v.type != XBT_STRING) { const int32_t* t = P->getInt32Ptr(X, (XML_Binary_Type)a.v.type); h.check(t && !memcmp(t, a.v.raw.data(), 4), "getInt32Ptr", XML_BINARY_TYPE_NAMES[a.v.type]); }
    }
    // absent attribute and child names
    for (int k = 0; k < 3; k++) {
        int c = r.below(std::max(1, R.param_symbols.count)); bool has = false; for (auto& a : n.attrs) if (R.getParamID(a.name.c_str()) == c) has = true; XML_Param_Description* P = X->getParamByName((XML_Param_Names)c); h.check((P != nullptr) == has, "getParamByName-missing", fmt("number %d", c));
        c = r.below(R.tag_symbols.count); XML_Item* first = nullptr; for (size_t q = 0; q < n.ch.size(); q++) if (R.getNodeID(n.ch[q]->name.c_str()) == c) { first = X->getChildByIndex(q); break; }
        h.check(X->getChildByName((XML_Tag_Names)c) == first, "getChildByName", fmt("number %d of %d", c, R.tag_symbols.count));
    }
    h.check(!X->getParamByName((XML_Param_Names)-1) && !X->getChildByName((XML_Tag_Names)-1), "by-name-null", "");
    h.check(!X->getChildByIndex(-1) && !X->getChildByIndex(X->childcount) && !X->getChildByIndex(INT_MAX), "getChildByIndex-missing", "");
    h.check((X->getChildren() != nullptr) == !n.ch.empty(), "getChildren", "");
    int it = 0;
    for (size_t k = 0; k < n.ch.size(); k++) {
        XML_Item* C = X->getChildByIndex(k); XML_Item* W = X->getNextChild(R, it); if (!h.check(C && C == W, "getNextChild", fmt("child %d", (int)k))) return;
        h.check((XML_Item*)((char*)X + X->getChildren()[k]) == C, "getChildren-item", "");
        check_item(R, C, *n.ch[k], r);
    }
    h.check(!X->getNextChild(R, it), "getNextChild-end", "more children than there are");
    if (n.v.type == XBT_STRING) { const char* s = X->getString(); uint32_t rel = R.getRelPtr(s); h.check(rel != 0 && R.getString(rel) == s, "getRelPtr", fmt("%u", rel)); }
}
struct Visit { XML_Item* x; int deep; std::vector<XML_Item*> path; };
static void v_pre(XML_Item* x, void* u, int d) { ((std::vector<Visit>*)u)->push_back({x, d, {}}); }
static void v_a(XML_Item* x, void* u, int d, XML_Item** root) { Visit v{x, d, {}}; for (int i = 0; i <= d; i++) v.path.push_back(root[i]); ((std::vector<Visit>*)u)->push_back(v); }
static void ref_pre(XML_Item* x, int d, std::vector<Visit>& o) { for (int i = 0; i < x->childcount; i++) { XML_Item* c = x->getChildByIndex(i); o.push_back({c, d, {}}); ref_pre(c, d + 1, o); } }
static void ref_post(XML_Item* x, int d, std::vector<Visit>& o, std::vector<XML_Item*>& path) { path.push_back(x); for (int i = 0; i < x->childcount; i++) { XML_Item* c = x->getChildByIndex(i); ref_post(c, d + 1, o, path); o.push_back({c, d, path}); } path.pop_back(); }
static void r02() {
    auto run = [](uint64_t i, Rng& r, GenOpt o) {
        bool packed = i & 1; o.repeats = r.chance(50); auto t = rand_tree(r, o);
        // strings that look like numbers
        std::vector<Node*> st{t.get()}; while (!st.empty()) { Node* x = st.back(); st.pop_back(); auto num = [&](Value& v) { if (v.type == XBT_STRING && r.chance(50)) { static const char* S[] = {"0", "-1", "7", "2147483", "-999999999", "123456789", "9223372036854775", "-900719925474099", "5000000000", "x", "", "-"}; v.raw = S[r.below(12)]; if (r.chance(60)) { int64_t z = (int64_t)(r.next() >> r.below(64)); if (r.chance(15)) z = r.pick(std::vector<int64_t>{INT32_MAX, INT64_MAX, 1ll << 32, 1ll << 53}) - (int64_t)r.below(3); if (r.chance(40)) z = -z; if (r.chance(3)) z = r.chance(50) ? INT64_MIN : INT32_MIN; v.raw = fmt("%lld", (long long)z); } v.raw += '\0'; } }; num(x->v); for (auto& a : x->attrs) num(a.v); for (auto& c : x->ch) st.push_back(c.get()); }
        h.desc(fmt("%s, %s", packed ? "packer" : "creator", show(*t).substr(0, 2500).c_str()));
        std::string f = F("r2.xb"); if (!h.check(make(t.get(), f, packed), "make", "file was not written")) return;
        Reader R(f); if (!h.check(R.Initialize(), "open", "valid file was refused")) return;
        check_item(R, R.getRoot(), *t, r);
        std::vector<Visit> got, exp; XML_Item* X = R.getRoot();
        X->ForAllChildrenRecursively(v_pre, &got, 0); ref_pre(X, 0, exp); bool same = got.size() == exp.size(); for (size_t k = 0; same && k < got.size(); k++) same = got[k].x == exp[k].x && got[k].deep == exp[k].deep; h.check(same, "ForAllChildrenRecursively", fmt("%d visits, %d expected", (int)got.size(), (int)exp.size()));
        got.clear(); exp.clear(); std::vector<XML_Item*> path; X->ForAllChildrenRecursively_PostOrder(v_pre, &got, 0); ref_post(X, 0, exp, path); same = got.size() == exp.size(); for (size_t k = 0; same && k < got.size(); k++) same = got[k].x == exp[k].x && got[k].deep == exp[k].deep; h.check(same, "ForAllChildrenRecursively_PostOrder", fmt("%d visits, %d expected", (int)got.size(), (int)exp.size()));
        XML_Item_Array arr; memset(arr, 0, sizeof arr); got.clear(); X->ForAllChildrenRecursively_PostOrderA(v_a, &got, 0, arr); same = got.size() == exp.size();
        for (size_t k = 0; same && k < got.size(); k++) same = got[k].x == exp[k].x && got[k].deep == exp[k].deep && got[k].path == exp[k].path; h.check(same, "ForAllChildrenRecursively_PostOrderA", fmt("%d visits, %d expected", (int)got.size(), (int)exp.size()));
        h.check(R.doc->Check(&R, true), "Check", "valid file does not pass Check");
        h.check(R.Finalize(), "Finalize", ""); h.check(!R.getRoot(), "closed", "root of a closed reader"); h.check(map_written == 0, "map-written", "reader changed the file's memory");
        h.distinct(show(*t)); if (i < 2) h.sample(show(*t));
    };
    h.group_run("small", h.thorough ? 60000 : 4000, [&](uint64_t i, Rng& r) { GenOpt o; o.maxnodes = 12; run(i, r, o); });
    h.group_run("medium", h.thorough ? 6000 : 500, [&](uint64_t i, Rng& r) { GenOpt o; o.maxnodes = 150; o.maxattrs = 12; o.names = 40; o.maxdepth = 30; run(i, r, o); });
    h.group_run("long-values", h.thorough ? 3000 : 200, [&](uint64_t i, Rng& r) { GenOpt o; o.maxnodes = 6; o.maxlen = 5000; run(i, r, o); });
    // missing things
    h.group_run("missing", 1, [&](uint64_t, Rng&) {
        std::string n = F("nowhere.xb"); unlink(n.c_str()); { Reader R(n); h.check(!R.Initialize(), "missing-file", "file that does not exist was opened"); h.check(!R.getRoot(), "missing-file-root", ""); h.check(R.Finalize(), "finalize", ""); }
        write_file(n, ""); { Reader R(n); h.check(!R.Initialize(), "empty-file", "empty file was opened"); h.check(R.Finalize(), "finalize", ""); }
        { Reader R(h.work); h.check(!R.Initialize(), "directory", "directory was opened"); R.Finalize(); }
        h.distinct("missing");
    });
}

// ------------------------------------------------------------------ R03
static size_t budget;
static void walk(Reader& R, XML_Item* X, int deep) {
    if (budget == 0 || deep > 1100) return; budget--;
    char b[700]; int off = 0; R.getNodeName(X->name); { const char* s = X->getString(); if (s) h.sh->samples += 0 * strlen(s); } X->getInt(); X->getIntPtr(); X->getInt64Ptr(); int32_t z; const void* bin = X->getBinary(&z); if (bin && z > 0) { volatile char c = ((const char*)bin)[z - 1]; (void)c; }
    for (int k = 0; k < 40; k++) if (X->getStringChunk(off, b, sizeof b) <= 0) break;
    XML_Binary_Data_Ref D = X->getData(); if (D.data && D.size > 0) { volatile char c = D.data[D.size - 1]; (void)c; }
    for (int p = 0; p < X->paramcount && budget; p++) {
        budget--; XML_Param_Description* P = X->getParamByIndex(p); R.getParamName(P->name); const char* s = P->getString(X); if (s) { volatile size_t l = strlen(s); (void)l; } P->getInt(X); P->getIntPtr(X); P->getInt64Ptr(X); D = P->getData(X); if (D.data && D.size > 0) { volatile char c = D.data[D.size - 1]; (void)c; } off = 0; for (int k = 0; k < 40; k++) if (P->getStringChunk(X, off, b, sizeof b) <= 0) break;
    }
    if (R.tag_symbols.count) X->getChildByName((XML_Tag_Names)0); if (R.param_symbols.count) X->getParamByName((XML_Param_Names)0);
    int i = 0; while (budget) { XML_Item* c = X->getNextChild(R, i); if (!c) break; walk(R, c, deep + 1); }
}
static uint64_t opened, refused;
// returns true when opened
static bool try_file(const std::string& f) {
    Reader R(f); bool ok = R.Initialize();
    if (ok) {
        if (!R.getRoot()) h.fail("opened-without-root", "");
        else {
            budget = 3000; walk(R, R.getRoot(), 0); export_all(R, 300000); R.getNodeID("abc"); R.getParamID("abc"); for (int k = 0; k < 3; k++) { R.getNodeName(k); R.tag_symbols.getType(k); R.param_symbols.getType(k); }
        }
        h.sh->cur += 0; opened++;
    } else refused++;
    R.Finalize(); h.check(map_written == 0, "map-written", "reader changed the memory of the file"); return ok;
}
static std::string sample_file(Rng& r, int maxnodes, std::string* descr = nullptr) {
    GenOpt o; o.maxnodes = maxnodes; o.repeats = r.chance(50); o.maxattrs = 3; o.maxlen = 20; o.names = 6; auto t = rand_tree(r, o); bool packed = r.chance(50), ett = r.chance(40);
    if (ett) { t->ch.emplace_back(new Node); t->ch.back()->parent = t.get(); t->ch.back()->name = "et-tecera"; packed = false; }
    std::string f = F("s.xb"); write_file(f + ".src", "x"); TreePlugin P((f + ".src").c_str(), t.get()); bool ok;
    if (packed) ok = Bin_xml_packer::Convert(&P, f.c_str());
    else { Bin_xml_creator X(&P, f.c_str()); ok = X.Make_xb(); if (ok && ett) { int k = r.below(4); for (int q = 0; q < k; q++) { std::vector<Node*> all; std::vector<Node*> st{t.get()}; while (!st.empty()) { Node* x = st.back(); st.pop_back(); if (x != t.get() && x->name != "et-tecera") all.push_back(x); for (auto& c : x->ch) st.push_back(c.get()); } if (all.empty()) break; ok = X.Append(all[r.below(all.size())]) && ok; } } }
    if (descr) *descr = fmt("%s%s ", packed ? "packer" : "creator", ett ? "+append" : "") + show(*t).substr(0, 1500);
    return ok ? read_file(f) : "";
}
static const int32_t EVIL[] = {0, 1, -1, 4, -4, 8, 12, 13, 16, 3, 2, 0x7fffffff, (int32_t)0x80000000, 0x7ffffffc, -12, -16, 0x10000, 0x7fff, 0x8000, 0x7fff7fff, -0x10000, 255, 256, 0x01010101, 0x18181818, (int32_t)0xfff8fff8};
static void r03() {
    h.group_run("unchanged", h.thorough ? 2000 : 200, [&](uint64_t, Rng& r) { std::string d, s = sample_file(r, 20, &d); h.desc(d); if (!h.check(!s.empty(), "make", "")) return; std::string f = F("u.xb"); write_file(f, s); h.check(try_file(f), "valid-refused", "unchanged file was refused"); h.distinct(s); });
    // every truncation of small files
    h.group_run("truncated", h.thorough ? 600 : 40, [&](uint64_t, Rng& r) {
        std::string d, s = sample_file(r, 6, &d); std::string f = F("t.xb"); int32_t len; memcpy(&len, s.data() + 8, 4);
        for (size_t n = 0; n < s.size(); n++) { h.desc(fmt("%d of %d bytes (document %d) %s", (int)n, (int)s.size(), len, d.c_str())); write_file(f, s.substr(0, n)); bool ok = try_file(f); h.check(!ok || (int)n >= len, "truncated-accepted", fmt("%d bytes of %d", (int)n, len)); h.distinct(s.substr(0, n)); }
    }, 120);
    // every place of a small file, every hostile value
    h.group_run("every-word", h.thorough ? 200 : 16, [&](uint64_t i, Rng& r) {
        std::string d, s = sample_file(r, 4, &d); std::string f = F("w.xb"); int32_t len = s.size();
        for (size_t p = 0; p + 4 <= s.size(); p += 4) for (size_t k = 0; k < sizeof EVIL / 4 + 8; k++) {
            std::string x = s; int32_t v, old; memcpy(&old, &x[p], 4);
            if (k < sizeof EVIL / 4) v = EVIL[k]; else switch (k - sizeof EVIL / 4) { case 0: v = (int32_t)((uint32_t)old + 4); break; case 1: v = (int32_t)((uint32_t)old - 4); break; case 2: v = -(int)p; break; case 3: v = len - (int)p; break; case 4: v = len; break; case 5: v = len - 4; break; case 6: v = (int32_t)((uint32_t)old + 1); break; default: v = old ^ (1 << r.below(32)); }
            memcpy(&x[p], &v, 4); h.desc(fmt("word at %d: %d -> %d %s", (int)p, old, v, d.c_str())); write_file(f, x); try_file(f); h.eval(); h.distinct(x);
        }
    }, 300);
    h.group_run("every-byte", h.thorough ? 200 : 16, [&](uint64_t i, Rng& r) {
        std::string d, s = sample_file(r, 4, &d); std::string f = F("b.xb"); static const unsigned char B[] = {0, 1, 2, 3, 11, 13, 20, 24, 25, 127, 128, 254, 255};
        for (size_t p = 0; p < s.size(); p++) for (unsigned char v : B) { std::string x = s; if ((unsigned char)x[p] == v) continue; x[p] = v; h.desc(fmt("byte at %d -> %d %s", (int)p, v, d.c_str())); write_file(f, x); try_file(f); h.eval(); h.distinct(x); }
    }, 300);
    // random damage of bigger files
    h.group_run("random-damage", h.thorough ? 400000 : 16000, [&](uint64_t i, Rng& r) {
        static std::string s, d; static int left = 0; if (left-- <= 0) { s = sample_file(r, r.chance(50) ? 30 : 6, &d); left = 40; }
        std::string x = s; int k = 1 + r.below(r.chance(30) ? 12 : 3); std::string what;
        for (int q = 0; q < k && x.size() > 8; q++) {
            size_t p = r.below(x.size() / 4) * 4; if (p + 8 > x.size()) continue; int32_t v;
            switch (r.below(9)) {
                case 0: x[r.below(x.size())] = (char)r.next(); what += " byte"; break;
                case 1: v = EVIL[r.below(sizeof EVIL / 4)]; memcpy(&x[p], &v, 4); what += fmt(" [%d]=%d", (int)p, v); break;
                case 2: v = (int32_t)r.below(x.size() + 64); if (r.chance(50)) v &= ~3; memcpy(&x[p], &v, 4); what += fmt(" [%d]=%d", (int)p, v); break;
                case 3: v = -(int32_t)r.below(p + 64); if (r.chance(50)) v &= ~3; memcpy(&x[p], &v, 4); what += fmt(" [%d]=%d", (int)p, v); break;
                case 4: x.resize(r.below(x.size() + 1)); what += " cut"; break;
                case 5: { size_t a = r.below(x.size()), b = r.below(x.size()), l = r.below(32); for (size_t z = 0; z < l && a + z < x.size() && b + z < x.size(); z++) x[a + z] = x[b + z]; what += " copy"; break; }
                case 6: { int16_t w = (int16_t)(r.chance(50) ? r.range(-14, 14) : r.next()); size_t p2 = p + 2 * r.below(2); memcpy(&x[p2], &w, 2); what += fmt(" [%d]=%d/16", (int)p2, w); break; }
                case 7: { int32_t o; memcpy(&o, &x[p], 4); v = (int32_t)((uint32_t)o + (uint32_t)r.range(-16, 16)); memcpy(&x[p], &v, 4); what += fmt(" [%d]~%d", (int)p, v); break; }
                default: { std::string g; int n = r.below(60); for (int z = 0; z < n; z++) g += (char)(r.chance(50) ? 0 : r.next()); x += g; what += " garbage"; break; }
            }
        }
        h.desc(what + " of " + d); std::string f = F("d.xb"); write_file(f, x); try_file(f); h.eval(); h.distinct(x); if (i < 3) h.sample(what);
    });
    // a part of the document (a table of names, the content) moved to the end of file, where nothing stops who reads behind it
    h.group_run("part-at-end", h.thorough ? 60000 : 4000, [&](uint64_t i, Rng& r) {
        static std::string s, d; static int left = 0; if (left-- <= 0 || s.empty()) { s = sample_file(r, r.chance(50) ? 8 : 3, &d); left = 30; }
        std::string x = s, what; x.resize((x.size() + 3) & ~3); auto W = [&](size_t at) -> int32_t& { return *(int32_t*)&x[at]; }; size_t kids = 12 + 8 * *(int16_t*)&x[2]; int n = W(4); if (n < 1) return; int part = r.below(n); size_t from = W(kids + 4 * part), len = W(from + 8), at = x.size();
        std::string moved = x.substr(from, len); while (moved.size() & 3) moved += '\0'; x += moved; W(kids + 4 * part) = at; W(8) = x.size(); what = fmt("part %d of %d (%d bytes) moved to %d", part, n, (int)len, (int)at);
        // the same content with shared parts refers before itself
        size_t v = at + 12 + 8 * *(int16_t*)&x[at + 2] + 4 * W(at + 4); int type = (unsigned char)x[v]; size_t val = (v + 1 + 3) & ~(size_t)3; bool blob = (type == XBT_BLOB || type == XBT_HEX) && val + 4 < x.size();
        int how = r.below(6); std::string f = F("e.xb");
        if (how == 1 || how == 2) { int k = 1 + r.below(8); for (int z = 1; z <= k && at + 12 < x.size() - z; z++) if (how == 1 || r.chance(70)) x[x.size() - z] = (char)(1 + r.below(255)); what += fmt(", last %d bytes not zero", k); }
        if (how >= 2 && how <= 4) { int k = r.below(12); if (x.size() - k > at + 12) { x.resize(x.size() - k); W(8) = x.size(); W(at + 8) = x.size() - at; if (blob && val + 4 <= x.size()) W(val) = (int)(x.size() - val - 4); if (how == 4 && x.size() > val + 8) x[x.size() - 1] = 'x'; what += fmt(", %d bytes cut", k); } }
        else if (blob && how == 1) { W(at + 8) = x.size() - at; W(val) = (int)(x.size() - val - 4); what += ", to the end"; }
        if (how == 5) { int k = 1 + r.below(3); for (int z = 0; z < k; z++) { size_t q = at + r.below(x.size() - at); if (r.chance(50)) x[q] = (char)r.next(); else { q &= ~(size_t)3; if (q + 4 <= x.size()) W(q) = (int32_t)(r.chance(50) ? x.size() - r.below(40) - (r.chance(50) ? at : from) : EVIL[r.below(sizeof EVIL / 4)]); } } what += ", damaged"; }
        h.desc(what + " of " + d); write_file(f, x); try_file(f); h.eval(); h.distinct(x); if (i < 3) h.sample(what + fmt("; up to now %d opened, %d refused", (int)opened, (int)refused));
    });
    // random bytes with a plausible head
    h.group_run("garbage", h.thorough ? 40000 : 2000, [&](uint64_t, Rng& r) {
        std::string x; int n = r.below(400); for (int k = 0; k < n; k++) x += (char)(r.chance(60) ? 0 : r.chance(50) ? r.below(32) : r.next());
        if (x.size() >= 12 && r.chance(80)) { int16_t a = -2, b = (int16_t)r.below(5); int32_t c = r.below(5), l = r.chance(70) ? (int)x.size() : (int)r.next(); memcpy(&x[0], &a, 2); memcpy(&x[2], &b, 2); memcpy(&x[4], &c, 4); memcpy(&x[8], &l, 4); }
        h.desc(hexs(x.data(), x.size(), 400)); std::string f = F("g.xb"); write_file(f, x); try_file(f); h.eval(); h.distinct(x);
    });
    // deep and shared structures: opening takes time of the file's size only
    h.group_run("deep-and-shared", 24, [&](uint64_t i, Rng& r) {
        int n = i < 8 ? 200 + (int)i * 200 : 20 + (int)i * 3; bool dag = i >= 8; Node root; root.name = "a"; Node* x = &root; for (int k = 0; k < (dag ? 1 : std::min(n, 1000)); k++) { x->ch.emplace_back(new Node); x->ch.back()->parent = x; x = x->ch.back().get(); x->name = "a"; }
        std::string f = F("deep.xb"); if (!make(&root, f, false)) { h.eval(); h.distinct(fmt("%d refused", (int)i)); return; }
        std::string s = read_file(f);
        // payload's child is replaced by a chain of items at the end of file, each refers twice (or more) to the previous one
        if (dag) {
            Reader R(f); if (!R.Initialize()) return; XML_Item* P = R.doc->getChildByName(XTNR_PAYLOAD); size_t pay = (char*)P - (char*)R.doc, pl = P->length; R.Finalize();
            // layout: doc | payload header.. ; the chain is put inside of a grown payload
            std::string chain; std::vector<int> at; for (int k = 0; k < n; k++) { at.push_back(chain.size()); int c = k ? 2 + r.below(3) : 0; XML_Item it; it.name = 0; it.paramcount = 0; it.childcount = c; it.length = 12 + 4 * c + 4; chain.append((char*)&it, 12); for (int z = 0; z < c; z++) { int32_t rel = at[k - 1] - at[k]; chain.append((char*)&rel, 4); } chain.append(4, '\0'); }
            s.resize((s.size() + 3) & ~3); int base = s.size(); s += chain; XML_Item* D = (XML_Item*)&s[0]; D->length = s.size(); XML_Item* Q = (XML_Item*)&s[pay]; Q->length = s.size() - pay; ((int32_t*)(Q + 1))[Q->paramcount * 2] = base + at.back() - (int)pay; (void)pl;
        }
        h.desc(fmt("%s of %d", dag ? "shared chain" : "depth", n)); write_file(f, s); h.eval(); h.distinct(s); Reader R(f); if (R.Initialize()) { opened++; budget = 3000; walk(R, R.getRoot(), 0); export_all(R, 2000000); } R.Finalize();
    }, 30);
    // chains of shared elements, each ends with a reference to the previous ones: what is inside of a shared element counts for the nesting wherever it is referred from
    h.group_run("deep-chains", h.thorough ? 6000 : 500, [&](uint64_t i, Rng& r) {
        Node root; root.name = "a"; root.ch.emplace_back(new Node); root.ch.back()->parent = &root; root.ch.back()->name = "a"; std::string f = F("chain.xb"); if (!h.check(make(&root, f, false), "chains/make", "")) return; std::string s = read_file(f);
        size_t pay; { Reader R(f); if (!h.check(R.Initialize(), "chains/open", "")) return; pay = (char*)R.doc->getChildByName(XTNR_PAYLOAD) - (char*)R.doc; R.Finalize(); }
        int total = r.chance(60) ? 1000 + (int)r.below(50) : 1 + (int)r.below(i % 10 == 0 ? 300000 : 3000), most = r.pick(std::vector<int>{1, 3, 40, 400, 900, 1000, 1015}), left = total; if (total > 20000 && most < 100) most = 900;
        s.resize((s.size() + 3) & ~3); int base = s.size(); std::vector<int> at, depth, heads;
        auto item = [&](const std::vector<int>& kids) { int me = at.size(), o = s.size(); XML_Item it; it.name = 0; it.paramcount = 0; it.childcount = kids.size(); it.length = 12 + 4 * kids.size() + 4; s.append((char*)&it, 12); int d = 0; for (int k : kids) { int32_t rel = at[k] - o; s.append((char*)&rel, 4); d = std::max(d, depth[k]); } s.append(4, '\0'); at.push_back(o); depth.push_back(d + 1); return me; };
        int prev = -1; while (left > 0) { int n = std::min(left, 1 + (int)r.below(most)); left -= n; for (int k = 0; k < n; k++) { std::vector<int> kids; if (prev >= 0) kids.push_back(prev); if (k == 0 && heads.size() > 1 && r.chance(20)) kids.push_back(heads[r.below(heads.size())]); if (kids.size() > 1 && r.chance(50)) std::swap(kids[0], kids[1]); prev = item(kids); } heads.push_back(prev); }
        std::vector<int> kids = heads; if (r.chance(20)) std::reverse(kids.begin(), kids.end()); else if (r.chance(20)) kids = {heads.back()}; int top = item(kids);
        XML_Item* D = (XML_Item*)&s[0]; D->length = s.size(); XML_Item* Q = (XML_Item*)&s[pay]; Q->length = s.size() - pay; ((int32_t*)(Q + 1))[Q->paramcount * 2] = at[top] - (int)pay; (void)base;
        int deep = depth[top] + 2; h.desc(fmt("%d chains of at most %d elements, nested to %d", (int)heads.size(), most, deep)); write_file(f, s); h.eval(); h.distinct(s);
        Reader R(f); bool ok = R.Initialize(); if (ok) { opened++; h.check(deep <= XML_MAX_DEEP + 4, "chains/too-deep", fmt("file nested to %d was opened", deep)); if (deep <= XML_MAX_DEEP + 4) { budget = 3000; walk(R, R.getRoot(), 0); export_all(R, 300000); } }
        else { refused++; h.check(deep > XML_MAX_DEEP - 4, "chains/refused", fmt("valid file nested only to %d was refused", deep)); }
        R.Finalize(); if (i < 4) h.sample(fmt("nested to %d: %s", deep, ok ? "opened" : "refused"));
    }, 30);
}

// ------------------------------------------------------------------ R04
static bool value_same(const Value& v, const XML_Binary_Data_Ref& D) { return D.type == v.type && (v.type == XBT_NULL || (D.size == (int)v.raw.size() && !memcmp(D.data, v.raw.data(), v.raw.size()))); }
static bool same(Reader& R, XML_Item* X, const Node& n) {
    if (R.getNodeName(X->name) != n.name || X->paramcount != (int)n.attrs.size() || X->childcount != (int)n.ch.size() || !value_same(n.v, X->getData())) return false;
    for (size_t k = 0; k < n.attrs.size(); k++) { XML_Param_Description* P = X->getParamByIndex(k); if (R.getParamName(P->name) != n.attrs[k].name || !value_same(n.attrs[k].v, P->getData(X))) return false; }
    for (size_t k = 0; k < n.ch.size(); k++) if (!same(R, X->getChildByIndex(k), *n.ch[k])) return false;
    return true;
}
struct Doc { std::unique_ptr<Node> root; Node* holder; std::vector<std::string> tags, attrs; };
static void fill(Rng& r, Node* x, Doc& d, int nodes, int depth) {
    x->name = d.tags[r.below(d.tags.size())]; x->v = rand_value(r, STORABLE[r.below(NSTORABLE)], r.chance(8) ? 900 : 24); int k = r.below(4); std::set<std::string> used; for (int i = 0; i < k; i++) { std::string a = d.attrs[r.below(d.attrs.size())]; if (used.insert(a).second) x->attrs.push_back({a, rand_value(r, STORABLE[r.below(NSTORABLE)], 24)}); }
    int c = depth > 3 ? 0 : r.below(nodes); for (int i = 0; i < c; i++) { x->ch.emplace_back(new Node); x->ch.back()->parent = x; fill(r, x->ch.back().get(), d, nodes / 2, depth + 1); }
}
static Doc open_doc(Rng& r) {
    Doc d; d.tags = name_pool(r, 1 + r.below(8), ""); d.attrs = name_pool(r, 1 + r.below(8), ""); d.root.reset(new Node); d.root->name = d.tags[0]; d.root->v = rand_value(r, STORABLE[r.below(NSTORABLE)], 20);
    // all names are used in the document
    Node* all = new Node; d.root->ch.emplace_back(all); all->parent = d.root.get(); all->name = d.tags[0]; for (auto& a : d.attrs) all->attrs.push_back({a, rand_value(r, XBT_INT32)}); for (auto& t : d.tags) { all->ch.emplace_back(new Node); all->ch.back()->name = t; all->ch.back()->parent = all; }
    d.holder = d.root.get(); int deep = r.below(3); for (int k = 0; k < deep; k++) { d.holder->ch.emplace_back(new Node); Node* x = d.holder->ch.back().get(); x->parent = d.holder; x->name = d.tags[r.below(d.tags.size())]; x->v = rand_value(r, XBT_STRING, 12); d.holder = x; }
    if (r.chance(50)) { d.holder->ch.emplace_back(new Node); fill(r, d.holder->ch.back().get(), d, 3, 0); d.holder->ch.back()->parent = d.holder; }
    d.holder->ch.emplace_back(new Node); d.holder->ch.back()->parent = d.holder; d.holder->ch.back()->name = "et-tecera"; return d;
}
static XML_Item* find_holder(Reader& R, Doc& d) { std::vector<int> path; for (Node* x = d.holder; x->parent; x = x->parent) { int k = 0; while (x->parent->ch[k].get() != x) k++; path.push_back(k); } XML_Item* X = R.getRoot(); for (size_t k = path.size(); X && k-- > 0;) X = X->getChildByIndex(path[k]); return X; }
// reads the file, compares all visible records; returns number of records seen or -1
static int see(const std::string& f, Doc& d, const std::vector<std::unique_ptr<Node>>& recs, const std::string& when) {
    Reader R(f); if (!R.Initialize()) { h.fail("refused", "a file with appended records was refused " + when); R.Finalize(); return -1; }
    XML_Item* H_ = find_holder(R, d); int it = 0, fixed = 0, n = 0, res = 0; if (!H_) { h.fail("holder", when); return -1; }
    for (;;) {
        XML_Item* c = H_->getNextChild(R, it); if (!c) break;
        if (fixed < (int)d.holder->ch.size() - 1) { if (!same(R, c, *d.holder->ch[fixed])) { h.fail("fixed-child-changed", when); res = -1; } fixed++; continue; }
        if (n >= (int)recs.size()) { h.fail("extra-record", fmt("record %d of %d seen %s", n + 1, (int)recs.size(), when.c_str())); res = -1; break; }
        if (!same(R, c, *recs[n])) { h.fail("record-differs", fmt("record %d differs %s", n, when.c_str())); res = -1; break; } n++;
    }
    if (fixed != (int)d.holder->ch.size() - 1) { h.fail("fixed-children", when); res = -1; }
    // the rest of the document
    if (!same(R, R.getRoot()->getChildByIndex(0), *d.root->ch[0])) { h.fail("document-changed", when); res = -1; }
    std::string x; export_all(R, 4000000, &x); h.eval(); R.Finalize(); return res < 0 ? res : n;
}
static void r04() {
    h.group_run("every-prefix", h.thorough ? 6000 : 400, [&](uint64_t i, Rng& r) {
        Doc d = open_doc(r); std::string f = F("a.xb"), g = F("p.xb"); write_file(f + ".src", "x"); TreePlugin P((f + ".src").c_str(), d.root.get()); std::vector<std::unique_ptr<Node>> recs; std::vector<size_t> ends; size_t base;
        h.desc(show(*d.root).substr(0, 1500));
        { Bin_xml_creator X(&P, f.c_str()); if (!h.check(X.Make_xb(), "make", "")) return; base = read_file(f).size(); int n = 1 + r.below(6);
          for (int k = 0; k < n; k++) { recs.emplace_back(new Node); fill(r, recs.back().get(), d, 4, 1); if (!h.check(X.Append(recs.back().get()), "append", "append of a record with known names failed")) return; ends.push_back(read_file(f).size()); } }
        std::string s = read_file(f); h.check(see(f, d, recs, "after all") == (int)recs.size(), "count", fmt("not all of %d records are seen", (int)recs.size()));
        for (size_t n = base; n <= s.size(); n++) {
            write_file(g, s.substr(0, n)); int full = 0, almost = 0; for (size_t e : ends) { if (e <= n) full++; if (e <= n + 3) almost++; }
            int k = see(g, d, recs, fmt("in the first %d of %d bytes", (int)n, (int)s.size())); h.check(k < 0 || (k >= full && k <= almost), "prefix-count", fmt("%d records seen, %d complete in %d bytes of %d", k, full, (int)n, (int)s.size())); h.distinct(fmt("%s%d", s.c_str(), (int)n) + s);
        }
        if (i < 2) h.sample(fmt("%d bytes of document, %d records, %d bytes appended", (int)base, (int)recs.size(), (int)(s.size() - base)));
    }, 120);
    // appended by several sessions, unknown names refused, file size limit in the middle
    h.group_run("limits-and-refusals", h.thorough ? 8000 : 600, [&](uint64_t i, Rng& r) {
        Doc d = open_doc(r); std::string f = F("l.xb"); write_file(f + ".src", "x"); TreePlugin P((f + ".src").c_str(), d.root.get()); std::vector<std::unique_ptr<Node>> recs;
        h.desc(show(*d.root).substr(0, 1500)); Bin_xml_creator X(&P, f.c_str()); if (!h.check(X.Make_xb(), "make", "")) return; signal(SIGXFSZ, SIG_IGN);
        int n = 2 + r.below(6);
        for (int k = 0; k < n; k++) {
            std::unique_ptr<Node> x(new Node); fill(r, x.get(), d, 4, 1); std::string before = read_file(f); int what = r.below(3);
            if (what == 0) { Node* bad = x.get(); while (!bad->ch.empty() && r.chance(70)) bad = bad->ch[r.below(bad->ch.size())].get(); if (r.chance(50)) bad->name += "?unknown"; else bad->attrs.push_back({"?unknown", rand_value(r, XBT_INT32)}); bool ok = X.Append(x.get()); std::string after = read_file(f); h.check(!ok, "unknown-accepted", "record with a name that is not in tables was appended"); h.check(after == before, "unknown-written", fmt("%d bytes became %d", (int)before.size(), (int)after.size())); }
            else if (what == 1) { struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); l = o; l.rlim_cur = before.size() + r.below(60); setrlimit(RLIMIT_FSIZE, &l); bool ok = X.Append(x.get()); setrlimit(RLIMIT_FSIZE, &o); if (ok) recs.push_back(std::move(x)); }
            else { bool ok = X.Append(x.get()); h.check(ok, "append", "append of a record with known names failed"); if (ok) recs.push_back(std::move(x)); }
            h.check(see(f, d, recs, fmt("after step %d", k)) == (int)recs.size(), "steps-count", fmt("%d records are expected after step %d (kind %d)", (int)recs.size(), k, what));
        }
        h.distinct(read_file(f));
    }, 60);
    // a real writer killed at any time, readers look meanwhile
    h.group_run("killed-writer", h.thorough ? 1500 : 120, [&](uint64_t i, Rng& r) {
        Doc d = open_doc(r); std::string f = F("k.xb"); write_file(f + ".src", "x"); TreePlugin P((f + ".src").c_str(), d.root.get()); std::vector<std::unique_ptr<Node>> recs;
        for (int k = 0; k < 200; k++) { recs.emplace_back(new Node); fill(r, recs.back().get(), d, 4, 1); } h.desc(show(*d.root).substr(0, 1500));
        int pipefd[2]; if (pipe(pipefd)) return; { Bin_xml_creator X(&P, f.c_str()); if (!h.check(X.Make_xb(), "make", "")) return; }
        Bin_xml_creator X(&P, f.c_str()); if (!h.check(X.Make_xb(), "make", "")) return;
        pid_t pid = fork(); if (pid == 0) { close(pipefd[0]); for (auto& x : recs) { if (!X.Append(x.get())) _exit(5); char c = 1; if (write(pipefd[1], &c, 1) != 1) _exit(6); } pause(); _exit(0); }
        close(pipefd[1]); int looks = 1 + r.below(4), last = 0; for (int k = 0; k < looks; k++) { usleep(r.below(1500)); int n = see(f, d, recs, "while the writer works"); h.check(n < 0 || n >= last, "records-vanished", fmt("%d after %d", n, last)); if (n >= 0) last = n; }
        usleep(r.below(2000)); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); int acked = 0; char b[512]; ssize_t k; while ((k = read(pipefd[0], b, sizeof b)) > 0) acked += k; close(pipefd[0]);
        int n = see(f, d, recs, "after the kill"); h.check(n < 0 || n >= acked, "acknowledged-lost", fmt("%d records seen, %d acknowledged", n, acked)); h.distinct(fmt("%d", (int)i)); if (i < 3) h.sample(fmt("%d looks, %d acknowledged, %d seen", looks, acked, n));
    }, 60);
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "--prop=", 7)) prop = argv[i] + 7;
    h.init(argc, argv);
    if (prop == "R01") r01(); else if (prop == "R02") r02(); else if (prop == "R03") r03(); else if (prop == "R04") r04(); else return 3;
    h.finish(); return 0;
}
