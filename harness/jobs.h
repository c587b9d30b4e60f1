#pragma once
// One piece of work of every kind a process can do with the library: used alone, repeatedly, and in threads.
#include "xbwed.h"
using namespace bwm;
static std::string path_of(vh::H& h, const char* n = "d") { return h.work + vh::fmt("/%s-%d.xbw", n, h.shard); }
#include "xbwcopy.h"
#include "ref.h"
#include <thread>
#include <atomic>
#include <mutex>
#include <sstream>
#include <libxml/parser.h>
#include <binary_xml/files.h>
#include <binary_xml/utils.h>
#include <binary_xml/missings.h>
using namespace vh; using namespace tree;
static H h;
template<class FN> static std::string all_chunks(FN fn, int z) { std::string s; std::vector<char> b(z); int off = 0; for (int k = 0; k < 100000; k++) { int n = fn(off, b.data(), z); if (n <= 0) break; s.append(b.data(), n); } return s; }
struct Rd : XB_reader { std::string n; Rd(const std::string& f) : XB_reader(nullptr), n(f) { setFilename(&n[0]); } };
static std::string dg(const std::string& s) { return fmt("%016llx/%d ", (unsigned long long)hash_bytes(s.data(), s.size()), (int)s.size()); }
static void walk(XB_reader& R, XML_Item* X, std::string& o, int chunk) {
    const char* name = R.getNodeName(X->name); o += fmt("<%s %d", name ? name : "?", R.getNodeID(name ? name : "?") == X->name);
    for (int k = 0; k < X->paramcount; k++) {
        XML_Param_Description* P = X->getParamByIndex(k); const char* pn = R.getParamName(P->name); XML_Binary_Data_Ref D = P->getData(X);
        o += fmt(" %s %d %d:", pn, R.getParamID(pn) == P->name, X->getParamByName((XML_Param_Names)P->name) == X->getParamByName((XML_Param_Names)R.getParamID(pn))); if (D.type != XBT_NULL && D.data && D.size > 0) o.append(D.data, D.size); o += "|" + all_chunks([&](int& f, char* b, int z) { return P->getStringChunk(X, f, b, z); }, chunk);
        if (D.type == XBT_INT32) { const int32_t* p = P->getIntPtr(X); o += fmt("%d %d", P->getInt(X), p ? *p : -1); }
        if (D.type == XBT_INT64) { const int64_t* p = P->getInt64Ptr(X); o += p ? fmt("%lld", (long long)*p) : "?"; }
        if (D.type == XBT_STRING) o += P->getString(X);
    }
    XML_Binary_Data_Ref D = X->getData(); o += fmt(">%d:", D.type); if (D.type != XBT_NULL && D.data && D.size > 0) o.append(D.data, D.size); o += "|" + all_chunks([&](int& f, char* b, int z) { return X->getStringChunk(f, b, z); }, chunk);
    if (D.type == XBT_INT32) { const int32_t* p = X->getIntPtr(); o += fmt("%d %d", X->getInt(), p ? *p : -1); }
    if (D.type == XBT_STRING) o += X->getString();
    int it = 0; while (XML_Item* C = X->getNextChild(R, it)) { o += fmt("%d", X->getChildByName((XML_Tag_Names)C->name) != nullptr); walk(R, C, o, chunk); }
    o += "/";
}
static std::string view(const std::string& f, int chunk, bool exported) {
    Rd R(f); if (!R.Initialize()) return "refused"; std::string o; walk(R, R.getRoot(), o, chunk);
    if (exported) { std::ostringstream s; s << R; o += s.str(); }
    R.Finalize(); return o;
}
enum { READ, READ_SHARED, VALUES, HELPERS, JSON, TYPED, EDIT, COPY, JOURNAL, FILES, XML, KINDS };
static const char* KN[] = {"read", "read-shared", "values", "helpers", "json", "typed", "edit", "copy", "journal", "files", "xml"};
static std::string json_of(Rng& r, int deep) {
    switch (deep > 4 ? r.below(4) : r.below(6)) {
        case 0: return fmt("%d", (int)r.next()); case 1: return r.chance(50) ? "true" : "null"; case 2: return fmt("\"t%llx\\u00e9\\n\"", (unsigned long long)r.next()); case 3: return fmt("%d.%d", (int)r.below(1000), (int)r.below(1000));
        case 4: { std::string s = "["; int n = r.below(6); for (int k = 0; k < n; k++) s += (k ? "," : "") + json_of(r, deep + 1); return s + "]"; }
        default: { std::string s = "{"; int n = deep ? r.below(6) : 6; for (int k = 0; k < n; k++) s += (k ? "," : "") + fmt("\"k%d\":", (int)r.below(30)) + json_of(r, deep + 1); return s + "}"; } }
}
static std::string xml_of(Rng& r, int deep) {
    std::string n = fmt("e%d", (int)r.below(12)), s = "<" + n; int k = r.below(3); for (int j = 0; j < k; j++) s += fmt(" a%d=\"%d\"", j, (int)r.below(100000)); s += ">";
    if (deep < 5 && r.chance(70)) { int c = 1 + r.below(5); for (int j = 0; j < c; j++) s += xml_of(r, deep + 1); } else s += r.chance(50) ? fmt("%d", (int)r.below(1000)) : fmt("text %x &amp; more", (unsigned)r.next());
    return s + "</" + n + ">";
}
struct Job {
    int kind; uint64_t seed; std::string dir, shared, out; int rounds = 1;
    uint64_t t0 = 0, t1 = 0; std::unique_ptr<BW_plugin> W; bwm::Doc D; H own; int how = 0; std::unique_ptr<Src> S;
    void prepare() { // one at a time
        mkdir(dir.c_str(), 0755); Rng r(seed);
        if (kind == READ) { GenOpt o; o.maxnodes = 60; auto t = rand_tree(r, o); write_file(dir + "/s.src", "x"); TreePlugin P((dir + "/s.src").c_str(), t.get()); if (r.chance(50)) Bin_xml_packer::Convert(&P, (dir + "/s.xb").c_str()); else { Bin_xml_creator X(&P, (dir + "/s.xb").c_str()); X.Make_xb(); } }
        if (kind == EDIT || kind == COPY || kind == JOURNAL) { own.sh = (Shared*)calloc(1, sizeof(Shared)); own.out = open("/dev/null", O_WRONLY); own.work = dir; }
        if (kind == COPY) {
            Dict d = rand_dict(r, r.chance(60) ? 4 : 12, false); std::map<int, std::vector<Value>> pool; S.reset(new Src); if (!make_src(own, *S, d, Rng(r.next()), "s", 5 + r.below(50), pool)|| !open_target(own, W, dir + "/t.xbw", *S, D)) { out += "not opened "; return; } S->R->keys = rand_keys(r, S->D.d, 40);
        }
        if (kind == JOURNAL) {
            D.d = rand_dict(r, 8, false); W.reset(open_doc(r, dir + "/j.xbw", 0x200000)); if (!W->Initialize() || !reg(W.get(), D.d, REG_ID, r) || !W->allRegistered()) { out += "not opened "; return; }
            BW_element* root = W->tag(0); W->setRoot(root); root->add(W->tag(XTNR_ET_TECERA));
        }
        if (kind == EDIT) {
            D.d = bwm::rand_dict(r, 12, true); how = r.below(bwm::REG_N);
            W.reset(bwm::open_doc(r, dir + "/d.xbw", 0x200000)); if (!W->Initialize() || !bwm::reg(W.get(), D.d, how, r)|| !W->allRegistered()) out += "not opened ";
        }
    }
    void run() { for (int k = 0; k < rounds; k++) once(k); }
    void once(int round) {
        Rng r(seed + 17 + round); auto pause = [&] { if (r.chance(30)) usleep(r.below(200)); else if (r.chance(30)) std::this_thread::yield(); };
        if (kind == READ || kind == READ_SHARED) { pause(); out += dg(view(kind == READ ? dir + "/s.xb" : shared, 700 + (kind == READ ? 0 : (int)(seed % 600)), r.chance(50))); }
        else if (kind == VALUES) {
            for (int k = 0; k < 60; k++) {
                static const int T[] = {XBT_STRING, XBT_BLOB, XBT_INT32, XBT_INT64, XBT_HEX, XBT_GUID, XBT_SHA1, XBT_UNIX_TIME, XBT_IPv4, XBT_UINT64, XBT_UNIX_TIME64_MSEC, XBT_UINT32, XBT_UNIX_DATE, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO, XBT_BLOB_STRING, XBT_FLOAT, XBT_DOUBLE};
                Value v = rand_value(r, T[r.below(sizeof T / sizeof *T)], 300), u = rand_value(r, v.type, 300); std::vector<uint64_t> a(v.raw.size() / 8 + 2), b(u.raw.size() / 8 + 2); memcpy(a.data(), v.raw.data(), v.raw.size()); memcpy(b.data(), u.raw.data(), u.raw.size());
                char* A = (char*)a.data(); char* B = (char*)b.data(); XML_Binary_Type t = (XML_Binary_Type)v.type;
                std::string s = all_chunks([&](int& o, char* q, int z) { return XBT_ToStringChunk(t, A, o, q, z); }, 600 + (int)r.below(600)); out += dg(s);
                CStr c(s); XML_Binary_Type det = XBT_Detect(c.p); int need = XBT_SizeFromString(c.p, det); out += fmt("%d,%d,%d", det, need, (int)XBT_KeepsText(c.p, det)); if (need >= 0) { std::vector<uint64_t> w(need / 8 + 8); char* p = (char*)w.data(); bool ok = XBT_FromString(c.p, det, &p, (char*)w.data() + w.size() * 8); out += fmt(" %d ", ok) + dg(std::string((char*)w.data(), p)); }
                int cmp = XBT_Compare(t, A, v.raw.size(), t, B, u.raw.size()); out += fmt("%d;", cmp < 0 ? -1 : cmp > 0); out += fmt("%d %d;", XBT_JoinTypes(det, t), XBT_ConvertableType(t, det));
                { std::ostringstream os; XBT_ToXMLStream(t, A, os, r.chance(50)); os << "|"; XBT_ToStringStream(t, A, os); out += dg(os.str()); }
                if (k % 10 == 0) pause();
            }
        }
        else if (kind == HELPERS) {
            for (int k = 0; k < 40; k++) {
                std::string m; int n = r.below(3000); for (int j = 0; j < n; j++) m += (char)r.next(); unsigned char sh[20]; SHA1((unsigned char*)&m[0], m.size(), sh); out += hexs(sh, 20);
                std::vector<char> e(n * 2 + 16); base64_encode((const unsigned char*)m.data(), n, e.data(), e.size()); out += dg(e.data());
                std::vector<int32_t> v(n); for (auto& x : v) x = (int32_t)r.below(50); auto cb = [](const void* a, const void* b, void* arg) { (*(int64_t*)arg)++; int32_t x = *(const int32_t*)a, y = *(const int32_t*)b; return x < y ? -1 : x > y; }; int64_t calls = 0;
                if (k & 1) mergesort_r2(v.data(), n, 4, cb, &calls); else qsort_r2(v.data(), n, 4, cb, &calls); out += dg(std::string((char*)v.data(), v.size() * 4)); if (k % 10 == 0) pause();
            }
        }
        else if (kind == JSON || kind == XML) {
            std::string f = dir + (kind == JSON ? "/j.json" : "/x.xml"), g = dir + "/o.xb"; std::string text; if (kind == JSON) { do text = json_of(r, 0); while (text[0] != '{'); } else text = "<root>" + xml_of(r, 0) + "</root>"; write_file(f, text); pause();
            bool packed = r.chance(50), ok; if (packed) ok = Bin_xml_packer::Convert(f.c_str(), g.c_str()); else { Bin_xml_creator X(f.c_str(), g.c_str(), XBTARGET_XB); ok = X.Make_xb(); } out += fmt("%d ", ok) + dg(view(g, 512, true));
            pause(); { std::unique_ptr<Bin_src_plugin> P(BIN_SRC_PLUGIN_SELECTOR(f.c_str(), nullptr)); if (P && P->Initialize() && P->getRoot()) { std::ostringstream os; os << *P; out += dg(os.str()); } else out += "no source"; }
        }
        else if (kind == TYPED) {
            GenOpt o; o.maxnodes = 80; auto t = rand_tree(r, o); write_file(dir + "/t.src", "x"); TreePlugin P((dir + "/t.src").c_str(), t.get()); std::string g = dir + "/t.xb"; bool ok; pause();
            if (r.chance(50)) ok = Bin_xml_packer::Convert(&P, g.c_str()); else { Bin_xml_creator X(&P, g.c_str()); ok = X.Make_xb(); } out += fmt("%d ", ok) + dg(view(g, 600, true)); std::ostringstream os; os << P; out += dg(os.str());
        }
        else if (kind == EDIT) {
            bwm::Ed ed(own, W.get(), D, Rng(seed + 99 + round)); ed.maxlen = 60; for (int j = 0; j < 60 && ed.err.empty(); j++) { ed.step(); if (j % 16 == 0) pause(); } out += ed.err; std::string e = bwm::compare_content(W.get(), D); out += e; if (D.root) out += dg(bwm::show(D.root));
            if (D.root) { std::ostringstream os; os << *W; out += dg(os.str()); Bin_xml_creator X(W.get(), (dir + "/e.xb").c_str()); bool ok = X.Make_xb(); out += fmt("%d ", ok); if (ok) out += dg(view(dir + "/e.xb", 600, false)); }
        }
        else if (kind == COPY) {
            if (out.find("not opened") != std::string::npos) return; auto EL = S->elements(); std::vector<M*> made;
            for (int k = 0; k < 10; k++) {
                M* l = EL[r.below(EL.size())]; std::vector<M*> path; for (M* x = l; x; x = x->up) path.insert(path.begin(), x); if (path.size() > 10) path.resize(10); std::vector<XML_Item*> px; for (M* x : path) px.push_back(S->item[x]); bool whole = r.chance(60);
                BW_element* x = call_path(W.get(), *S->R, px, whole); out += fmt("%d", x != nullptr); int n = 0; M* m = m_path(D, path, whole, S->R->keys, n); out += (m != nullptr) == (x != nullptr) ? "" : "!"; for (int j = 0; j < 10 && x; j++) { M* s = EL[r.below(EL.size())]; out += fmt("%d", x->EqualKeys(*S->R, S->item[s])); } if (k % 3 == 0) pause();
            }
            out += compare_content(W.get(), D); if (D.root) { std::ostringstream os; os << *W; out += dg(os.str()); }
        }
        else if (kind == JOURNAL) {
            if (out.find("not opened") != std::string::npos || round) return; Bin_xml_creator X(W.get(), (dir + "/j.xb").c_str()); out += fmt("%d ", X.Make_xb());
            for (int b = 0; b < 8; b++) { out += fmt("%d", W->Clear()); Doc B; B.d = D.d; B.root = B.node(0, true, Value()); BW_element* HE = W->tag(0); B.root->off = HE->offset; W->setRoot(HE); Ed ed(own, W.get(), B, Rng(seed + b)); ed.plain = true; ed.grow = 1; ed.maxlen = 30; for (int k = 0; k < 14; k++) ed.step(); out += ed.err; if (!B.root->ch.empty()) out += fmt("%d", W->Write(W->BWE(W->BWE(B.root->off)->first_child))); pause(); }
            out += dg(view(dir + "/j.xb", 600, true));
        }
        else if (kind == FILES) {
            std::string sub = dir + fmt("/a/b%d/c", round), m; for (int k = 0; k < 3000; k++) m += (char)r.next(); out += fmt("%d", (int)force_directory((sub + "/").c_str(), 0755)); write_file(sub + "/f", m); pause(); unsigned char sh[20]; out += fmt("%d", (int)file_getsha1((sub + "/f").c_str(), sh)) + hexs(sh, 20); out += fmt("%lld", (long long)file_getsize((sub + "/f").c_str())); out += fmt("%d", (int)file_exists((sub + "/f").c_str())); std::set<std::string> seen; scan_dir(sub.c_str(), &seen, [](const char*, const char* f, void* u, uint8_t) { ((std::set<std::string>*)u)->insert(f); return true; }); for (auto& x : seen) out += x + ",";
            char* n = AllocFilenameChangeExt((sub + "/f.abc").c_str(), ".xb"); out += n + dir.size(); delete [] n;
        }
    }
};
