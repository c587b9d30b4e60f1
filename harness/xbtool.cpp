#include <fcntl.h>
#include <unistd.h>
// Batch driver: runs conversion jobs, each in its own child, and reports how each ended.
//   xbtool JOBS OUT     JOBS lines: <id>\t<command>\t<args...>     OUT lines: <id> <exit> <signal> <ms>
#include "tree.h"
#include <fstream>
#include <binary_xml/bin_write_plugin.h>
#include "bwm.h"
#include "xbwed.h"
#include "xbwevo.h"
using namespace pklib_xml;
static std::vector<std::string> split(const std::string& l) { std::vector<std::string> v; size_t b = 0; for (;;) { size_t e = l.find('\t', b); v.push_back(l.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) return v; b = e + 1; } }
static void dumphex(FILE* f, const std::string& s) { if (s.empty()) fputc('-', f); else for (unsigned char c : s) fprintf(f, "%02x", c); }
static std::string chunks(XML_Param_Description* p, XML_Item* X) { std::string s; char b[700]; for (int off = 0;;) { int n = p->getStringChunk(X, off, b, sizeof b); if (n <= 0) break; s.append(b, n); } return s; }
static std::string chunks(XML_Item* X) { std::string s; char b[700]; for (int off = 0;;) { int n = X->getStringChunk(off, b, sizeof b); if (n <= 0) break; s.append(b, n); } return s; }
static void dump(FILE* f, XB_reader& R, XML_Item* X, int deep) {
    fprintf(f, "E %d ", deep); dumphex(f, R.getNodeName(X->name)); fprintf(f, " %d ", X->getData().type); dumphex(f, chunks(X)); fputc('\n', f);
    for (int i = 0; i < X->paramcount; i++) { XML_Param_Description* p = X->getParamByIndex(i); fprintf(f, "A "); dumphex(f, R.getParamName(p->name)); fprintf(f, " %d ", p->type); dumphex(f, chunks(p, X)); fputc('\n', f); }
    int i = 0; for (;;) { XML_Item* c = X->getNextChild(R, i); if (!c) break; dump(f, R, c, deep + 1); }
}
// a source whose result would be greater than the format allows: all its values are one and the same text
struct Giant : Bin_src_plugin {
    int n; bool typed, attr; std::string text;
    Giant(const char* f, int n, size_t size, const std::string& kind) : Bin_src_plugin(f, nullptr), n(n), typed(kind != "text"), attr(kind == "attr"), text(size, 'x') {}
    bool Initialize() override { return true; }
    bool isroot(void* e) { return e == (void*)1; }
    void* getRoot() override { return (void*)1; }
    const char* getNodeName(void* e) override { return isroot(e) ? "root" : "item"; }
    const char* getNodeValue(void* e) override { return isroot(e) || attr ? nullptr : text.c_str(); }
    const char* getNodeBinValue(void* e, XML_Binary_Type& t, int& size) override { size = 0; if (!typed) { t = XBT_UNKNOWN; return nullptr; } if (isroot(e) || attr) { t = XBT_NULL; return nullptr; } t = XBT_STRING; size = text.size() + 1; return text.c_str(); }
    void ForAllChildren(OnElement_t on, void* e, void* u) override { if (isroot(e)) for (int i = 0; i < n; i++) on((void*)(intptr_t)(2 + i), u); }
    void ForAllChildrenRecursively(OnElementRec_t on, void* e, void* u, int deep) override { on(e, u, deep); if (isroot(e)) for (int i = 0; i < n; i++) on((void*)(intptr_t)(2 + i), u, deep + 1); }
    void ForAllParams(OnParam_t on, void* e, void* u) override { if (attr && !typed && !isroot(e)) on("a", text.c_str(), e, u); }
    bool ForAllBinParams(OnBinParam_t on, void* e, void* u) override { if (!typed) return false; if (attr && !isroot(e)) on("a", 0, XBT_STRING, text.c_str(), e, u); return true; }
    int getSymbolCount(SymbolTableTypes t) override { return !typed ? -1 : t == SYMBOL_TABLE_NODES ? 2 : attr ? 1 : 0; }
    const char* getSymbol(SymbolTableTypes t, int i, XML_Binary_Type& ty) override { ty = t == SYMBOL_TABLE_NODES && (i == 1 || attr) ? XBT_NULL : XBT_STRING; return t == SYMBOL_TABLE_NODES ? (i ? "root" : "item") : "a"; }
};
static int job(const std::vector<std::string>& a) {
    const std::string& c = a[1];
    if (c == "conv") { Bin_xml_creator X(a[2].c_str(), a[3].c_str(), XBTARGET_XB); return X.Make_xb() ? 0 : 1; }
    if (c == "convw") { Bin_xml_creator X(a[2].c_str(), a[3].c_str(), XBTARGET_XBW); return X.Make_xbw() ? 0 : 1; }
    if (c == "convwall") { Bin_xml_creator X(a[2].c_str(), a[3].c_str(), XBTARGET_XBW); return X.DoAll() ? 0 : 1; }
    if (c == "print") { std::unique_ptr<Bin_src_plugin> P(BIN_SRC_PLUGIN_SELECTOR(a[2].c_str(), nullptr)); if (!P || !P->Initialize() || !P->getRoot()) return 1; std::ofstream o(a[3], std::ios::binary); o << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" << *P; o.close(); return o ? 0 : 9; }
    if (c == "printf") { // plain listing to stdout
        std::unique_ptr<Bin_src_plugin> P(BIN_SRC_PLUGIN_SELECTOR(a[2].c_str(), nullptr)); if (!P || !P->Initialize() || !P->getRoot()) return 1;
        fflush(stdout); int old = dup(1), fd = open(a[3].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || old < 0) return 9; dup2(fd, 1); close(fd);
        P->print(); fflush(stdout); std::cout.flush(); dup2(old, 1); close(old); return 0;
    }
    if (c == "convall") { Bin_xml_creator X(a[2].c_str(), a[3].c_str(), XBTARGET_XB); return X.DoAll() ? 0 : 1; }
    if (c == "convs") return Bin_xml_creator::Convert(a[2].c_str(), a[3].c_str()) ? 0 : 1;
    if (c == "genprint") { // genprint SEED OUT SPEC nodes
        vh::Rng r(strtoull(a[2].c_str(), 0, 10)); tree::GenOpt o; o.maxnodes = atoi(a[5].c_str()); o.names = 1 + r.below(30); o.maxdepth = 12;
        auto t = tree::rand_tree(r, o); FILE* f = fopen(a[4].c_str(), "wb"); if (!f) return 9; tree::write_spec(f, *t); fclose(f);
        tree::TreePlugin P("x.src", t.get()); std::ofstream os(a[3], std::ios::binary); os << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" << P; os.close(); return os ? 0 : 9;
    }
    if (c == "pack") return Bin_xml_packer::Convert(a[2].c_str(), a[3].c_str()) ? 0 : 1;
    if (c == "export" || c == "dump") {
        char fn[4096]; snprintf(fn, sizeof fn, "%s", a[2].c_str());
        XB_reader R(fn); if (!R.Initialize()) { R.Finalize(); return 1; }
        if (c == "export") { std::ofstream o(a[3], std::ios::binary); o << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" << R; o.close(); if (!o) return 9; }
        else { FILE* f = fopen(a[3].c_str(), "wb"); if (!f) return 9; dump(f, R, R.getRoot(), 0); fclose(f); }
        return R.Finalize() ? 0 : 2;
    }
    if (c == "auto") { // the caller's name must survive, however the reader works
        std::string keep = a[2]; char* fn = strdup(a[2].c_str()); int rc = 0;
        { XB_reader R(fn); bool ok = R.Initialize(); if (keep != fn) rc = 5; else if (!ok) rc = 1; else { std::ofstream o(a[3], std::ios::binary); o << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" << R; o.close(); if (!o) rc = 9; }
          R.Finalize(); if (keep != fn) rc = 5; }
        free(fn); return rc;
    }
    if (c == "giant") { // giant DST creator|packer|xbw text|bin|attr N SIZE
        tree::write_file(a[2] + ".src", "x"); Giant P((a[2] + ".src").c_str(), atoi(a[5].c_str()), atoll(a[6].c_str()), a[4]);
        if (a[3] == "xbw") { Bin_xml_creator X(&P, a[2].c_str(), XBTARGET_XBW); return X.Make_xbw() ? 0 : 1; }
        if (a[3] == "packer") return Bin_xml_packer::Convert(&P, a[2].c_str()) ? 0 : 1;
        Bin_xml_creator X(&P, a[2].c_str()); return X.Make_xb() ? 0 : 1;
    }
    if (c == "gen") { // gen SEED XB SPEC creator|packer nodes repeats
        vh::Rng r(strtoull(a[2].c_str(), 0, 10)); tree::GenOpt o; o.maxnodes = atoi(a[6].c_str()); o.repeats = a[7] == "1"; o.names = 1 + r.below(30); o.maxdepth = 12;
        auto t = tree::rand_tree(r, o); FILE* f = fopen(a[4].c_str(), "wb"); if (!f) return 9; tree::write_spec(f, *t); fclose(f);
        tree::write_file(a[3] + ".src", "x"); tree::TreePlugin P((a[3] + ".src").c_str(), t.get());
        if (a[5] == "xbw") { Bin_xml_creator X(&P, a[3].c_str(), XBTARGET_XBW); return X.Make_xbw() ? 0 : 1; }
        if (a[5] == "packer") return Bin_xml_packer::Convert(&P, a[3].c_str()) ? 0 : 1;
        Bin_xml_creator X(&P, a[3].c_str()); return X.Make_xb() ? 0 : 1;
    }
    if (c == "bwgen") { // bwgen SEED XBW SPEC STEPS STYLE: a writable document made by edits; its content by model; its XML as exported by the editing process
        vh::Rng r(strtoull(a[2].c_str(), 0, 10)); int steps = atoi(a[5].c_str()), style = atoi(a[6].c_str()); bwm::Doc D; D.d = bwm::rand_dict(r, style == 2 ? 200 : 12, style == 1); vh::H h; unlink(a[3].c_str());
        BW_plugin W(a[3].c_str(), nullptr, 0x2000000); if (!W.Initialize() || !bwm::reg(&W, D.d, r.below(bwm::REG_N), r) || !W.allRegistered()) return 3;
        bwm::Ed ed(h, &W, D, vh::Rng(r.next())); ed.plain = true; ed.grow = style == 3 ? 1 : 0; ed.maxlen = style == 4 ? 6000 : 40; std::string what; uint64_t n[4] = {0};
        for (int k = 0; k < steps && ed.err.empty(); k++) { if (style == 1 && ed.r.chance(10)) ed.bad(bwm::evolve(&W, D, ed.r, what, n)); ed.step(); }
        if (!ed.err.empty()) { fprintf(stderr, "%s\n", ed.err.c_str()); return 4; } if (!D.root) { BW_element* E = W.tag(0); D.root = D.node(0, true, tree::Value()); W.setRoot(E); }
        std::string e = bwm::compare(&W, D, true); if (!e.empty()) { fprintf(stderr, "%s\n", e.c_str()); return 5; }
        FILE* f = fopen(a[4].c_str(), "wb"); if (!f) return 9; tree::write_spec(f, *bwm::to_tree(D.d, D.root)); fclose(f);
        std::ofstream o(a[4] + ".xml", std::ios::binary); o << W; o.close(); if (!o) return 9;
        e = bwm::compare(&W, D); if (!e.empty()) { fprintf(stderr, "after export %s\n", e.c_str()); return 6; } return 0;
    }
    if (c == "bwdeep") { // bwdeep SEED XBW SPEC LEVELS: a writable document of that many nested elements, a few of them with more content
        vh::Rng r(strtoull(a[2].c_str(), 0, 10)); int n = atoi(a[5].c_str()); unlink(a[3].c_str()); BW_plugin W(a[3].c_str(), nullptr, 0x2000000); bwm::Doc D; D.d.t[0] = {{"a", XBT_NULL}, {"b", XBT_NULL}, {"s", XBT_STRING}, {"i", XBT_INT64}}; D.d.t[1] = {{"k", XBT_INT32}};
        if (!W.Initialize() || !bwm::reg(&W, D.d, bwm::REG_ID, r) || !W.allRegistered()) return 3;
        std::vector<bwm::M*> v; for (int i = 0; i < n; i++) { int id = r.below(2); if (i == n - 1 && r.chance(50)) id = 2; tree::Value x = tree::rand_value(r, D.d.t[0][id].second); BW_element* e = bwm::mk(&W, id, x, 0); if (!e) return 4; bwm::M* m = D.node(id, true, x); m->off = e->offset; if (!i) { W.setRoot(e); D.root = m; } else { W.BWE(v.back()->off)->add(e); v.back()->ch.push_back(m); m->up = v.back(); } v.push_back(m);
            if (r.chance(3)) { tree::Value y = tree::rand_value(r, XBT_INT64); BW_element* q = bwm::mk(&W, 3, y, 0); if (!q) return 4; bwm::M* z = D.node(3, true, y); e->add(q); m->ch.push_back(z); } if (r.chance(3)) { tree::Value y = tree::rand_value(r, XBT_INT32); if (!bwm::mkattr(e, 0, y, 0)) return 4; bwm::M* z = D.node(0, false, y); m->at.push_back(z); } }
        FILE* f = fopen(a[4].c_str(), "wb"); if (!f) return 9; tree::write_spec(f, *bwm::to_tree(D.d, D.root)); fclose(f); return 0;
    }
    if (c == "bwexport") { BW_plugin W(a[2].c_str(), nullptr, 0x2000000); if (!W.Initialize()) return 3; std::ofstream o(a[3], std::ios::binary); o << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" << W; o.close(); return o ? 0 : 9; }
    return 8;
}
int main(int argc, char** argv) {
    std::ifstream in(argv[1]); FILE* out = fopen(argv[2], "w"); std::string line; std::string err = std::string(argv[2]) + ".err";
    while (std::getline(in, line)) {
        auto a = split(line); if (a.size() < 2) continue;
        int ef = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
        pid_t pid = fork();
        if (pid == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(ef, 2); alarm(30); int rc = job(a); fflush(0); _exit(rc); }
        close(ef); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        clock_gettime(CLOCK_MONOTONIC, &t1);
        int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1, sg = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        fprintf(out, "%s %d %d %ld", a[0].c_str(), rc, sg, (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000);
        if (rc != 0) { std::string e = tree::read_file(err); size_t p = e.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = e.find("runtime error:"); if (p == std::string::npos) p = e.find("Assertion"); if (p != std::string::npos) e = e.substr(p > 200 ? p - 200 : 0, 1500); else if (e.size() > 600) e = e.substr(e.size() - 600); fprintf(out, " %s", vh::jesc(e).c_str()); }
        fputc('\n', out); fflush(out);
    }
    fclose(out); return 0;
}
