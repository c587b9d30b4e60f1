// X02: what work takes it gives back. The same piece of work is done again and again in one process; bytes of heap (allocator
// of ASan), open descriptors and mapped files are counted after each repetition. ASan also sees double and wrong releases.
#include "jobs.h"
#include <sanitizer/allocator_interface.h>
#include <sys/resource.h>
#include <dirent.h>
#include <signal.h>
struct Use { size_t heap; int fds, maps; };
static Use use(const std::string& dir) {
    Use u{0, 0, 0}; { DIR* d = opendir("/proc/self/fd"); if (d) { while (readdir(d)) u.fds++; closedir(d); } }
    { FILE* f = fopen("/proc/self/maps", "r"); if (f) { char b[8192]; while (fgets(b, sizeof b, f)) if (strstr(b, dir.c_str())) u.maps++; fclose(f); } }
    u.heap = __sanitizer_get_current_allocated_bytes(); return u;
}
enum { BADXML = KINDS, BADJSON, DAMAGED, NOPLACE, REFUSED, HALFWAY, NOTHING, ALLKINDS };
static const char* XN[] = {"malformed xml", "malformed json", "damaged", "no place", "refused dictionary", "left half way", "missing files"};
static const char* nm(int k) { return k < KINDS ? KN[k] : XN[k - KINDS]; }
static std::string spoil(std::string s, Rng& r) { int k = 1 + r.below(4); for (int j = 0; j < k && s.size(); j++) switch (r.below(4)) { case 0: s.resize(r.below(s.size())); break; case 1: s[r.below(s.size())] = "<>{}[]\"&:,\0x"[r.below(12)]; break; case 2: s.erase(r.below(s.size()), 1 + r.below(6)); break; default: s.insert(r.below(s.size() + 1), 1, "<>{}[]\"&:,\0x"[r.below(12)]); } return s; }
static std::string tools(const std::string& f, const std::string& g, Rng& r) { // every way a file is converted, printed, copied
    std::string o; switch (r.below(5)) {
        case 0: o += fmt("%d", Bin_xml_packer::Convert(f.c_str(), g.c_str())); break;
        case 1: { Bin_xml_creator X(f.c_str(), g.c_str(), XBTARGET_XB); o += fmt("%d", X.Make_xb()); break; }
        case 2: { Bin_xml_creator X(f.c_str(), (g + "w").c_str(), XBTARGET_XBW); o += fmt("%d", X.DoAll()); break; }
        case 3: o += fmt("%d", Bin_xml_creator::Convert(f.c_str(), g.c_str())); break;
        default: { std::unique_ptr<Bin_src_plugin> P(BIN_SRC_PLUGIN_SELECTOR(f.c_str(), nullptr)); if (P && P->Initialize() && P->getRoot()) { std::ostringstream os; os << *P; o += dg(os.str()); } } }
    return o;
}
static std::string extra(int kind, uint64_t seed, const std::string& dir) {
    Rng r(seed); std::string o; std::string f = dir + "/x", g = dir + "/x.xb";
    if (kind == BADXML || kind == BADJSON) {
        f += kind == BADXML ? ".xml" : ".json"; std::string t; if (kind == BADXML) t = "<root>" + xml_of(r, 0) + "</root>"; else do t = json_of(r, 0); while (t[0] != '{'); write_file(f, spoil(t, r)); for (int k = 0; k < 3; k++) o += tools(f, g, r);
    }
    else if (kind == DAMAGED) {
        GenOpt q; q.maxnodes = 40; auto t = rand_tree(r, q); write_file(dir + "/s.src", "x"); { TreePlugin P((dir + "/s.src").c_str(), t.get()); Bin_xml_packer::Convert(&P, g.c_str()); } std::string s = read_file(g), x = s; int k = 1 + r.below(3); for (int j = 0; j < k && x.size() > 4; j++) { int32_t v = (int32_t)(r.chance(50) ? r.next() : r.below(x.size())); if (r.chance(20)) x.resize(r.below(x.size())); else memcpy(&x[r.below(x.size() / 4) * 4], &v, 4); if (x.size() < 8) break; } write_file(g, x);
        { Rd R(g); bool ok = R.Initialize(); o += fmt("%d", ok); if (ok || r.chance(50)) R.Finalize(); if (r.chance(30)) { ok = R.Initialize(); o += fmt("%d", ok); if (ok) R.Finalize(); } }
        { std::string w = dir + "/p.xbw"; unlink(w.c_str()); { BW_plugin W(w.c_str(), nullptr, 0x20000); if (W.Initialize()) { W.registerTag(0, "a", XBT_INT32); W.registerAttr(0, "b", XBT_STRING); W.allRegistered(); BW_element* e = W.tagInt32(0, 5); W.setRoot(e); e->attrStr(0, "text"); } } std::string y = read_file(w); switch (r.below(4)) { case 0: y.resize(r.below(y.size())); break; case 1: y[4 + r.below(21)] ^= 1 + r.below(127); break; case 2: y[28 + r.below(4)] ^= 1 + r.below(127); break; default: y += y; } write_file(w, y); BW_plugin W(w.c_str(), nullptr, 0x20000); o += fmt("%d", W.Initialize()); }
    }
    else if (kind == NOPLACE) { // destination cannot be written
        f += ".xml"; write_file(f, "<root>" + xml_of(r, 0) + xml_of(r, 0) + "</root>"); std::string bad = r.chance(50) ? dir + "/not/here/x.xb" : dir; 
        if (r.chance(50)) for (int k = 0; k < 3; k++) o += tools(f, bad, r);
        else { signal(SIGXFSZ, SIG_IGN); struct rlimit a, l; getrlimit(RLIMIT_FSIZE, &a); l = a; l.rlim_cur = r.below(600); setrlimit(RLIMIT_FSIZE, &l); for (int k = 0; k < 3; k++) o += tools(f, g, r); setrlimit(RLIMIT_FSIZE, &a); }
    }
    else if (kind == REFUSED) {
        std::string w = dir + "/r.xbw"; unlink(w.c_str()); { BW_plugin W(w.c_str(), nullptr, 0x20000); if (W.Initialize()) { W.registerTag(0, "a", XBT_INT32); W.registerAttr(0, "b", XBT_STRING); W.allRegistered(); if (r.chance(50)) { BW_element* e = W.tagInt32(0, 5); W.setRoot(e); } } }
        BW_plugin W(w.c_str(), nullptr, 0x20000); bool ok = W.Initialize(); o += fmt("%d", ok); if (ok) { o += fmt("%d", W.registerTag(0, r.chance(50) ? "a" : "c", r.chance(50) ? XBT_INT32 : XBT_STRING)); o += fmt("%d", W.registerAttr(r.below(2), "b", XBT_STRING)); o += fmt("%d", W.allRegistered()); }
        if (r.chance(50)) W.Finalize(); if (r.chance(30)) W.Finalize();
    }
    else if (kind == HALFWAY) { // objects abandoned in every state
        f += r.chance(50) ? ".xml" : ".json"; if (f.back() == 'l') write_file(f, "<root>" + xml_of(r, 0) + "</root>"); else { std::string t; do t = json_of(r, 0); while (t[0] != '{'); write_file(f, t); }
        int how = r.below(7); o += fmt("how %d ", how); switch (how) {
            case 0: { Bin_xml_creator X(f.c_str(), g.c_str(), XBTARGET_XB); break; }
            case 1: { Bin_xml_packer X(f.c_str(), g.c_str()); break; }
            case 2: { std::unique_ptr<Bin_src_plugin> P(BIN_SRC_PLUGIN_SELECTOR(f.c_str(), nullptr)); if (P && r.chance(70)) P->Initialize(); break; }
            case 3: { BW_plugin W((dir + "/h.xbw").c_str(), nullptr, 0x20000); if (r.chance(70) && W.Initialize() && r.chance(50)) W.registerTag(0, "a", XBT_NULL); break; }
            case 4: { Bin_xml_creator::Convert(f.c_str(), g.c_str()); Rd R(g); if (r.chance(70) && R.Initialize()) R.Finalize(); break; }
            case 5: { Bin_xml_creator X(f.c_str(), g.c_str(), XBTARGET_XB); X.Make_xb(); break; }
            default: { Bin_xml_creator X(f.c_str(), (dir + "/h2.xbw").c_str(), XBTARGET_XBW); if (r.chance(70)) X.DoAll(); break; } }
    }
    else { f += r.pick(std::vector<std::string>{".xml", ".json", ".xb", ".xbw", ".txt"}); unlink(f.c_str()); o += tools(f, g + "2", r); Rd R(dir + "/none.xb"); o += fmt("%d", R.Initialize()); BW_plugin W((dir + "/no/dir/x.xbw").c_str(), nullptr, 0x20000); o += fmt("%d", W.Initialize()); }
    return o;
}
static std::string once(int kind, uint64_t seed, const std::string& dir, const std::string& shared) {
    if (kind >= KINDS) return extra(kind, seed, dir);
    std::string o; { Job j; j.kind = kind; j.seed = seed; j.dir = dir; j.shared = shared; j.prepare(); j.run(); o = j.out; if (j.own.sh) { free(j.own.sh); close(j.own.out); } } return o;
}
static void x02() {
    auto body = [&](uint64_t i, Rng& r, int kind, int times) {
        std::string dir = h.work + fmt("/m%d", h.shard), cmd = "rm -rf '" + dir + "'", shared = dir + "/shared.xb"; if (system(cmd.c_str())) return; mkdir(dir.c_str(), 0755); uint64_t seed = r.next(); h.desc(std::string(nm(kind)) + fmt(" seed %llu", (unsigned long long)seed));
        { GenOpt o; o.maxnodes = 60; auto t = rand_tree(r, o); write_file(dir + "/shared.src", "x"); TreePlugin P((dir + "/shared.src").c_str(), t.get()); Bin_xml_packer::Convert(&P, shared.c_str()); }
        Use z = use(dir); std::string first; for (int k = 0; k < 2; k++) { first = once(kind, seed, dir, shared); } // what is prepared once for all is prepared
        h.desc(std::string(nm(kind)) + fmt(" seed %llu ", (unsigned long long)seed) + first.substr(0, 300)); Use a = use(dir), b; for (int k = 0; k < times; k++) once(kind, seed, dir, shared); b = use(dir);
        h.check(b.heap <= a.heap, std::string("heap/") + nm(kind), fmt("%lld bytes of heap are lost in %d repetitions", (long long)b.heap - (long long)a.heap, times));
        h.check(b.fds <= a.fds, std::string("descriptors/") + nm(kind), fmt("%d descriptors are left open after %d repetitions", b.fds - a.fds, times)); h.check(b.maps <= a.maps, std::string("mappings/") + nm(kind), fmt("%d mappings are left after %d repetitions", b.maps - a.maps, times));
        h.check(b.maps == z.maps, std::string("mapped/") + nm(kind), fmt("%d mappings of files are left when everything is destroyed", b.maps - z.maps));
        h.distinct(fmt("%d ", kind) + first); if (i < 4) h.sample(std::string(nm(kind)) + fmt(": %zu bytes, %d descriptors, %d mappings before and after %d repetitions; ", a.heap, a.fds, a.maps, times) + first.substr(0, 80)); if (system(cmd.c_str())) return;
    };
    h.group_run("work", h.thorough ? 20000 : 1600, [&](uint64_t i, Rng& r) { body(i, r, i % KINDS, 3); }, 120);
    h.group_run("failures", h.thorough ? 40000 : 4000, [&](uint64_t i, Rng& r) { body(i, r, KINDS + i % (ALLKINDS - KINDS), 3); }, 120);
    h.group_run("many-times", h.thorough ? 200 : 24, [&](uint64_t i, Rng& r) { body(i, r, i % ALLKINDS, 300); }, 300); // more than any table of instances or limit of descriptors holds
}
int main(int argc, char** argv) { h.init(argc, argv); debug_status = nullptr; setenv("TZ", "UTC", 1); tzset(); xmlInitParser(); x02(); h.finish(); return 0; }
