// Writable documents (.xbw): every answer of the real plugin is compared with an ordinary tree (bwm.h).
#include <limits.h>
#include <sys/resource.h>
#include <signal.h>
#include "bwm.h"
#include "xbwed.h"
using namespace bwm;
static std::string path_of(vh::H& h, const char* n = "d") { return h.work + vh::fmt("/%s-%d.xbw", n, h.shard); }

// ------------------------------------------------------------------------------------------------ W01
static void w01(vh::H& h) {
    h.group_run("edit", h.thorough ? 60000 : 8000, [&](uint64_t i, vh::Rng& r) {
        std::string p = path_of(h); unlink(p.c_str());
        W_t W(p.c_str(), nullptr, 0x400000); Doc D; D.d = rand_dict(r, r.chance(30) ? 4 : 40, r.chance(50)); int how = r.below(REG_N);
        h.desc(vh::fmt("case %d how %d", (int)i, how));
        if (!h.check(W.Initialize() && reg(&W, D.d, how, r) && W.allRegistered(), "open", "new document was refused")) return;
        std::string e = check_dict(&W, D.d); if (!h.check(e.empty(), "dictionary", e)) return;
        Ed ed(h, &W, D, r); int n = 5 + r.below(r.chance(10) ? 300 : 70);
        for (int k = 0; k < n; k++) {
            ed.step(); h.desc(ed.log); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return;
            e = compare(&W, D); if (!h.check(e.empty(), "after " + ed.op, e)) return;
            e = ed.queries(); if (!h.check(e.empty(), "query", e)) return;
        }
        e = check_dict(&W, D.d); h.check(e.empty(), "dictionary", e);
        h.distinct(ed.log); h.sample(ed.log);
        W.Finalize(); unlink(p.c_str());
    }, 30);
    h.group_run("whole", h.thorough ? 20000 : 2500, [&](uint64_t i, vh::Rng& r) { // the callbacks other parts read a document by
        std::string p = path_of(h); unlink(p.c_str());
        W_t W(p.c_str(), nullptr, 0x800000); Doc D; D.d = rand_dict(r, 25, r.chance(50)); if (!h.check(W.Initialize() && reg(&W, D.d, r.below(REG_N), r) && W.allRegistered(), "open", "new document was refused")) return;
        Ed ed(h, &W, D, r); int n = 5 + r.below(60); for (int k = 0; k < n && ed.err.empty(); k++) ed.step();
        h.desc(ed.log); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return;
        std::string e = compare(&W, D); if (!h.check(e.empty(), "content", e)) return;
        e = callbacks(&W, D); h.check(e.empty(), "callbacks", e); h.distinct(ed.log);
        W.Finalize(); unlink(p.c_str());
    }, 30);
    h.group_run("reorder", h.thorough ? 6000 : 900, [&](uint64_t i, vh::Rng& r) { // long sibling lists: detaching and inserting in every position, joining of lists
        std::string p = path_of(h); unlink(p.c_str());
        W_t W(p.c_str(), nullptr, 0x400000); Doc D; D.d.t[0] = {{"r", XBT_NULL}, {"i", XBT_INT32}, {"s", XBT_STRING}}; D.d.t[1] = {{"a", XBT_INT32}, {"b", XBT_STRING}};
        if (!h.check(W.Initialize() && reg(&W, D.d, r.below(REG_N), r) && W.allRegistered(), "open", "new document was refused")) return;
        Ed ed(h, &W, D, r); ed.flat = true; int n = 100 + r.below(150); for (int k = 0; k < n; k++) { ed.step(); if (!ed.err.empty()) break; if (k % 8 == 0) { std::string e = compare(&W, D); if (!h.check(e.empty(), "after " + ed.op, e)) return; } }
        h.desc(ed.log); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return;
        std::string e = compare(&W, D); h.check(e.empty(), "content", e); e = ed.queries(); h.check(e.empty(), "query", e); h.distinct(ed.log);
        W.Finalize(); unlink(p.c_str());
    }, 30);
    h.group_run("refused", h.thorough ? 20000 : 2500, [&](uint64_t i, vh::Rng& r) { // a value of a wrong type is refused and nothing changes
        std::string p = path_of(h); unlink(p.c_str());
        W_t W(p.c_str(), nullptr, 0x400000); Doc D; D.d = rand_dict(r, 30, true);
        if (!h.check(W.Initialize() && reg(&W, D.d, r.below(REG_N), r) && W.allRegistered(), "open", "new document was refused")) return;
        Ed ed(h, &W, D, r); int n = 3 + r.below(30); for (int k = 0; k < n && ed.err.empty(); k++) ed.step();
        if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return;
        for (int k = 0; k < 20; k++) { std::string what = ed.wrong(); h.desc(ed.log + what); if (!h.check(ed.err.empty(), "accepted " + ed.op, ed.err)) return; std::string e = compare(&W, D); if (!h.check(e.empty(), "changed by " + ed.op, e)) return; h.distinct(what); }
        W.Finalize(); unlink(p.c_str());
    }, 30);
    h.group_run("long", h.thorough ? 40 : 8, [&](uint64_t i, vh::Rng& r) { // values of many megabytes, given as bytes or as text
        std::string p = path_of(h); unlink(p.c_str());
        W_t W(p.c_str(), nullptr, 0x8000000); Doc D; D.d.t[0] = {{"r", XBT_NULL}, {"h", XBT_HEX}, {"s", XBT_STRING}, {"b", XBT_BLOB}}; D.d.t[1] = {{"a", XBT_HEX}, {"c", XBT_STRING}};
        if (!h.check(W.Initialize() && reg(&W, D.d, r.below(REG_N), r) && W.allRegistered(), "open", "new document was refused")) return;
        Value nul; nul.type = XBT_NULL; BW_element* root = mk(&W, 0, nul, 0); if (!h.check(root, "root", "no root")) return; W.setRoot(root); D.root = D.node(0, true, nul); D.root->off = root->offset;
        for (int k = 0; k < 4; k++) {
            bool el = r.chance(50); int id = el ? 1 + r.below(3) : r.below(2), t = D.d.t[el ? 0 : 1][id].second; size_t n = 1000000 + r.below(k == 0 ? 8000000 : 3000000); if (k == 0 && n < 6000000) n = 6000000;
            Value v; v.type = t; if (t != XBT_STRING) { int32_t l = n; v.raw.assign((char*)&l, 4); } for (size_t j = 0; j < n; j++) v.raw += (char)(t == XBT_STRING ? 'a' + (j * 7 + n) % 26 : (j * 31 + n) & 255); if (t == XBT_STRING) v.raw += '\0';
            unsigned m = k == 0 || r.chance(50) ? 2 : r.below(4); std::string who = vh::fmt("%s type %d of %zu bytes by way %u", el ? "element" : "attribute", t, n, m); h.desc(who);
            M* nm = D.node(id, el, v); BW_element* R = W.BWE(D.root->off);
            if (el) { BW_element* x = mk(&W, id, v, m); if (!h.check(x, "element", who + " was refused")) return; W.BWE(D.root->off)->add(x); nm->off = x->offset; D.root->ch.push_back(nm); }
            else { bool had = false; for (M* y : D.root->at) had |= y->id == id; if (had) continue; if (!h.check(mkattr(R, id, v, m), "attribute", who + " was refused")) return; D.root->at.push_back(nm); }
            std::string e = compare(&W, D); if (!h.check(e.empty(), "after " + who, e)) return; h.distinct(who);
        }
        W.Finalize(); unlink(p.c_str());
    }, 60);
}
// ------------------------------------------------------------------------------------------------ W02
struct Report { char msg[2000]; int state; };        // state: 0 not started, 1 content was found complete, 2 all done
static void w02(vh::H& h) {
    Report* R = (Report*)mmap(0, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto session = [&](std::function<std::string()> fn, int& st) { memset(R, 0, sizeof *R); pid_t pid = fork(); if (pid == 0) { std::string e = fn(); snprintf(R->msg, sizeof R->msg, "%s", e.c_str()); R->state = 2; _exit(e.empty() ? 0 : 1); } st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} };
    h.group_run("sessions", h.thorough ? 20000 : 3500, [&](uint64_t i, vh::Rng& r) {
        std::string p = path_of(h); unlink(p.c_str());
        Doc D; D.d = rand_dict(r, r.chance(30) ? 4 : 30, r.chance(30)); bool by_name = r.chance(50); std::string log; Dict full = D.d; bool made = false;
        int ns = 2 + r.below(5);
        for (int s = 0; s < ns; s++) {
            // session: registration (perhaps interrupted), content compared, edits, end
            bool anew = made && r.chance(12); if (anew) { Dict fresh = rand_dict(r, r.chance(30) ? 4 : 30, r.chance(30)); D.root = nullptr; D.loose.clear(); D.d = fresh; made = false; }  // the old content is to be dropped
            Rng sr = r; r.next(); r.next(); int end = r.below(5); int reg_kill = -1, nops = r.below(s == 0 ? 60 : 30); bool extend = by_name && made && r.chance(40); Dict nd = D.d;
            if (extend) for (int k = 0; k < 2; k++) { int m = r.below(4); for (auto& x : name_pool(r, m, "q")) { bool dup = false; for (auto& y : nd.t[k]) if (y.first == x) dup = true; if (!dup) nd.t[k].push_back({x, k ? pick(r, ATTR_TYPES) : pick(r, TAG_TYPES)}); } }
            int total = nd.t[0].size() + nd.t[1].size(); if (r.chance(15) && by_name) reg_kill = r.below(total + 1);
            int how = by_name ? (r.chance(50) ? REG_NAME : REG_NAME_MIXED) : made ? REG_ID : r.chance(50) ? REG_ID : REG_ID_MIXED;
            int size = made && r.chance(50) ? 0x20000 + 0x1000 * r.below(50) : 0x200000; Rng regr = r; uint64_t opseed = r.next(); int kill_at = end >= 3 ? (int)r.below(nops + 1) : -1; bool late_compare = r.chance(30);
            log += vh::fmt("[session how %d ops %d end %d kill %d reg-kill %d extend %d anew %d]", how, nops, end, kill_at, reg_kill, extend, anew);
            h.desc(log); Dict old = D.d; D.d = nd; D.loose.clear(); int st;
            session([&]() -> std::string {
                W_t* W = open_doc(Rng(opseed ^ 77), p, size, anew || (!made && opseed % 5 == 0) ? BIN_WRITE_CFG_ALWAYS_CREATE_NEW : 0);
                if (!W->Initialize()) return "document was refused";
                if (opseed % 3 == 0 && (W->setMaxPoolSize(0x5000) || !W->isInitialized())) return "size limit of an open document was changed"; W->setFlags(0);
                if (reg_kill >= 0) { if (!reg(W, nd, how, regr, reg_kill)) return "names were refused"; raise(SIGKILL); }
                if (!reg(W, nd, how, regr)) return "names were refused";
                if (!W->allRegistered()) return "allRegistered failed";
                std::string e = check_dict(W, nd); if (!e.empty()) return "dictionary: " + e;
                e = compare(W, D, true); if (!e.empty()) return "content: " + e;
                R->state = 1;
                Ed ed(h, W, D, Rng(opseed));
                for (int k = 0; k < nops; k++) { if (k == kill_at && end == 3) raise(SIGKILL); if (k == kill_at && end == 4) _exit(0); ed.step(); if (!ed.err.empty()) return "step " + ed.op + ": " + ed.err; }
                if (end == 3) raise(SIGKILL); if (end == 4) _exit(0);
                if (late_compare) { e = compare(W, D); if (!e.empty()) return "content before end: " + e; }
                if (end == 0) { if (!W->Finalize()) return "Finalize"; } else if (end == 1) delete W; else { W->Finalize(); if (!W->Initialize()) return "document was refused by the same object"; if (!reg(W, nd, how, regr) || !W->allRegistered()) return "names were refused by the same object"; D.loose.clear(); e = compare(W, D, true); if (!e.empty()) return "content after reopening by the same object: " + e; delete W; }
                return "";
            }, st);
            bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL, planned = reg_kill >= 0 || end == 3;
            std::string m = R->msg; if (m.empty() && killed && !planned) { _exit(9); }
            if (!h.check(m.empty() && ((planned && killed) || (!planned && WIFEXITED(st) && WEXITSTATUS(st) == 0)), m.empty() ? "session ended badly" : "session: " + m.substr(0, 20), m + vh::fmt(" (status %x) in session %d", st, s))) return;
            if (!h.check(reg_kill >= 0 || R->state >= 1, "session", "content was not reached")) return;
            if (reg_kill >= 0) { made = true; continue; }
            // the same edits on the model
            Ed ed(h, nullptr, D, Rng(opseed)); int lim = kill_at >= 0 ? kill_at : nops; for (int k = 0; k < lim; k++) ed.step();
            made = true; log += ed.log;
        }
        // final look
        int st; h.desc(log); D.loose.clear(); Rng rr = r;
        session([&]() -> std::string { W_t W(p.c_str(), nullptr, 0x200000); if (!W.Initialize()) return "document was refused"; if (!reg(&W, D.d, by_name ? REG_NAME : REG_ID, rr) || !W.allRegistered()) return "names were refused"; std::string e = check_dict(&W, D.d); if (e.empty()) e = compare(&W, D, true); if (e.empty()) e = callbacks(&W, D); return e; }, st);
        if (made) h.check(st == 0, "final content", std::string(R->msg) + vh::fmt(" (status %x)", st));
        h.distinct(log); h.sample(log); unlink(p.c_str());
    }, 60);
    h.group_run("contradiction", h.thorough ? 20000 : 2500, [&](uint64_t i, vh::Rng& r) {
        std::string p = path_of(h); unlink(p.c_str()); Doc D; D.d = rand_dict(r, r.chance(50) ? 4 : 25, r.chance(20)); std::string e;
        { W_t W(p.c_str(), nullptr, 0x200000); if (!h.check(W.Initialize() && reg(&W, D.d, r.below(REG_N), r) && W.allRegistered(), "open", "new document was refused")) return; Ed ed(h, &W, D, r); for (int k = 0; k < 25; k++) ed.step(); h.desc(ed.log); if (!h.check(ed.err.empty(), "step", ed.err)) return; e = compare(&W, D); if (!h.check(e.empty(), "content", e)) return; }
        D.loose.clear();
        for (int t = 0; t < 4; t++) {
            Dict bad = D.d; int k = r.below(2); if (bad.t[k].empty()) k = 0; int n = r.below(bad.t[k].size()); std::string what;
            switch (r.below(4)) {
                case 0: { std::string& s = bad.t[k][n].first; if (r.chance(50)) s += "x"; else s[r.below(s.size())] ^= 1; if (s == D.d.t[k][n].first || s.empty()) s += "y"; what = "name"; break; }
                case 1: { int ty; do ty = k ? pick(r, ATTR_TYPES) : pick(r, TAG_TYPES); while (ty == bad.t[k][n].second); bad.t[k][n].second = ty; what = "type"; break; }
                case 2: bad.t[k].push_back({"zzz-new", XBT_STRING}); what = "added"; break;
                default: if (bad.t[k].size() < 2) continue; { int m = (n + 1) % bad.t[k].size(); std::swap(bad.t[k][n], bad.t[k][m]); if (bad.t[k][n] == D.d.t[k][n]) continue; } what = "swapped";
            }
            std::string before = tree::read_file(p); h.desc(what + (k ? " attribute" : " tag") + vh::fmt(" %d", n));
            { W_t W(p.c_str(), nullptr, 0x200000); if (!h.check(W.Initialize(), "open", "document was refused")) return; bool ok = reg(&W, bad, REG_ID, r); bool all = W.allRegistered(); h.check(!ok && !all, "accepted " + what, vh::fmt("contradictory dictionary was accepted (registration %d, allRegistered %d)", ok, all)); }
            { W_t W(p.c_str(), nullptr, 0x200000); if (!h.check(W.Initialize() && reg(&W, D.d, REG_ID, r) && W.allRegistered(), "damaged by " + what, "document is refused after a contradictory attempt")) return; e = check_dict(&W, D.d); if (e.empty()) e = compare(&W, D, true); h.check(e.empty(), "damaged by " + what, e); }
            h.distinct(what + vh::fmt(" %d %d ", k, n) + before.substr(0, 100));
        }
        unlink(p.c_str());
    }, 30);
    h.group_run("foreign", h.thorough ? 4000 : 400, [&](uint64_t i, vh::Rng& r) { // what is not a complete document is refused and not touched
        std::string p = path_of(h); unlink(p.c_str()); Dict d = rand_dict(r, 6); std::string c; int kind = r.below(5);
        if (kind == 0) { int n = 1 + r.below(300); for (int k = 0; k < n; k++) c += (char)(32 + r.below(90)); }
        else if (kind == 1) { int n = 1 + r.below(40000); for (int k = 0; k < n; k++) c += (char)r.next(); }
        else if (kind == 2) c = std::string(1 + r.below(50000), '\0');
        else { { W_t W(p.c_str(), nullptr, 0x40000); if (!W.Initialize() || !reg(&W, d, REG_ID, r) || !W.allRegistered()) { h.fail("open", "new document was refused"); return; } Doc D; D.d = d; Ed ed(h, &W, D, r); for (int k = 0; k < 10; k++) ed.step(); } c = tree::read_file(p); if (kind == 3) c.resize(1 + r.below(c.size() - 1)); else { size_t o = r.below(28); c[4 + o % 22] ^= 1 + r.below(255); } }
        h.desc(vh::fmt("kind %d size %d", kind, (int)c.size())); tree::write_file(p, c); 
        { W_t W(p.c_str(), nullptr, 0x40000); bool ok = W.Initialize(); h.check(!ok, vh::fmt("foreign kind %d", kind), "file that is not a complete document was accepted"); }
        h.check(tree::read_file(p) == c, vh::fmt("foreign kind %d changed", kind), "refused file was changed"); h.distinct(c.substr(0, 3000) + vh::fmt("%d", (int)c.size())); unlink(p.c_str());
    });
    h.group_run("killed-growth", h.thorough ? 3000 : 300, [&](uint64_t i, vh::Rng& r) { // the file is longer than its header says: killed while it grew
        std::string p = path_of(h); unlink(p.c_str()); Doc D; D.d = rand_dict(r, 10); std::string e;
        { W_t W(p.c_str(), nullptr, 0x200000); if (!W.Initialize() || !reg(&W, D.d, REG_ID, r) || !W.allRegistered()) { h.fail("open", "new document was refused"); return; } Ed ed(h, &W, D, r); for (int k = 0; k < 30; k++) ed.step(); if (!h.check(ed.err.empty(), "step", ed.err)) return; }
        struct stat st; stat(p.c_str(), &st); int add = 1 + r.below(20000); if (truncate(p.c_str(), st.st_size + add)) _exit(9); D.loose.clear(); h.desc(vh::fmt("longer by %d", add));
        { W_t W(p.c_str(), nullptr, 0x200000); if (!h.check(W.Initialize() && reg(&W, D.d, REG_ID, r) && W.allRegistered(), "longer", "document is refused")) return; BW_pool* P = W.getPool();
          // header and file agree after the next growth
          Ed ed(h, &W, D, r); Doc& D2 = D; e = compare_content(&W, D2); if (!h.check(e.empty(), "longer content", e)) return; ed.maxlen = 3000; for (int k = 0; k < 40; k++) ed.step(); h.desc(ed.log); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return; e = compare_content(&W, D); h.check(e.empty(), "content", e); (void)P; }
        h.distinct(vh::fmt("%d %d", add, (int)D.all.size())); unlink(p.c_str());
    });
}
// ------------------------------------------------------------------------------------------------ W03
static void w03(vh::H& h) {
    h.group_run("fill", h.thorough ? 6000 : 260, [&](uint64_t i, vh::Rng& r) {
        std::string p = path_of(h); unlink(p.c_str()); int lim = r.chance(50) ? 0x9000 + r.below(0x20000) : 0x9000 + r.below(0x100000); if (r.chance(40)) lim &= ~4095; Doc D; D.d = rand_dict(r, 25, r.chance(50)); std::string e; int refused = 0, done = 0;
        W_t* W = open_doc(r, p, lim); h.desc(vh::fmt("limit %d", lim));
        if (!h.check(W->Initialize() && reg(W, D.d, r.below(REG_N), r) && W->allRegistered(), "open", "new document was refused")) return;
        Ed ed(h, W, D, r); ed.limit = lim; ed.maxlen = r.chance(50) ? 200 + r.below(5000) : 20 + r.below(100) + (lim >> 9); int style = r.below(3); ed.grow = style; uint64_t grown = 0, last = W->getPool()->file_size;
        for (int k = 0; k < 4000 && refused < 25; k++) {
            ed.step(); if (ed.refused) refused++; done++; h.desc(vh::fmt("limit %d step %d ", lim, k) + ed.log.substr(ed.log.size() > 700 ? ed.log.size() - 700 : 0));
            if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return;
            bool look = k < 50 || k % 40 == 0 || ed.refused || W->getPool()->file_size != last; if (W->getPool()->file_size != last) grown++, last = W->getPool()->file_size;
            if (look && D.all.size() < 3000 || k % 200 == 0) { e = compare(W, D); if (!h.check(e.empty(), ed.refused ? "after refusal" : "after " + ed.op, e)) return; }
            if (W->getPool()->mmap_size != (uint32_t)lim) { h.fail("limit", "limit changed"); return; }
        }
        e = compare(W, D); if (!h.check(e.empty(), "content", e)) return; e = check_dict(W, D.d); h.check(e.empty(), "dictionary", e);
        if (r.chance(50)) delete W; else { W->Finalize(); }
        D.loose.clear(); { W_t V(p.c_str(), nullptr, 0x40000); if (h.check(V.Initialize() && reg(&V, D.d, REG_ID, r), "reopen", "full document is refused")) { V.allRegistered(); e = compare(&V, D, true); h.check(e.empty(), "reopened content", e); } }
        h.distinct(vh::fmt("%d %d %d %d", lim, done, refused, (int)D.all.size())); h.sample(vh::fmt("limit %d: %d operations, %d refused, file grew %d times, %d nodes", lim, done, refused, (int)grown, (int)D.nodes().size())); unlink(p.c_str());
    }, 60);
    h.group_run("system", h.thorough ? 4000 : 300, [&](uint64_t i, vh::Rng& r) { // the system does not let the file grow, later it does
        std::string p = path_of(h), e; unlink(p.c_str()); signal(SIGXFSZ, SIG_IGN); int lim = 0x100000, refused = 0, done = 0; Doc D; D.d = rand_dict(r, 15, r.chance(50)); W_t* W = open_doc(r, p, lim);
        if (!h.check(W->Initialize() && reg(W, D.d, r.below(REG_N), r) && W->allRegistered(), "open", "new document was refused")) return;
        Ed ed(h, W, D, r); ed.maxlen = r.chance(50) ? 200 + r.below(5000) : 20 + r.below(300); ed.grow = r.below(3); std::string log;
        for (int round = 0; round < 3; round++) {
            int cap = (int)W->getPool()->file_size + r.below(0x8000), here = 0; ed.limit = std::min(lim, cap & ~4095); log += vh::fmt("[file %d cap %d]", (int)W->getPool()->file_size, cap);
            for (int k = 0; k < 1500 && here < 8; k++) {
                struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); l = o; l.rlim_cur = cap; setrlimit(RLIMIT_FSIZE, &l); ed.step(); setrlimit(RLIMIT_FSIZE, &o); done++; if (ed.refused) here++, refused++;
                h.desc(log + ed.log.substr(ed.log.size() > 700 ? ed.log.size() - 700 : 0)); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return; struct stat st; if (ed.refused && !h.check(stat(p.c_str(), &st) == 0 && st.st_size == (off_t)W->getPool()->file_size, "size", "size of the file is not what the document says")) return;
                if (k < 20 || k % 50 == 0 || ed.refused) { e = compare(W, D); if (!h.check(e.empty(), ed.refused ? "after refusal" : "after " + ed.op, e)) return; }
            }
            ed.limit = lim; for (int k = 0; k < 20; k++) { ed.step(); h.desc(log + " free " + ed.op); if (!h.check(ed.err.empty(), "free " + ed.op, ed.err)) return; } e = compare(W, D); if (!h.check(e.empty(), "freed", e)) return; // as if nothing happened
        }
        e = check_dict(W, D.d); h.check(e.empty(), "dictionary", e); delete W; D.loose.clear(); { W_t V(p.c_str(), nullptr, 0x40000); if (h.check(V.Initialize() && reg(&V, D.d, REG_ID, r) && V.allRegistered(), "reopen", "document is refused")) { e = compare(&V, D, true); h.check(e.empty(), "reopened content", e); } }
        h.distinct(log + vh::fmt("%d %d", done, refused)); h.sample(log + vh::fmt(" %d operations, %d refused", done, refused)); unlink(p.c_str());
    }, 60);
    h.group_run("exact", h.thorough ? 20000 : 1200, [&](uint64_t i, vh::Rng& r) { // one value that just fits, just does not, or is absurdly big
        std::string p = path_of(h); unlink(p.c_str()); Doc D; D.d.t[0] = {{"r", XBT_NULL}, {"b", XBT_BLOB}, {"h", XBT_HEX}, {"s", XBT_STRING}, {"bs", XBT_BLOB_STRING}}; D.d.t[1] = {{"ab", XBT_BLOB}, {"as", XBT_STRING}, {"ah", XBT_HEX}}; int lim = 0xC000 + r.below(0x30000); if (r.chance(50)) lim &= ~4095; std::string e;
        W_t W(p.c_str(), nullptr, lim); h.desc(vh::fmt("limit %d", lim)); if (!h.check(W.Initialize() && reg(&W, D.d, REG_ID, r) && W.allRegistered(), "open", "new document was refused")) return;
        Ed ed(h, &W, D, r); ed.limit = lim; ed.step(); ed.step(); BW_pool* P = W.getPool();
        for (int t = 0; t < 12; t++) {
            int64_t room = (int64_t)lim - P->allocator; int64_t n = r.chance(60) ? room - (int)r.below(45000) + 200 : r.chance(50) ? room - (int)r.below(64) : r.chance(50) ? (int64_t)lim + r.below(100000) : 0x10000000ll + r.below(0x6ffffff0); if (n < 0) n = r.below(100); int kind = r.below(7); bool huge = n > 0x800000; if (huge && (kind == 3 || kind == 4 || kind == 6)) kind = r.below(3); // texts that long would have to exist
            h.desc(vh::fmt("limit %d allocator %d size %lld kind %d", lim, P->allocator, (long long)n, kind));
            ed.big(kind, n); if (!h.check(ed.err.empty(), vh::fmt("big %d", kind), ed.err)) return; e = compare(&W, D); if (!h.check(e.empty(), vh::fmt("after big %d", kind), e)) return; h.distinct(vh::fmt("%d %d %lld %d", lim, P->allocator, (long long)n, kind));
        }
        // still usable: the refused values took nothing away
        D.loose.clear(); W.Finalize(); { W_t V(p.c_str(), nullptr, 0x40000); if (h.check(V.Initialize() && reg(&V, D.d, REG_ID, r), "reopen", "document is refused")) { e = compare(&V, D, true); h.check(e.empty(), "reopened content", e); } } unlink(p.c_str());
    }, 30);
    h.group_run("asked", h.thorough ? 20000 : 1500, [&](uint64_t i, vh::Rng& r) { // space asked for directly
        std::string p = path_of(h); unlink(p.c_str()); Doc D; D.d = rand_dict(r, 6, true); int lim = 0x9000 + r.below(r.chance(50) ? 0x20000 : 0x200000); if (r.chance(60)) lim &= ~4095; std::string e, log; int yes = 0, no = 0;
        W_t W(p.c_str(), nullptr, lim); h.desc(vh::fmt("limit %d", lim)); if (!h.check(W.Initialize() && reg(&W, D.d, REG_ID, r) && W.allRegistered(), "open", "new document was refused")) return;
        Ed ed(h, &W, D, r); ed.limit = lim; BW_pool* P = W.getPool();
        for (int t = 0; t < 15; t++) {
            int64_t al = P->allocator, border = (al / 4096 + r.below(r.chance(50) ? 3 : 40)) * 4096, n = r.chance(60) ? border - al + r.range(-6, 6) : r.chance(50) ? lim - al + r.range(-5000, 5000) : r.chance(50) ? r.below(100000) : r.chance(50) ? (int64_t)1 << (20 + r.below(43)) : INT_MAX - (int64_t)r.below(70000);
            if (r.chance(3)) n = -n; int64_t fs = P->file_size; log = vh::fmt("limit %d used %lld file %lld asked %lld", lim, (long long)al, (long long)fs, (long long)n); h.desc(log);
            bool ok = W.makeSpace(n); struct stat st; fstat(W.getFd(), &st); h.eval();
            if (n >= 0 && n <= INT_MAX && al + n + 4095 <= lim) { if (!h.check(ok, "refused", "space that fits was refused")) return; } if (n < 0 || al + n > lim) { if (!h.check(!ok, "promised", "space that cannot exist was promised")) return; }
            if (ok) yes++; else no++; if (ok && !h.check((int64_t)P->allocator_limit - P->allocator >= n, "space", vh::fmt("only %d bytes are available", P->allocator_limit - P->allocator))) return;
            if (!h.check(W.getPool() == P && P->allocator == al && P->mmap_size == (uint32_t)lim && P->file_size <= lim && (int64_t)P->file_size >= fs && P->allocator_limit <= (int64_t)P->file_size && st.st_size == (int64_t)P->file_size && (ok || P->file_size == fs), "state", vh::fmt("allocator %d limit %d file %d on disk %lld", P->allocator, P->allocator_limit, (int)P->file_size, (long long)st.st_size))) return;
            h.distinct(vh::fmt("%d %lld", lim, (long long)n)); if (r.chance(60)) { ed.log.clear(); ed.step(); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return; }
        }
        e = compare(&W, D); h.check(e.empty(), "content", e); if (i < 3) h.sample(log + vh::fmt(": %d granted, %d refused", yes, no)); unlink(p.c_str());
    }, 30);
    h.group_run("dictionary", h.thorough ? 2000 : 120, [&](uint64_t i, vh::Rng& r) { // many and long names: the dictionary itself makes the file grow, or does not fit
        std::string p = path_of(h); unlink(p.c_str()); Dict d; int nl = 1 + r.below(r.chance(30) ? 300 : 40), lim = 0x4000 + r.below(0x40000); for (int k = 0; k < 2; k++) { int n = r.below(r.chance(30) ? 3000 : 400) + 1; for (int j = 0; j < n; j++) { std::string s = vh::fmt("%c%d", 'a' + k, j); s += std::string(r.below(nl), 'n'); d.t[k].push_back({s, k ? pick(r, ATTR_TYPES) : j ? pick(r, TAG_TYPES) : XBT_NULL}); } }
        int64_t need = 200; for (int k = 0; k < 2; k++) for (auto& x : d.t[k]) need += 12 + x.first.size(); int how = r.below(2); if (how == REG_NAME && d.t[0].size() + d.t[1].size() > 1500) how = REG_ID; h.desc(vh::fmt("limit %d names %d+%d need %lld how %d", lim, (int)d.t[0].size(), (int)d.t[1].size(), (long long)need, how));
        bool fits = need + 0x4000 + 8192 <= lim; { W_t W(p.c_str(), nullptr, lim); if (!h.check(W.Initialize(), "open", "new document was refused")) return; bool ok = true; size_t a = 0; int bad = 0; for (int k = 0; k < 2; k++) for (a = 0; a < d.t[k].size() && bad < 3; a++) if (!reg1(&W, d, k, a, how == REG_ID)) ok = false, bad++; ok = ok && W.allRegistered();
        if (fits) { if (!h.check(ok, "names refused", "names that fit are refused")) return; } BW_pool* P = W.getPool(); h.check(P->allocator <= P->allocator_limit && P->allocator_limit <= (int64_t)P->file_size && (int64_t)P->file_size <= lim, "limits", vh::fmt("limits of pool: %d %d %u %d", P->allocator, P->allocator_limit, P->file_size, lim)); struct stat st; fstat(W.getFd(), &st); h.check(st.st_size == (off_t)P->file_size, "file size", "size of the file differs from the header");
        if (ok) { Doc D; D.d = d; std::string e = check_dict(&W, d); if (!h.check(e.empty(), "dictionary", e)) return; Ed ed(h, &W, D, r); ed.limit = lim; for (int k = 0; k < 40; k++) ed.step(); h.check(ed.err.empty(), "step " + ed.op, ed.err); e = compare(&W, D); h.check(e.empty(), "content", e); } }
        h.distinct(vh::fmt("%d %lld %d", lim, (long long)need, how)); unlink(p.c_str());
    }, 60);
    h.group_run("several", h.thorough ? 3000 : 150, [&](uint64_t i, vh::Rng& r) { // several documents at once, opened and closed in any order
        int n = 2 + r.below(r.chance(30) ? 30 : 6); struct One { std::unique_ptr<W_t> W; Doc D; std::unique_ptr<Ed> ed; std::string p; bool made = false; }; std::deque<One> v(n); std::string log, e; const bool big = r.chance(40); if (big && r.chance(50)) { n = 18 + r.below(14); v = std::deque<One>(n); }
        for (int k = 0; k < n; k++) { v[k].p = path_of(h, vh::fmt("m%d", k).c_str()); unlink(v[k].p.c_str()); v[k].D.d = rand_dict(r, 10); }
        for (int t = 0; t < (big ? 6 : 12) * n; t++) {
            int which = r.below(n); One& o = v[which];
            if (!o.W) { o.W.reset(open_doc(r, o.p, big ? 0x4000000 : 0x100000)); log += vh::fmt(" open%d", which); h.desc(log); o.D.loose.clear(); if (!h.check(o.W->Initialize() && reg(o.W.get(), o.D.d, REG_ID, r) && o.W->allRegistered(), "open", "document was refused")) return; e = compare(o.W.get(), o.D, true); if (!h.check(e.empty(), "content", e)) return; o.ed.reset(new Ed(h, o.W.get(), o.D, Rng(r.next()))); o.ed->maxlen = big ? 60000 : 2000; }
            else if (r.chance(12)) { o.ed.reset(); if (r.chance(50)) o.W->Finalize(); o.W.reset(); log += vh::fmt(" close%d", which); h.desc(log); }
            else { int m = 1 + r.below(12); for (int k = 0; k < m && o.ed->err.empty(); k++) o.ed->step(); log += vh::fmt(" edit%d", which); h.desc(log); if (!h.check(o.ed->err.empty(), "step " + o.ed->op, o.ed->err)) return; e = compare(o.W.get(), o.D); if (!h.check(e.empty(), "content", e)) return; }
        }
        for (auto& o : v) if (o.W) { e = compare(o.W.get(), o.D); if (!h.check(e.empty(), "content at end", e)) return; }
        h.distinct(log); for (auto& o : v) { o.ed.reset(); o.W.reset(); unlink(o.p.c_str()); }
    }, 60);
}
// ------------------------------------------------------------------------------------------------ W06
static void w06(vh::H& h) {
    h.group_run("rounds", h.thorough ? 30000 : 5000, [&](uint64_t i, vh::Rng& r) {
        std::string p = path_of(h); unlink(p.c_str()); Dict d = rand_dict(r, r.chance(30) ? 4 : 40, r.chance(30)); int how = r.below(REG_N); std::string e, log; int rounds = 3 + r.below(5); uint64_t fill = r.next(); int nops = r.below(120); bool same = r.chance(60);
        std::unique_ptr<W_t> W(open_doc(r, p, 0x200000)); if (!h.check(W->Initialize() && reg(W.get(), d, how, r) && W->allRegistered(), "open", "new document was refused")) return;
        int64_t alloc2 = 0, file2 = 0, base = 0;
        for (int k = 0; k < rounds; k++) {
            Doc D; D.d = d; Ed ed(h, W.get(), D, Rng(same ? fill : fill + k)); ed.maxlen = 400; int m = same ? nops : nops * (1 + r.below(3)) / 2; for (int j = 0; j < m && ed.err.empty(); j++) ed.step();
            log = vh::fmt("round %d ", k) + ed.log; h.desc(log); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return; e = compare(W.get(), D); if (!h.check(e.empty(), "content", e)) return;
            if (same && k == 1) { alloc2 = W->getPool()->allocator; file2 = W->getPool()->file_size; }
            if (same && k > 1) { h.check(W->getPool()->allocator == alloc2, "grows", vh::fmt("the same content takes %d bytes in round %d and %d in round 1", W->getPool()->allocator, k, (int)alloc2)); h.check((int64_t)W->getPool()->file_size <= file2 + 0x6000, /* opening again asks for some room */ "file grows", "file grows from round to round"); }
            if (r.chance(25)) { if (r.chance(50)) W->Finalize(); W.reset(open_doc(r, p, 0x200000)); log += "[reopen]"; h.desc(log); if (!h.check(W->Initialize() && reg(W.get(), d, REG_ID, r) && W->allRegistered(), "reopen", "document was refused")) return; D.loose.clear(); e = compare(W.get(), D, true); if (!h.check(e.empty(), "reopened content", e)) return; }
            if (!h.check(W->Clear(), "clear", "Clear failed")) return;
            h.check(W->getRoot() == nullptr && W->getPool()->root == 0, "root", "root remains after Clear"); e = check_dict(W.get(), d); if (!h.check(e.empty(), "dictionary", e)) return;
            if (k > 0) h.check(W->getPool()->allocator == base, "empty size", vh::fmt("empty document takes %d bytes and %d before", W->getPool()->allocator, (int)base)); base = W->getPool()->allocator;
            Doc E; E.d = d; e = compare(W.get(), E); if (!h.check(e.empty(), "empty content", e)) return;
            if (r.chance(20)) { W.reset(open_doc(r, p, 0x200000)); log += "[reopen empty]"; if (!h.check(W->Initialize() && reg(W.get(), d, REG_ID, r) && W->allRegistered(), "reopen", "empty document was refused")) return; e = compare(W.get(), E, true); if (!h.check(e.empty(), "reopened empty content", e)) return; }
            if (r.chance(15)) h.check(W->Clear(), "clear", "second Clear failed");
            if (how >= REG_NAME && how != REG_ID_MIXED && r.chance(20)) { /* names added after a clear */ int kk = r.below(2); std::string n = vh::fmt("added%d", k); d.t[kk].push_back({n, XBT_INT32}); if (!h.check(reg1(W.get(), d, kk, d.t[kk].size() - 1, false), "extend", "name was refused")) return; if (!h.check(W->allRegistered(), "extend", "allRegistered")) return; e = check_dict(W.get(), d); if (!h.check(e.empty(), "extended dictionary", e)) return; same = false; W->Clear(); base = W->getPool()->allocator; }
        }
        h.distinct(log); h.sample(log); W.reset(); unlink(p.c_str());
    }, 60);
}
#include "xbwcopy.h"
#include "xbwjour.h"
int main(int argc, char** argv) {
    std::string prop; for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "--prop=", 7)) prop = argv[i] + 7;
    vh::H h; h.init(argc, argv); setenv("TZ", "UTC", 1); tzset();
    if (prop == "W01") w01(h); else if (prop == "W02") w02(h); else if (prop == "W03") w03(h); else if (prop == "W06") w06(h); else if (prop == "W07") w07(h); else if (prop == "W09") w09(h); else if (prop == "W10") w10(h); else return 2;
    h.finish(); return 0;
}
