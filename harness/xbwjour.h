#include "xbwevo.h"
#include <sys/resource.h>
#include <signal.h>
// W09: names are registered again and change their types. W10: batches written from a writable document to an open binary file.
static void w09(vh::H& h) {
    static uint64_t n[4];
    h.group_run("types", h.thorough ? 30000 : 4000, [&](uint64_t i, vh::Rng& r) {
        std::string p = path_of(h), e, log, what; unlink(p.c_str()); Doc D; D.d = rand_dict(r, r.chance(50) ? 4 : 25, r.chance(60)); std::unique_ptr<W_t> W(open_doc(r, p, 0x200000)); if (!h.check(W->Initialize(), "open", "new document was refused")) return;
        bool early = r.chance(50); int how = r.below(REG_N); // some changes before the tables are closed
        if (!h.check(reg(W.get(), D.d, how, r), "open", "new names were refused")) return;
        if (early) for (int k = 0; k < 6; k++) { e = evolve(W.get(), D, r, what, n); log += what; h.desc(log); if (!h.check(e.empty(), "early" + what.substr(0, 8), e)) return; h.eval(); }
        if (!h.check(W->allRegistered(), "open", "allRegistered failed")) return; e = check_dict(W.get(), D.d); if (!h.check(e.empty(), "dictionary", e)) return;
        int rounds = 2 + r.below(4);
        for (int q = 0; q < rounds; q++) {
            Ed ed(h, W.get(), D, Rng(r.next())); int m = 3 + r.below(25);
            for (int k = 0; k < m; k++) {
                if (r.chance(30)) { e = evolve(W.get(), D, r, what, n); log += what; h.desc(log); if (!h.check(e.empty(), what.substr(0, 9), e)) return; h.eval(); }
                else { ed.log.clear(); ed.step(); log += ed.log; h.desc(log); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return; }
            }
            e = compare(W.get(), D); if (!h.check(e.empty(), "content", e)) return; e = check_dict(W.get(), D.d); if (!h.check(e.empty(), "dictionary", e)) return;
            if (r.chance(60)) { // closed and opened again, with the same names by number, by name, or not at all
                int k = r.below(3); if (r.chance(50)) W->Finalize(); W.reset(open_doc(r, p, 0x200000)); D.loose.clear(); log += vh::fmt("[reopen %d]", k); h.desc(log);
                if (!h.check(W->Initialize() && (k == 2 || reg(W.get(), D.d, k ? REG_NAME : REG_ID, r)) && W->allRegistered(), "reopen", "document with changed types was refused")) return; e = check_dict(W.get(), D.d); if (e.empty()) e = compare(W.get(), D, true); if (!h.check(e.empty(), "reopened", e)) return;
            }
            if (r.chance(30)) { // a dictionary with the old type contradicts
                std::string b = bytes_of(W.get()); Dict bad = D.d; int k = bad.t[1].empty() ? 0 : r.below(2), id = r.below(bad.t[k].size()), t; do t = k ? pick(r, ATTR_TYPES) : pick(r, TAG_TYPES); while (t == bad.t[k][id].second); W.reset(); D.loose.clear();
                bad.t[k][id].second = t; { W_t V(p.c_str(), nullptr, 0x200000); if (!h.check(V.Initialize(), "open", "document was refused")) return; bool ok = reg(&V, bad, REG_ID, r); bool all = V.allRegistered(); h.check(!ok && !all, "other type accepted", "dictionary with an other type was accepted by number"); }
                W.reset(open_doc(r, p, 0x200000)); if (!h.check(W->Initialize() && reg(W.get(), D.d, REG_ID, r) && W->allRegistered(), "reopen", "document with changed types was refused")) return; e = check_dict(W.get(), D.d); if (e.empty()) e = compare(W.get(), D, true); if (!h.check(e.empty(), "reopened", e)) return;
            }
        }
        h.distinct(log); if (i < 3) h.sample(vh::fmt("%s ... up to now %llu joined to the same type, %llu widened, %llu altered, %llu refused", log.substr(0, 300).c_str(), (unsigned long long)n[0], (unsigned long long)n[1], (unsigned long long)n[2], (unsigned long long)n[3])); W.reset(); unlink(p.c_str());
    }, 60);
    h.group_run("pairs", 25 * 25 * 2, [&](uint64_t i, vh::Rng& r) { // every pair of types, for tags and attributes, before and after the tables are closed
        int k = i & 1, a = (i >> 1) % 25, b = (i >> 1) / 25; if (a == XBT_VARIANT || b == XBT_VARIANT || a == XBT_UNKNOWN || b == XBT_UNKNOWN) return; std::string p = path_of(h, "pair"); h.desc(vh::fmt("%s t%d t%d", k ? "attribute" : "tag", a, b));
        for (int closed = 0; closed < 2; closed++) for (int alter = 0; alter < 2; alter++) {
            unlink(p.c_str()); W_t W(p.c_str(), nullptr, 0x20000); Dict d; d.t[0] = {{"r", XBT_NULL}, {"x", XBT_INT32}}; d.t[1] = {{"q", XBT_INT32}}; auto nm = name_pool(r, 2, "n"); d.t[k].insert(d.t[k].begin() + (k ? r.below(2) : 1), {nm[0], a}); int id = std::find(d.t[k].begin(), d.t[k].end(), std::pair<std::string, int>(nm[0], a)) - d.t[k].begin();
            if (!h.check(W.Initialize() && reg(&W, d, r.below(REG_N), r) && (!closed || W.allRegistered()), "open", "names were refused")) return; int want = a;
            if (alter) { bool ok = ref_convertible(a, b), g = k ? W.alterAttr(id, (XML_Binary_Type)b) : W.alterTag(id, (XML_Binary_Type)b); h.check(g == ok, vh::fmt("alter t%d t%d", a, b), ok ? "allowed change was refused" : "change that loses something was accepted"); if (ok) want = b; }
            else { want = ref_join(a, b); int g = k ? (int)W.registerParam(nm[0].c_str(), (XML_Binary_Type)b) : (int)W.registerTag(nm[0].c_str(), (XML_Binary_Type)b); h.check(g == id, "number", vh::fmt("number %d and not %d", g, id)); }
            d.t[k][id].second = want; if (!closed && !h.check(W.allRegistered(), "open", "allRegistered failed")) return; std::string e = check_dict(&W, d); h.check(e.empty(), vh::fmt("%s t%d t%d", alter ? "alter" : "register", a, b), e); h.distinct(vh::fmt("%d %d %d", (int)i, closed, alter));
        }
        unlink(p.c_str());
    });
    h.group_run("import", h.thorough ? 6000 : 600, [&](uint64_t i, vh::Rng& r) { // names of binary files are joined into a dictionary which has some of them with other types
        std::string p = path_of(h, "i"), e, log; unlink(p.c_str()); Dict T; std::unique_ptr<W_t> W(open_doc(r, p, 0x100000)); if (!h.check(W->Initialize(), "open", "")) return; Dict all = rand_dict(r, 20, true);
        int own = r.below(3); if (own) for (int q = 0; q < 2; q++) for (auto& x : all.t[q]) if ((q == 0 && T.t[0].empty()) || r.chance(30)) T.t[q].push_back(x); if (own && !h.check(reg(W.get(), T, own == 1 ? REG_NAME : REG_ID, r), "open", "names were refused")) return;
        for (int k = 0; k < 3; k++) {
            Dict d; for (int q = 0; q < 2; q++) for (size_t j = 0; j < all.t[q].size(); j++) if ((q == 0 && j == 0) || r.chance(50)) { auto x = all.t[q][j]; if (q || j) if (r.chance(40)) { int t; for (auto& y : T.t[q]) if (y.first == x.first) { t = q ? pick(r, ATTR_TYPES) : pick(r, TAG_TYPES); if (ref_join(t, y.second) != XBT_VARIANT) x.second = t; else x.second = y.second; } } d.t[q].push_back(x); }
            for (int q = 0; q < 2; q++) for (auto& x : d.t[q]) for (auto& y : T.t[q]) if (y.first == x.first && ref_join(x.second, y.second) == XBT_VARIANT) x.second = y.second;
            if (r.chance(15)) d.t[1].clear();
            std::map<int, std::vector<Value>> pool; Src S; if (!make_src(h, S, d, Rng(r.next()), "im", r.below(8), pool)) return; W->importTags(S.R.get()); W->importParams(S.R.get());
            for (int q = 0; q < 2; q++) for (auto& x : S.D.d.t[q]) { bool had = false; for (auto& y : T.t[q]) if (y.first == x.first) { had = true; y.second = ref_join(x.second, y.second); } if (!had) T.t[q].push_back(x); }
            log += vh::fmt(" own%d +%d+%d", own, (int)d.t[0].size(), (int)d.t[1].size()); h.desc(log);
            for (int m = r.chance(50) ? 1 + r.below(5) : 0; m > 0; m--) { // names registered one by one follow
                int q = r.below(2), t = q ? pick(r, ATTR_TYPES) : pick(r, TAG_TYPES), at = -1; std::string nm; if (!T.t[q].empty() && r.chance(60)) { at = r.chance(40) ? T.t[q].size() - 1 : r.below(T.t[q].size()); nm = T.t[q][at].first; } else if (!all.t[q].empty()) nm = all.t[q][r.below(all.t[q].size())].first; else continue;
                if (nm.empty()) continue; for (size_t j = 0; j < T.t[q].size(); j++) if (T.t[q][j].first == nm) at = j; if (at >= 0 && ref_join(t, T.t[q][at].second) == XBT_VARIANT) t = T.t[q][at].second;
                vh::CStr s(nm); int g = q ? (int)W->registerParam(s.p, (XML_Binary_Type)t) : (int)W->registerTag(s.p, (XML_Binary_Type)t), want = at >= 0 ? at : (int)T.t[q].size(); log += vh::fmt(" %s %s t%d", q ? "attribute" : "tag", at >= 0 ? "again" : "new", t); h.desc(log);
                if (!h.check(g == want, "number after import", vh::fmt("%s name got number %d instead of %d", at >= 0 ? "known" : "new", g, want))) return; if (at >= 0) T.t[q][at].second = ref_join(t, T.t[q][at].second); else T.t[q].push_back({nm, t}); h.eval();
            }
            if (r.chance(50) && !h.check(W->allRegistered(), "import", "imported names were refused")) return;
            if (k == 2 || r.chance(50)) { if (!h.check(W->allRegistered(), "import", "imported names were refused")) return; e = check_dict(W.get(), T); if (!h.check(e.empty(), "imported names", e)) return; h.eval(); }
            if (r.chance(30)) { W.reset(open_doc(r, p, 0x100000)); log += " reopen"; if (!h.check(W->Initialize() && W->allRegistered(), "reopen", "")) return; e = check_dict(W.get(), T); if (!h.check(e.empty(), "reopened names", e)) return; }
        }
        for (int q = 0; q < 2; q++) for (auto& x : T.t[q]) log += x.first + vh::fmt("%d", x.second); h.distinct(log); W.reset(); unlink(p.c_str());
    }, 40);
}
// ------------------------------------------------------------------------------------------------ W10
static bool xb_value(const Value& v, const XML_Binary_Data_Ref& R) {
    if (R.type != v.type) return false; if (v.type == XBT_NULL) return true;
    if (v.type == XBT_BLOB_STRING) { std::string t = txt(v); int32_t c; if (!R.data || R.size < 5) return false; memcpy(&c, R.data, 4); return c > (int)t.size() && R.size == c + 4 && !memcmp(R.data + 4, t.c_str(), t.size() + 1); }
    return R.size == (int)v.raw.size() && !memcmp(R.data, v.raw.data(), v.raw.size());
}
static std::string xb_same(XB_reader& R, XML_Item* X, M* m, const Dict& d) {
    if (!X) return "missing"; const char* n = R.getNodeName(X->name); std::string who = "element " + name_of(d, 0, m->id); if (!n || n != name_of(d, 0, m->id)) return who + " has name " + (n ? n : "(null)");
    if (X->paramcount != (int)m->at.size()) return who + vh::fmt(" has %d attributes and should have %d", X->paramcount, (int)m->at.size()); if (X->childcount != (int)m->ch.size()) return who + vh::fmt(" has %d children and should have %d", X->childcount, (int)m->ch.size());
    if (!xb_value(m->v, X->getData())) return who + vh::fmt(" has other value (type %d, should be %d)", X->getData().type, m->v.type);
    for (size_t k = 0; k < m->at.size(); k++) { XML_Param_Description* P = X->getParamByIndex(k); const char* pn = R.getParamName(P->name); if (!pn || pn != name_of(d, 1, m->at[k]->id)) return who + ": attribute has name " + (pn ? pn : "(null)"); if (!xb_value(m->at[k]->v, P->getData(X))) return who + ": attribute " + pn + " has other value"; }
    for (size_t k = 0; k < m->ch.size(); k++) { std::string e = xb_same(R, X->getChildByIndex(k), m->ch[k], d); if (!e.empty()) return e; }
    return "";
}
struct Rec { std::unique_ptr<Doc> D; M* m; };
static std::string journal(const std::string& f, const std::vector<int>& holder, int fixed, M* root, const std::deque<Rec>& recs, const Dict& d) {
    std::vector<char> fn(f.begin(), f.end()); fn.push_back(0); XB_reader R(fn.data()); if (!R.Initialize()) return "file was refused"; XML_Item* H = R.getRoot(); std::string e; std::function<void(XML_Item*, M*, size_t)> walk; size_t n = 0; int it = 0, k = 0;
    M* m = root; for (int x : holder) { H = H->getChildByIndex(x); m = m->ch[x]; if (!H) { R.Finalize(); return "the open element is missing"; } }
    for (;;) { XML_Item* c = H->getNextChild(R, it); if (!c) break; if (k < fixed) { e = xb_same(R, c, m->ch[k], d); if (!e.empty()) { e = "child before records: " + e; break; } k++; continue; }
        if (n >= recs.size()) { e = vh::fmt("more than %d records", (int)recs.size()); break; } e = xb_same(R, c, recs[n].m, d); if (!e.empty()) { e = vh::fmt("record %d of %d: ", (int)n, (int)recs.size()) + e; break; } n++; }
    if (e.empty() && k != fixed) e = "children before records"; if (e.empty() && n != recs.size()) e = vh::fmt("%d records and should be %d", (int)n, (int)recs.size()); R.Finalize(); return e;
}
static void w10(vh::H& h) {
    h.group_run("batches", h.thorough ? 60000 : 6000, [&](uint64_t i, vh::Rng& r) {
        std::string p = path_of(h, "j"), f = h.work + vh::fmt("/j-%d.xb", h.shard), e, log; unlink(p.c_str()); unlink(f.c_str()); Dict d = rand_dict(r, r.chance(50) ? 5 : 30, r.chance(50)); signal(SIGXFSZ, SIG_IGN);
        std::unique_ptr<W_t> W(open_doc(r, p, r.chance(50) ? 0x40000 : 0x200000)); if (!h.check(W->Initialize() && reg(W.get(), d, r.below(REG_N), r) && W->allRegistered(), "open", "new document was refused")) return;
        // the document; its last element is open for records
        std::unique_ptr<Doc> D(new Doc); D->d = d; { Ed ed(h, W.get(), *D, Rng(r.next())); ed.plain = true; ed.grow = 1; ed.maxlen = 20; int m = 1 + r.below(30); for (int k = 0; k < m && ed.err.empty(); k++) ed.step(); h.desc(ed.log); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return; log = ed.log; if (!D->root) return; }
        std::vector<int> holder; M* x = D->root; while (r.chance(50) && !x->ch.empty()) { holder.push_back(r.below(x->ch.size())); x = x->ch[holder.back()]; } int fixed = x->ch.size(); BW_element* et = W->tag(XTNR_ET_TECERA); if (!h.check(et && W->BWE(x->off)->add(et) == W->BWE(x->off), "et-tecera", "was refused")) return; M* em = D->node(XTNR_ET_TECERA, true, Value()); em->off = et->offset; em->up = x; x->ch.push_back(em);
        e = compare(W.get(), *D); if (!h.check(e.empty(), "content", e)) return;
        { W_t& w = *W; if (!h.check(!w.Write(w.BWE(D->root->off)), "no file", "writing without a file was reported as done")) return; }
        Bin_xml_creator X(W.get(), f.c_str()); if (!h.check(r.chance(50) ? X.DoAll() : X.Make_xb(), "convert", "document was not converted")) return; std::deque<Rec> recs; e = journal(f, holder, fixed, D->root, recs, d); if (!h.check(e.empty(), "empty journal", e)) return;
        std::deque<std::unique_ptr<Doc>> docs; Doc* base = D.get(); M* root = D->root; docs.push_back(std::move(D)); int batches = 2 + r.below(12); uint64_t fill = r.next(); bool same = r.chance(40), clear = false; int64_t used = 0; int refusedn = 0;
        for (int b = 0; b < batches; b++) {
            // batch is a list of elements, made in the same document (which may still have the old content) or in an emptied one
            if (b == 0 ? r.chance(70) : true) { if (!h.check(W->Clear(), "clear", "Clear failed")) return; clear = true; }
            Doc* B; bool own = false; if (clear) { docs.emplace_back(new Doc); B = docs.back().get(); B->d = d; own = true; } else { docs.emplace_back(new Doc); B = docs.back().get(); B->d = d; }
            M* hold = B->node(0, true, Value()); if (d.t[0][0].second != XBT_NULL) { /* a holder of any type */ } BW_element* HE = W->tag(0); if (!h.check(HE != nullptr, "holder", "")) return; hold->off = HE->offset; if (own) { W->setRoot(HE); } B->root = hold; if (!own) { /* a detached holder: the old document stays */ }
            Ed ed(h, W.get(), *B, Rng(same ? fill : fill + b)); ed.plain = true; ed.grow = r.chance(30) ? 1 : 2; if (same) ed.grow = 1; ed.maxlen = r.chance(10) ? 3000 : 30; if (same) ed.maxlen = 30; int m = same ? 12 : 2 + r.below(30); for (int k = 0; k < m && ed.err.empty(); k++) ed.step(); log += vh::fmt("|batch %d:", b) + ed.log; h.desc(log); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return;
            if (hold->ch.empty()) { clear = true; continue; }
            if (own) { e = compare(W.get(), *B); if (!h.check(e.empty(), "batch content", e)) return; }
            std::string before = tree::read_file(f); int what = r.below(8); if (same) what = 7; BW_element* list = W->BWE(HE->first_child); bool ok;
            if (what == 0) { // the disk is full at some byte
                struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); l = o; l.rlim_cur = before.size() + r.below(400); setrlimit(RLIMIT_FSIZE, &l); ok = W->Write(list); setrlimit(RLIMIT_FSIZE, &o); log += ok ? " limited-ok" : " limited"; int mark = 0; bool gap = false; for (M* c : hold->ch) { bool w = W->BWE(c->off)->flags & BIN_WRITTEN; if (w) { if (gap) { h.fail("marks", "an element after one that is not written is marked as written"); return; } mark++; recs.push_back({nullptr, c}); } else gap = true; }
                if (!h.check(ok == (mark == (int)hold->ch.size()), "result", vh::fmt("%d of %d elements are marked as written, result %d", mark, (int)hold->ch.size(), ok))) return; if (!ok) refusedn++;
            } else if (what == 1) { // a name that the file does not know
                Dict nd = d; W_t& w = *W; vh::CStr nn("?new"); int nid = (int)w.registerTag(nn.p, XBT_NULL); if (!h.check(nid == (int)d.t[0].size() && w.allRegistered(), "new name", "was refused")) return; nd.t[0].push_back({"?new", XBT_NULL}); size_t at = r.below(hold->ch.size()); BW_element* bad = w.tag(nid); HE = W->BWE(hold->off); if (!h.check(bad != nullptr, "new name", "")) return; W->BWE(hold->ch[at]->off)->add(bad); list = W->BWE(HE->first_child);
                ok = W->Write(list); log += vh::fmt(" unknown at %d", (int)at); if (!h.check(!ok, "unknown", "an element with a name that the file does not have was written")) return; for (size_t k = 0; k < at; k++) recs.push_back({nullptr, hold->ch[k]}); refusedn++;
                for (size_t k = 0; k < hold->ch.size(); k++) h.check(!!(W->BWE(hold->ch[k]->off)->flags & BIN_WRITTEN) == (k < at), "marks", vh::fmt("mark of element %d of %d, unknown at %d", (int)k, (int)hold->ch.size(), (int)at));
                e = journal(f, holder, fixed, root, recs, d); h.check(e.empty(), "after unknown", e); h.distinct(log); return;
            } else {
                ok = W->Write(list); if (!h.check(ok, "write", "batch was not written")) return; for (M* c : hold->ch) { recs.push_back({nullptr, c}); h.check(W->BWE(c->off)->flags & BIN_WRITTEN, "marks", "written element is not marked"); }
                if (own) { e = compare(W.get(), *B); if (!h.check(e.empty(), "changed by writing", e)) return; }
            }
            std::string after = tree::read_file(f); if (!h.check(after.compare(0, before.size(), before) == 0, "rewritten", "bytes already in the file were changed")) return;
            e = journal(f, holder, fixed, root, recs, d); if (!h.check(e.empty(), what == 0 ? "records after full disk" : "records", e)) return; h.eval();
            if (same) { if (b > 1) h.check(W->getPool()->allocator == used, "grows", vh::fmt("the same batch takes %d bytes and took %d", W->getPool()->allocator, (int)used)); if (b > 0) used = W->getPool()->allocator; }
            clear = true;
        }
        h.distinct(log); h.sample(vh::fmt("%d batches, %d records, %d writings stopped", batches, (int)recs.size(), refusedn)); W.reset(); unlink(p.c_str()); unlink(f.c_str()); (void)base;
    }, 60);
    h.group_run("nested", h.thorough ? 400 : 40, [&](uint64_t i, vh::Rng& r) { // records nested deeper than readers go: written completely or refused, the others are not affected
        std::string p = path_of(h, "n"), f = h.work + vh::fmt("/n-%d.xb", h.shard), e, log; unlink(p.c_str()); unlink(f.c_str()); Dict d; d.t[0] = {{"a", XBT_NULL}, {"b", XBT_NULL}, {"s", XBT_STRING}}; d.t[1] = {{"k", XBT_INT32}};
        std::unique_ptr<W_t> W(open_doc(r, p, 0x400000)); if (!h.check(W->Initialize() && reg(W.get(), d, REG_ID, r) && W->allRegistered(), "open", "new document was refused")) return; BW_element* root = W->tag(0); W->setRoot(root); root->add(W->tag(XTNR_ET_TECERA)); Doc D; D.d = d; D.root = D.node(0, true, Value()); Bin_xml_creator X(W.get(), f.c_str()); if (!h.check(X.Make_xb(), "convert", "")) return;
        std::deque<Rec> recs; int n = 2 + r.below(5);
        for (int b = 0; b < n; b++) {
            if (!h.check(W->Clear(), "clear", "Clear failed")) return; BW_element* HE = W->tag(0); W->setRoot(HE); int32_t ho = HE->offset; M* prev = nullptr; std::vector<M*> tops; int k = 1 + r.below(3); std::vector<int> lv;
            for (int j = 0; j < k; j++) { int L = r.chance(40) ? 1 + r.below(5) : r.chance(60) ? 1015 + r.below(20) : 1 + r.below(3000); lv.push_back(L); prev = nullptr; for (int q = 0; q < L; q++) { BW_element* E = W->tag(q & 1); if (!h.check(E != nullptr, "tag", "refused")) return; M* m = D.node(q & 1, true, Value()); m->off = E->offset; if (prev) { W->BWE(prev->off)->add(E); prev->ch.push_back(m); } else { W->BWE(ho)->add(E); tops.push_back(m); } prev = m; } log += vh::fmt(" %d", L); }
            log += ";"; h.desc("levels" + log); bool ok = W->Write(W->BWE(W->BWE(ho)->first_child)); bool all = true; for (int j = 0; j < k; j++) { bool w = W->BWE(tops[j]->off)->flags & BIN_WRITTEN; if (!h.check(!w || all, "marks", "an element after one that is not written is marked as written")) return; if (!w && all && !h.check(lv[j] > 1000, "refused", vh::fmt("record of %d levels was not written", lv[j]))) return; all = all && w; if (w) recs.push_back({nullptr, tops[j]}); }
            if (!h.check(ok == all, "result", vh::fmt("result %d", ok))) return; e = journal(f, {}, 0, D.root, recs, d); if (!h.check(e.empty(), "records", e)) return; h.eval();
        }
        h.distinct(log); if (i < 3) h.sample("records of levels" + log); W.reset(); unlink(p.c_str()); unlink(f.c_str());
    }, 60);
    h.group_run("readers", h.thorough ? 1500 : 160, [&](uint64_t i, vh::Rng& r) { // a process writes batches and is killed; readers look all the time
        std::string p = path_of(h, "k"), f = h.work + vh::fmt("/k-%d.xb", h.shard), e; unlink(p.c_str()); unlink(f.c_str()); Dict d = rand_dict(r, 8, false); std::unique_ptr<W_t> W(open_doc(r, p, 0x200000)); if (!h.check(W->Initialize() && reg(W.get(), d, REG_ID, r) && W->allRegistered(), "open", "new document was refused")) return;
        BW_element* root = W->tag(0); W->setRoot(root); root->add(W->tag(XTNR_ET_TECERA)); Doc D; D.d = d; D.root = D.node(0, true, Value()); Bin_xml_creator X(W.get(), f.c_str()); if (!h.check(X.Make_xb(), "convert", "")) return;
        // all batches are known in advance: the same seeds make them by model only
        int NB = 60; uint64_t seed = r.next(); std::deque<Rec> all; std::deque<std::unique_ptr<Doc>> docs; std::vector<int> ends; for (int b = 0; b < NB; b++) { docs.emplace_back(new Doc); Doc* B = docs.back().get(); B->d = d; B->root = B->node(0, true, Value()); Ed ed(h, nullptr, *B, Rng(seed + b)); ed.plain = true; ed.grow = 1; ed.maxlen = 30; for (int k = 0; k < 14; k++) ed.step(); for (M* c : B->root->ch) all.push_back({nullptr, c}); ends.push_back(all.size()); }
        int fd[2]; if (pipe(fd)) _exit(9); pid_t pid = fork();
        if (pid == 0) { close(fd[0]); for (int b = 0; b < NB; b++) { if (!W->Clear()) _exit(5); Doc B; B.d = d; B.root = B.node(0, true, Value()); BW_element* HE = W->tag(0); B.root->off = HE->offset; W->setRoot(HE); Ed ed(h, W.get(), B, Rng(seed + b)); ed.plain = true; ed.grow = 1; ed.maxlen = 30; for (int k = 0; k < 14; k++) ed.step(); if (!ed.err.empty()) _exit(6); if (!B.root->ch.empty() && !W->Write(W->BWE(W->BWE(B.root->off)->first_child))) _exit(7); char c = 1; if (write(fd[1], &c, 1) != 1) _exit(8); if (b % 8 == 0) usleep(200); } pause(); _exit(0); }
        close(fd[1]); int last = 0; auto look = [&]() -> int { std::vector<char> fn(f.begin(), f.end()); fn.push_back(0); XB_reader R(fn.data()); if (!R.Initialize()) { h.fail("refused", "file was refused while it is written"); return -1; } int it = 0, n = 0; std::string er; for (;;) { XML_Item* c = R.getRoot()->getNextChild(R, it); if (!c) break; if (n >= (int)all.size()) { er = "more records than were ever written"; break; } er = xb_same(R, c, all[n].m, d); if (!er.empty()) { er = vh::fmt("record %d: ", n) + er; break; } n++; } R.Finalize(); if (!er.empty()) { h.fail("seen", er); return -1; } h.eval(); return n; };
        int looks = 2 + r.below(6); for (int k = 0; k < looks; k++) { usleep(r.below(2500)); int n = look(); if (n < 0) break; h.check(n >= last, "vanished", vh::fmt("%d records after %d", n, last)); last = n; }
        usleep(r.below(2000)); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); h.check(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL, "writer", vh::fmt("writer ended with status %x", st)); int acked = 0; char bb[256]; ssize_t k; while ((k = read(fd[0], bb, sizeof bb)) > 0) acked += k; close(fd[0]);
        int n = look(); if (n >= 0) h.check(n >= (acked ? ends[acked - 1] : 0), "acknowledged", vh::fmt("%d records seen and %d batches (%d records) were acknowledged", n, acked, acked ? ends[acked - 1] : 0)); h.distinct(vh::fmt("%d %d", (int)i, n)); if (i < 4) h.sample(vh::fmt("%d looks, %d batches acknowledged, %d records at the end", looks, acked, n)); unlink(p.c_str()); unlink(f.c_str());
    }, 60);
}
