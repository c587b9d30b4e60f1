// W07: copying from a binary file (.xb) into a writable document (.xbw), against a model.
struct KR : XB_reader { std::set<int> keys; KR(char* f) : XB_reader(f) {} bool ParamIsKey(int n) const override { return keys.count(n) > 0; } };
struct DictPlugin : TreePlugin { const Dict& d; DictPlugin(const char* f, Node* r, const Dict& d_) : TreePlugin(f, r), d(d_) {} int getSymbolCount(SymbolTableTypes t) override { return d.t[t].size(); } const char* getSymbol(SymbolTableTypes t, int i, XML_Binary_Type& ty) override { if (i < 0 || i >= (int)d.t[t].size()) return nullptr; ty = (XML_Binary_Type)d.t[t][i].second; return d.t[t][i].first.c_str(); } };
// a source: model with numbers of the .xb file, and the element of the file for each model element
struct Src {
    Doc D; std::string f; std::vector<char> fn; std::unique_ptr<KR> R; std::map<M*, XML_Item*> item; std::map<XML_Item*, M*> back;
    ~Src() { item.clear(); if (R) R->Finalize(); R.reset(); if (f.size()) { unlink(f.c_str()); unlink((f + ".src").c_str()); } }
    std::vector<M*> elements() { std::vector<M*> o; for (M* m : D.nodes()) if (m->el) o.push_back(m); return o; }
};
static std::string pair_up(Src& S, XML_Item* X, M* m) {
    KR& R = *S.R; if (X->name != m->id) return vh::fmt("element number %d and should be %d", X->name, m->id); if (X->paramcount != (int)m->at.size()) return "attributes"; S.item[m] = X; S.back[X] = m;
    for (size_t k = 0; k < m->at.size(); k++) { XML_Param_Description* p = X->getParamByIndex(k); if (!p || p->name != m->at[k]->id) return "attribute number"; }
    int it = 0; size_t n = 0; for (;;) { XML_Item* c = X->getNextChild(R, it); if (!c) break; if (n >= m->ch.size()) return "more children"; std::string e = pair_up(S, c, m->ch[n++]); if (!e.empty()) return e; } return n == m->ch.size() ? "" : "fewer children";
}
// all sources of one dictionary have the same tables
static bool make_src(vh::H& h, Src& S, const Dict& d, Rng r, const char* name, int steps, std::map<int, std::vector<Value>>& pool) {
    Doc D; D.d = d; std::unique_ptr<Ed> ed(new Ed(h, nullptr, D, Rng(r.next()))); ed->plain = true; ed->grow = 1; ed->maxlen = 12; for (int k = 0; k < steps; k++) ed->step();
    auto all = D.nodes(); for (M* m : all) if (!m->el) { auto& P = pool[m->id]; if (P.size() < 3) P.push_back(m->v); if (r.chance(85)) m->v = P[r.below(P.size())]; } // few values of each attribute: keys meet
    if (!D.root) D.root = D.node(0, true, Value());
    S.f = h.work + vh::fmt("/%s-%d.xb", name, h.shard); auto t = to_tree(D.d, D.root); tree::write_file(S.f + ".src", "x"); DictPlugin P((S.f + ".src").c_str(), t.get(), D.d);
    bool ok; if (r.chance(50)) ok = Bin_xml_packer::Convert(&P, S.f.c_str()); else { Bin_xml_creator X(&P, S.f.c_str()); ok = X.Make_xb(); } if (!h.check(ok, "make", "source was not made")) return false;
    S.fn.assign(S.f.begin(), S.f.end()); S.fn.push_back(0); S.R.reset(new KR(S.fn.data())); if (!h.check(S.R->Initialize(), "source", "source was not opened")) return false;
    // numbers of the file
    std::map<int, int> to[2]; for (int k = 0; k < 2; k++) { auto& T = k ? S.R->param_symbols : S.R->tag_symbols; for (int i = 0; i < T.count; i++) { const char* n = T.getSymbol(i); int ty = T.getType(i); S.D.d.t[k].push_back({n ? n : "", ty}); for (size_t j = 0; j < d.t[k].size(); j++) if (n && d.t[k][j].first == n) { to[k][j] = i; if (!h.check(ty == d.t[k][j].second, "source types", vh::fmt("%s has type %d and should have %d", n, ty, d.t[k][j].second))) return false; } } if (!h.check(to[k].size() == d.t[k].size() && T.count == (int)d.t[k].size(), "source names", vh::fmt("%d names of %d", (int)to[k].size(), (int)d.t[k].size()))) return false; }
    std::function<M*(M*)> tr = [&](M* m) { M* n = S.D.node(to[m->el ? 0 : 1][m->id], m->el, m->v); for (M* a : m->at) { M* x = tr(a); x->up = n; n->at.push_back(x); } for (M* c : m->ch) { M* x = tr(c); x->up = n; n->ch.push_back(x); } return n; };
    S.D.root = tr(D.root); ed.reset(); std::string e = pair_up(S, S.R->getRoot(), S.D.root); return h.check(e.empty(), "source", e);
}
static M* clone(Doc& T, M* m, bool deep = true) { M* n = T.node(m->id, m->el, m->v); if (deep) { for (M* a : m->at) { M* x = clone(T, a); x->up = n; n->at.push_back(x); } for (M* c : m->ch) { M* x = clone(T, c); x->up = n; n->ch.push_back(x); } } return n; }
static bool m_equal(M* t, M* s, const std::set<int>& keys) {
    if (t->id != s->id) return false;
    auto find = [](M* e, int id) { for (M* a : e->at) if (a->id == id) return a; return (M*)nullptr; };
    for (M* a : s->at) if (keys.count(a->id)) { M* b = find(t, a->id); if (!b || b->v.type != a->v.type || b->v.raw != a->v.raw) return false; }
    for (M* b : t->at) if (keys.count(b->id) && !find(s, b->id)) return false;
    return true;
}
// the model of copying along a path; null: refused
static M* m_path(Doc& T, const std::vector<M*>& path, bool whole, const std::set<int>& keys, int& made) {
    auto fresh = [&](M* s, bool last) { made++; M* n = T.node(s->id, true, last && whole ? s->v : Value()); for (M* a : s->at) if ((last && whole) || keys.count(a->id)) { M* x = clone(T, a); x->up = n; n->at.push_back(x); } if (last && whole) for (M* c : s->ch) { M* x = clone(T, c); x->up = n; n->ch.push_back(x); } return n; };
    M* dst; bool last = path.size() == 1;
    if (!T.root) dst = T.root = fresh(path[0], last);
    else {
        dst = T.root; bool copy = false;
        if (dst->id == XTNR_TRANSACTION) { if (dst->ch.empty()) { M* n = fresh(path[0], last); n->up = dst; dst->ch.push_back(n); copy = true; } dst = dst->ch[0]; }
        if (!copy && !m_equal(dst, path[0], keys)) return nullptr;
    }
    for (size_t k = 1; k < path.size(); k++) {
        M* f = nullptr; for (M* c : dst->ch) if (m_equal(c, path[k], keys)) { f = c; break; }
        if (!f) { f = fresh(path[k], k + 1 == path.size()); f->up = dst; dst->ch.push_back(f); }
        dst = f;
    }
    return dst;
}
static std::set<int> rand_keys(Rng& r, const Dict& d, int pc) { std::set<int> k; for (size_t i = 0; i < d.t[1].size(); i++) { int t = d.t[1][i].second; if (t != XBT_NULL && t != XBT_BLOB_STRING && k.size() < 16 && r.chance(pc)) k.insert(i); } return k; }
static BW_element* call_path(W_t* W, KR& R, const std::vector<XML_Item*>& p, bool whole) { // the argument list ends with nullptr, as callers write it
    auto a = [&](size_t k) { return k < p.size() ? p[k] : (XML_Item*)nullptr; };
    if (whole) return W->CopyPath(R, a(0), a(1), a(2), a(3), a(4), a(5), a(6), a(7), a(8), a(9), (XML_Item*)nullptr);
    return W->CopyPathOnly(R, a(0), a(1), a(2), a(3), a(4), a(5), a(6), a(7), a(8), a(9), (XML_Item*)nullptr);
}
static bool open_target(vh::H& h, std::unique_ptr<W_t>& W, const std::string& p, Src& S, Doc& T) {
    W.reset(open_doc(Rng(T.all.size() * 31 + S.D.all.size()), p, 0x800000)); if (!h.check(W->Initialize(), "open", "target was refused")) return false;
    W->importTags(S.R.get()); W->importParams(S.R.get()); if (!h.check(W->allRegistered(), "import", "imported names were refused")) return false;
    T.d = S.D.d; std::string e = check_dict(W.get(), T.d); return h.check(e.empty(), "import", e);
}
static void w07(vh::H& h) {
    static uint64_t found, created, refused, eq, ne;
    h.group_run("subtrees", h.thorough ? 20000 : 1500, [&](uint64_t i, vh::Rng& r) { // copying of whole subtrees between edits
        Dict d = rand_dict(r, r.chance(50) ? 6 : 30, r.chance(50)); std::map<int, std::vector<Value>> pool; Src S; if (!make_src(h, S, d, Rng(r.next()), "s", r.below(60), pool)) return;
        std::string p = path_of(h, "t"), e; unlink(p.c_str()); std::unique_ptr<W_t> W; Doc T; h.desc(tree::show(*to_tree(S.D.d, S.D.root)).substr(0, 1500)); if (!open_target(h, W, p, S, T)) return;
        auto EL = S.elements(); Ed ed(h, W.get(), T, Rng(r.next())); ed.maxlen = 20; std::string log;
        for (int k = 0; k < 12; k++) {
            M* s = r.chance(20) ? S.D.root : EL[r.below(EL.size())]; XML_Item* X = S.item[s]; XML_Binary_Data_Ref data = X->getData(); log += vh::fmt(" copy(%d,%d)", s->id, (int)S.D.nodes().size()); h.desc(log);
            BW_element* E = W->tagData(X->name, data); if (!h.check(E != nullptr, "create", "element was not created")) return; M* m = T.node(s->id, true, s->v); m->off = E->offset;
            bool one = r.chance(20); M* c = clone(T, s); if (one) { /* attributes one by one, without children */ for (int j = 0; j < X->paramcount; j++) if (!h.check(E->attrCopy(*S.R, X, X->getParamByIndex(j)) == E, "attribute", "attribute was not copied")) return; c->ch.clear(); } else { BW_element* C = W->CopyAll(E, *S.R, X); if (!h.check(C == E, "copy", "copying failed")) return; } m->at = c->at; m->ch = c->ch; for (M* x : m->at) x->up = m; for (M* x : m->ch) x->up = m;
            if (!T.root) { W->setRoot(E); T.root = m; } else { auto N = T.nodes(); std::vector<M*> V; for (M* x : N) if (x->el) V.push_back(x); M* u = V[r.below(V.size())]; if (!h.check(W->BWE(u->off)->add(E) == W->BWE(u->off), "add", "")) return; m->up = u; u->ch.push_back(m); }
            e = compare(W.get(), T); if (!h.check(e.empty(), "copied content", e)) return; h.eval();
            // the copy is allowed only into an empty element of the same name
            if (r.chance(30)) { M* b = EL[r.below(EL.size())]; bool no = b->id != m->id || !m->at.empty() || !m->ch.empty(); if (no) { if (!h.check(W->CopyAll(E, *S.R, S.item[b]) == nullptr, "copy into used", "copy into element that is not empty or has other name was not refused")) return; e = compare(W.get(), T); if (!h.check(e.empty(), "refused copy changed", e)) return; refused++; } }
            int q = r.below(10); for (int j = 0; j < q; j++) ed.step(); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return; if (T.all.size() > 4000) break;
        }
        e = compare(W.get(), T); if (!h.check(e.empty(), "content", e)) return; e = check_dict(W.get(), T.d); h.check(e.empty(), "dictionary", e);
        W.reset(); T.loose.clear(); { std::unique_ptr<W_t> V; if (!open_target(h, V, p, S, T)) return; e = compare(V.get(), T, true); h.check(e.empty(), "reopened content", e); }
        h.distinct(log + tree::show(*to_tree(S.D.d, S.D.root))); unlink(p.c_str());
    }, 40);
    h.group_run("paths", h.thorough ? 40000 : 3000, [&](uint64_t i, vh::Rng& r) {
        Dict d = rand_dict(r, r.chance(60) ? 4 : 12, false); std::map<int, std::vector<Value>> pool; Src S1, S2; if (!make_src(h, S1, d, Rng(r.next()), "p", 5 + r.below(50), pool)) return; if (!make_src(h, S2, d, Rng(r.next()), "q", 5 + r.below(50), pool)) return;
        if (!h.check(S1.D.d.t[0] == S2.D.d.t[0] && S1.D.d.t[1] == S2.D.d.t[1], "tables", "two files with the same names have different tables")) return;
        std::string p = path_of(h, "t"), e; unlink(p.c_str()); std::unique_ptr<W_t> W; Doc T; if (!open_target(h, W, p, S1, T)) return;
        S1.R->keys = S2.R->keys = rand_keys(r, S1.D.d, r.chance(20) ? 0 : r.chance(50) ? 30 : 70); std::string log = vh::fmt("keys %d of %d", (int)S1.R->keys.size(), (int)d.t[1].size());
        if (r.chance(30)) { BW_element* t = W->tag(XTNR_TRANSACTION); if (!h.check(t != nullptr, "transaction", "")) return; W->setRoot(t); T.root = T.node(XTNR_TRANSACTION, true, Value()); T.root->off = t->offset; log += " transaction"; }
        Ed ed(h, W.get(), T, Rng(r.next())); ed.plain = true; ed.maxlen = 20;
        for (int k = 0; k < 14; k++) {
            Src& S = r.chance(65) ? S1 : S2; auto EL = S.elements(); M* l = EL[r.below(EL.size())]; std::vector<M*> path; for (M* x = l; x; x = x->up) path.insert(path.begin(), x); if (path.size() > 10) path.resize(10); if (r.chance(10)) path.resize(1); bool whole = r.chance(60);
            log += vh::fmt(" %s%d[", whole ? "path" : "only", &S == &S1 ? 1 : 2); std::vector<XML_Item*> px; for (M* x : path) { px.push_back(S.item[x]); log += vh::fmt("%d ", x->id); } log += "]"; h.desc(log);
            int made = 0; BW_element* x = call_path(W.get(), *S.R, px, whole); M* m = m_path(T, path, whole, S.R->keys, made);
            if (!h.check(!m == !x, m ? "path refused" : "path accepted", m ? "copying along a path failed" : "source with other root was accepted")) return;
            if (m) { if (!made) found++; else created += made; } else refused++;
            e = compare(W.get(), T); if (!h.check(e.empty(), m ? (made ? "path content" : "found but changed") : "refused but changed", e)) return; h.eval();
            if (m && !h.check(x->offset == m->off, "returned", "other than the last element was returned")) return;
            if (m && r.chance(40)) { BW_element* y = call_path(W.get(), *S.R, px, r.chance(50)); bool again = true; /* the same path is found again: an element equals itself */ e = compare(W.get(), T); if (!h.check(y == x && again && e.empty(), "second time", y == x ? e : "the same path leads to another element")) return; found++; }
            // keys of random pairs
            for (int j = 0; j < 12 && T.root; j++) { auto N = T.nodes(); std::vector<M*> V; for (M* n : N) if (n->el) V.push_back(n); M* a = V[r.below(V.size())]; std::vector<M*> same; for (M* b : EL) if (b->id == a->id) same.push_back(b); M* b = same.empty() || r.chance(10) ? EL[r.below(EL.size())] : same[r.below(same.size())]; bool want = m_equal(a, b, S.R->keys), got = W->BWE(a->off)->EqualKeys(*S.R, S.item[b]); (want ? eq : ne)++; if (!h.check(want == got, want ? "equal keys refused" : "different keys accepted", vh::fmt("element %d at +%d and element %d of the source", a->id, a->off, b->id))) return; h.eval(); }
            if (T.root && W->BWE(T.root->off)->EqualKeys(*S.R, nullptr)) { h.fail("keys of nothing", ""); return; }
            if (T.root && r.chance(60)) { int q = r.below(5); for (int j = 0; j < q; j++) { if (T.root->id == XTNR_TRANSACTION && T.root->ch.empty()) break; ed.step(); } log += ed.log; ed.log.clear(); if (!h.check(ed.err.empty(), "step " + ed.op, ed.err)) return; }
            if (r.chance(5)) { if (!h.check(call_path(W.get(), *S.R, {nullptr}, whole) == nullptr, "path of nothing", "")) return; auto px2 = px; if (px.size() > 1) { px2.erase(px2.begin()); if (!h.check(call_path(W.get(), *S.R, px2, whole) == nullptr, "path without root", "path that does not begin in the root was accepted")) return; } e = compare(W.get(), T); if (!h.check(e.empty(), "refused but changed", e)) return; }
            if (T.all.size() > 4000) break;
        }
        e = compare(W.get(), T); h.check(e.empty(), "content", e); T.loose.clear(); W.reset(); { std::unique_ptr<W_t> V; if (!open_target(h, V, p, S1, T)) return; e = compare(V.get(), T, true); h.check(e.empty(), "reopened content", e); }
        h.distinct(log); if (i < 3) h.sample(vh::fmt("%s ... up to now found %llu created %llu refused %llu, keys equal %llu different %llu", log.substr(0, 300).c_str(), (unsigned long long)found, (unsigned long long)created, (unsigned long long)refused, (unsigned long long)eq, (unsigned long long)ne)); unlink(p.c_str());
    }, 40);
    h.group_run("names", h.thorough ? 10000 : 1000, [&](uint64_t i, vh::Rng& r) { // names of several files are joined, numbers of known names stay
        Dict all = rand_dict(r, 30, r.chance(50)); std::string p = path_of(h, "t"), e; unlink(p.c_str()); Dict T; int n = 2 + r.below(3); std::unique_ptr<W_t> W(open_doc(r, p, 0x100000)); if (!h.check(W->Initialize(), "open", "")) return; std::string log;
        for (int k = 0; k < n; k++) {
            Dict d; for (int q = 0; q < 2; q++) for (size_t j = 0; j < all.t[q].size(); j++) if ((q == 0 && j == 0) || r.chance(50)) d.t[q].push_back(all.t[q][j]);
            std::map<int, std::vector<Value>> pool; Src S; if (!make_src(h, S, d, Rng(r.next()), "n", r.below(10), pool)) return;
            W->importTags(S.R.get()); W->importParams(S.R.get());
            for (int q = 0; q < 2; q++) for (auto& x : S.D.d.t[q]) if (std::find(T.t[q].begin(), T.t[q].end(), x) == T.t[q].end()) T.t[q].push_back(x);
            log += vh::fmt(" +%d+%d", (int)d.t[0].size(), (int)d.t[1].size()); h.desc(log); if (!h.check(W->allRegistered(), "import", "imported names were refused")) return; e = check_dict(W.get(), T); if (!h.check(e.empty(), "imported names", e)) return; h.eval();
            if (r.chance(30)) { W.reset(open_doc(r, p, 0x100000)); log += " reopen"; if (!h.check(W->Initialize() && W->allRegistered(), "reopen", "")) return; e = check_dict(W.get(), T); if (!h.check(e.empty(), "reopened names", e)) return; }
        }
        W->importTags(nullptr); W->importParams(nullptr); e = check_dict(W.get(), T); h.check(e.empty(), "import of nothing", e); for (int q = 0; q < 2; q++) for (auto& x : T.t[q]) log += x.first; h.distinct(log); unlink(p.c_str());
    }, 40);
}
