// Random editing of a writable document: each operation is done by the real plugin and by the model.
#pragma once
#include "bwm.h"
namespace bwm {
static Value strv(int type, const std::string& t) { Value v; v.type = type; if (type == XBT_STRING) v.raw = t + '\0'; else { int c = blob_string_capacity(t.size()); v.raw = le32(c) + t + std::string(c - t.size(), '\0'); } return v; }
struct Ed {
    vh::H& h; W_t* W; Doc& D; Rng r; std::string err, log, op; size_t maxlen = 40; bool flat = false, refused = false, plain = false; int64_t limit = 0; int grow = 0;
    Ed(vh::H& h_, W_t* W_, Doc& D_, Rng r_) : h(h_), W(W_), D(D_), r(r_) {}
    BW_element* E(M* m) { return W->BWE(m->off); }
    void bad(const std::string& s) { if (err.empty()) err = s; }
    // something was refused: only a nearly full pool may do that
    bool refuse(int64_t need) { BW_pool* p = W->getPool(); int64_t top = p->mmap_size; if (limit && limit < top) top = limit; if ((int64_t)p->allocator + need + 0x4000 + 8192 <= top) bad(op + vh::fmt(" failed, %d bytes of %u are used and %lld are needed", p->allocator, p->mmap_size, (long long)need)); refused = true; return false; }
    M* first(M* e, int id) { for (M* c : e->ch) if (c->id == id) return c; return nullptr; }
    M* first_at(M* e, int id) { for (M* a : e->at) if (a->id == id) return a; return nullptr; }
    int tag_id() { return flat ? 1 + r.below(D.d.t[0].size() - 1) : r.below(D.d.t[0].size()); }
    Value value(int type) { size_t l = maxlen; if (!limit && r.chance(3)) l = 3000; return rand_value(r, type, l); }
    M* create() { // new detached element
        int id = tag_id(); int t = D.d.t[0][id].second; if (t != XBT_NULL && r.chance(6)) t = XBT_NULL; if (!flat && !plain && r.chance(1)) { id = XTNR_TRANSACTION; t = XBT_NULL; }
        Value v = value(t); unsigned how = r.below(8); bool zero = how == 4 && (t == XBT_BLOB || t == XBT_HEX); if (zero) std::fill(v.raw.begin() + 4, v.raw.end(), '\0');
        log += vh::fmt(" new(%d,t%d,%d)", id, t, (int)v.raw.size());
        M* m = D.node(id, true, v);
        if (W) { BW_element* x = zero ? (t == XBT_BLOB ? W->tagBLOB(id, nullptr, v.raw.size() - 4) : W->tagHEX(id, nullptr, v.raw.size() - 4)) : mk(W, id, v, how); if (!x) { refuse(24 + 3 * v.raw.size()); return nullptr; } m->off = x->offset; if (W->BWE(m->off) != x) bad("offset of new element"); if (x->next != m->off || x->prev != m->off || x->first_child || x->first_attribute) bad("new element is not alone"); }
        return m;
    }
    void step() {
        op = ""; refused = false;
        if (!D.root) { op = "root"; M* m = create(); if (!m) return; if (W) W->setRoot(E(m)); D.root = m; return; }
        auto N = D.nodes(); std::vector<M*> EL; for (M* m : N) if (m->el) EL.push_back(m);
        M* e = flat ? D.root : r.chance(20) ? D.root : EL[r.below(EL.size())];
        int k = r.below(100); if (grow == 1 && k >= 50) k %= 50; if (grow == 2 && k >= 50 && r.chance(60)) k = 25; if (flat) k = r.chance(45) ? 5 : 50 + r.below(20);
        log += vh::fmt(";%d:", e->id);
        if (k < 18) { op = "add"; M* m = create(); if (!m) return; put(e, {m}); }
        else if (k < 25) { // several joined into a list or built as a subtree
            op = "add list"; std::vector<M*> L; int n = 2 + r.below(4); for (int i = 0; i < n; i++) { M* m = create(); if (!m) break; if (r.chance(50)) { M* c = create(); if (c) put(m, {c}); } L.push_back(m); } if (L.empty()) return;
            // joined one by one, or two lists together
            if (W) { BW_element* a = E(L[0]); size_t half = r.chance(50) ? 1 + r.below(L.size()) : L.size(); for (size_t i = 1; i < half; i++) if (a->join(E(L[i])) != a) bad("join"); if (half < L.size()) { BW_element* b = E(L[half]); for (size_t i = half + 1; i < L.size(); i++) b->join(E(L[i])); if (a->join(b) != a) bad("join of lists"); } } else { if (r.chance(50)) r.below(L.size()); }
            put(e, L);
        }
        else if (k < 50) { // attribute
            op = "attr"; if (D.d.t[1].empty()) return; int id = r.below(D.d.t[1].size()); if (plain && first_at(e, id)) return; if (!plain && r.chance(4)) { static const int S[] = {XPNR_NAME, XPNR_HASH, XPNR_MODIFIED, XPNR_COUNT, XPNR_ID, XPNR_AUTHOR, XPNR_TIME_MS, XPNR_TYPE_COUNT, XPNR_FORMAT_VERSION}; id = S[r.below(9)]; }
            int t = type_of(D.d, 1, id); Value v = value(t); unsigned how = r.below(8); bool zero = how == 4 && (t == XBT_BLOB || t == XBT_HEX); if (zero) std::fill(v.raw.begin() + 4, v.raw.end(), '\0'); op = vh::fmt("attr t%d/%d", t, how % 4);
            log += vh::fmt(" @%d(t%d,%d)", id, t, (int)v.raw.size());
            if (W) { BW_element* x = E(e); bool ok = zero ? (t == XBT_BLOB ? x->attrBLOB(id, nullptr, v.raw.size() - 4) : x->attrHEX(id, nullptr, v.raw.size() - 4)) == x : mkattr(x, id, v, how); if (!ok) { refuse(24 + 3 * v.raw.size()); return; } }
            M* m = D.node(id, false, v); m->up = e; e->at.push_back(m); if (W) m->off = W->BWE(E(e)->first_attribute)->prev;
        }
        else if (k < 57) { // detach
            op = "remove"; auto& L = r.chance(flat ? 100 : 60) ? e->ch : e->at; if (L.empty()) return; size_t i = r.below(L.size()); M* m = L[i]; log += vh::fmt(" remove(%d)", (int)i); if (W && E(e)->remove(E(m)) != E(e)) bad("remove"); L.erase(L.begin() + i); m->up = nullptr; D.loose.push_back(m);
        }
        else if (k < 63) { op = "re-add"; if (D.loose.empty()) return; size_t i = r.below(D.loose.size()); M* m = D.loose[i]; if (plain && !m->el && first_at(e, m->id)) return; D.loose.erase(D.loose.begin() + i); log += vh::fmt(" re-add(%d)", m->id); put(e, {m}); }
        else if (k < 69) { // replace by a new or a detached one
            op = "replace"; bool el = r.chance(flat ? 100 : 70); auto& L = el ? e->ch : e->at; if (L.empty()) return; size_t i = r.below(L.size()); M* n = nullptr;
            if (el && r.chance(50)) { n = create(); if (!n) return; } else { std::vector<M*> c; for (M* m : D.loose) if (m->el == el) c.push_back(m); if (c.empty()) return; n = c[r.below(c.size())]; if (plain && !el && n->id != L[i]->id && first_at(e, n->id)) return; D.loose.erase(std::find(D.loose.begin(), D.loose.end(), n)); }
            log += vh::fmt(" replace(%d by %d)", (int)i, n->id); M* o = L[i]; if (W && E(e)->replace(E(o), E(n)) != E(e)) bad("replace"); L[i] = n; n->up = e; o->up = nullptr; D.loose.push_back(o);
        }
        else if (k < 82) setter(e);
        else if (k < 84) { op = "tag"; int id = tag_id(); M* m = first(e, id); log += vh::fmt(" tag(%d)", id); bool can = m || type_of(D.d, 0, id) == XBT_NULL; if (!m && can) m = D.node(id, true, Value()); bool isnew = can && (e->ch.empty() || first(e, id) == nullptr);
            if (W) { BW_element* x = E(e)->tag(id); if (!can) { if (x) bad("element of other type was created"); return; } if (!x) { refuse(64); return; } if (isnew) m->off = x->offset; else if (x->offset != m->off) bad("tag returns other element"); } if (isnew && can) { m->up = e; e->ch.push_back(m); } }
        else if (k < 90) { // setStr
            op = "setStr"; std::vector<M*> c; for (M* m : e->ch) if (m->v.type == XBT_STRING || m->v.type == XBT_BLOB_STRING) c.push_back(m); for (M* m : e->at) if (m->v.type == XBT_STRING || m->v.type == XBT_BLOB_STRING) c.push_back(m); if (c.empty()) return; M* m = c[r.below(c.size())]; std::string old = txt(m->v), t = rand_text(r, r.chance(50) ? maxlen : old.size() + 2), was = t; bool null = r.chance(5); if (null) t = ""; if (r.chance(8)) t = old, null = false; op += vh::fmt(" t%d %s", m->v.type, m->el ? "element" : "attribute"); log += vh::fmt(" setStr(%d,%d->%d)", m->id, (int)old.size(), (int)t.size());
            if (W) { vh::CStr s(t); bool ok = E(m)->setStr(W, E(e), null ? nullptr : s.p); if (ok != (t != old)) { if (t != old) refuse(24 + 3 * t.size()); else bad("setStr reports change"); return; } if (ok) relink(e, m); } m->v = strv(m->v.type, t);
        }
        else if (k < 93) { // retype
            op = "retype"; M* m = N[r.below(N.size())]; int nt = r.chance(50) ? pick(r, ATTR_TYPES) : m->v.type; if (is4(m->v.type) && r.chance(60)) nt = r.chance(50) ? XBT_UNIX_TIME : XBT_INT32; if (is8(m->v.type) && r.chance(60)) nt = XBT_INT64; if (nt == XBT_FLOAT || nt == XBT_DOUBLE || nt == XBT_BLOB_STRING || m->v.type == XBT_BLOB_STRING) return;
            int ot = m->v.type; bool ok = nt == ot || (is4(nt) && is4(ot)) || (is8(nt) && is8(ot)) || (isvar(nt) && isvar(ot)); op = vh::fmt("retype %d to %d", ot, nt); log += vh::fmt(" retype(%d,%d->%d)", m->id, ot, nt); if (W) { BW_element* x = E(m)->retype((XML_Binary_Type)nt); if ((x == E(m)) != ok || (!ok && x)) bad(ok ? "retype failed" : "retype of incompatible type"); } if (ok) m->v.type = nt;
        }
        else if (k < 97) { // in place
            op = "in place"; M* m = N[r.below(N.size())]; Value& v = m->v; log += vh::fmt(" poke(%d,t%d)", m->id, v.type);
            if (is4(v.type)) { Value n = rand_value(r, v.type); if (W) { int32_t* p = E(m)->getInt32(); if (!p) bad("getInt32"); else memcpy(p, n.raw.data(), 4); } v = n; }
            else if (v.type == XBT_INT64 || v.type == XBT_UNIX_TIME64_MSEC) { Value n = rand_value(r, v.type); if (W) { int64_t* p = E(m)->getInt64(); if (!p) bad("getInt64"); else memcpy(p, n.raw.data(), 8); } v = n; }
            else if (v.type == XBT_STRING || v.type == XBT_BLOB_STRING) { std::string t = txt(v); if (t.size()) { size_t i = r.below(t.size()); if (plain && (t[i] & 0x80)) return; t[i] = 'Q'; if (W) { char* p = E(m)->getStr(); if (!p) bad("getStr"); else p[i] = 'Q'; } v = strv(v.type, t); } }
            else if (v.type == XBT_GUID) { v = rand_value(r, XBT_GUID); if (W) { GUID_t* p = E(m)->getGUID(); if (!p) bad("getGUID"); else memcpy((void*)p, v.raw.data(), 16); } }
        }
        else { op = "nothing"; if (W) { BW_element* x = E(e); if (x->add(nullptr) != x) bad("add of nothing"); if (x->remove(nullptr) != x) bad("remove of nothing"); if (x->replace(nullptr, x)) bad("replace of nothing"); } }
    }
    void put(M* e, std::vector<M*> L) { if (W && E(e)->add(E(L[0])) != E(e)) bad("add"); for (M* m : L) { m->up = e; (m->el ? e->ch : e->at).push_back(m); } }
    void relink(M* e, M* m) { // a longer text may live at another place
        auto& L = m->el ? e->ch : e->at; size_t i = std::find(L.begin(), L.end(), m) - L.begin(); int32_t o = m->el ? E(e)->first_child : E(e)->first_attribute; for (size_t k = 0; k < i && o; k++) o = W->BWE(o)->next; if (o) m->off = o;
    }
    void setter(M* e) {
        int id = tag_id(), kind = r.below(5); for (int t = 0; t < 6; t++) { int ty = type_of(D.d, 0, id); if (kind == 0 ? is4(ty) : kind == 1 ? is8(ty) : kind == 2 ? ty == XBT_STRING : kind == 3 ? ty == XBT_UNIX_TIME : ty == XBT_SHA1) break; id = tag_id(); if (t == 3) kind = r.below(5); }
        if (r.chance(50) && e->ch.size()) { M* c = e->ch[r.below(e->ch.size())]; if (c->id >= 0) id = c->id; if (is4(c->v.type)) kind = 0; if (is8(c->v.type)) kind = 1; if (c->v.type == XBT_STRING) kind = 2; if (c->v.type == XBT_UNIX_TIME && r.chance(50)) kind = 3; if (c->v.type == XBT_SHA1) kind = 4; }
        M* m = first(e, id); int dt = type_of(D.d, 0, id); static const int T[] = {XBT_INT32, XBT_INT64, XBT_STRING, XBT_UNIX_TIME, XBT_SHA1}; int t = T[kind]; Value v = value(t); bool null = (kind == 2 || kind == 4) && r.chance(6); if (null) { if (kind == 2) v.raw = std::string(1, '\0'); else v.raw = std::string(20, '\0'); }
        if (kind == 2 && !null && m && m->v.type == XBT_STRING && r.chance(60)) { v.raw = rand_text(r, m->v.raw.size() + 4) + '\0'; }
        op = vh::fmt("tagSet%d %s t%d", kind, m ? "existing" : "new", dt); log += vh::fmt(" set%d(%d,%d%s)", kind, id, (int)v.raw.size(), m ? ",had" : "");
        bool creat = kind == 0 ? is4(dt) : kind == 1 ? is8(dt) : dt == t, place = m && m->v.type == t, can = m ? place || (kind < 3 && creat) : creat; int nt = place ? t : dt; if (place && kind == 2 && dt != t && v.raw.size() > m->v.raw.size()) return; // whether a longer text can be created, when its name has other type now, is not defined
        if (kind == 0 && m && !place && is4(dt) && 0) nt = dt;
        BW_element* x = nullptr;
        if (W) { vh::CStr s(kind == 2 ? v.raw.substr(0, v.raw.size() - 1) : ""); BW_element* p = E(e); switch (kind) { case 0: x = p->tagSetInt32(id, i32(v)); break; case 1: x = p->tagSetInt64(id, i64(v)); break; case 2: x = p->tagSetString(id, null ? nullptr : s.p); break; case 3: x = p->tagSetTime(id, (uint32_t)i32(v)); break; default: x = p->tagSetSHA1(id, null ? nullptr : (const uint8_t*)v.raw.data()); }
            if (!can) { if (x) bad(op + ": value of wrong type was accepted"); return; } if (!x) { refuse(64 + 3 * v.raw.size()); return; } }
        if (!can) return;
        v.type = nt; if (!m) { m = D.node(id, true, v); m->up = e; e->ch.push_back(m); } else m->v = v;
        if (W) { m->off = x->offset; if (E(e)->tagGet(id) != x) bad(op + ": returned element is not the one in document"); }
    }
    // one big value; kind: 0 BLOB element 1 HEX element 2 BLOB attribute 3 text element 4 text attribute 5 HEX attribute 6 BLOB_STRING element
    void big(int kind, int64_t n) {
        op = "big"; refused = false; bool huge = n > 0x800000; Value v; static const int T[] = {XBT_BLOB, XBT_HEX, XBT_BLOB, XBT_STRING, XBT_STRING, XBT_HEX, XBT_BLOB_STRING}; v.type = T[kind]; std::string d; if (!huge) { d.resize(n); for (auto& c : d) c = (char)('a' + r.below(26)); }
        BW_element* x = nullptr; BW_element* root = E(D.root); int64_t need = 64 + (kind == 6 ? 3 * n : kind == 3 ? 2 * n : n); char dummy = 0; const char* p = huge ? &dummy : d.data(); // a huge value cannot fit, it must be refused before it is read
        switch (kind) { case 0: x = W->tagBLOB(1, p, n); break; case 1: x = W->tagHEX(2, p, n); break; case 2: x = root->attrBLOB(0, p, n); break; case 3: x = W->tagStr(3, d.c_str()); break; case 4: x = root->attrStr(1, d.c_str()); break; case 5: x = root->attrHEX(2, p, n); break; default: x = W->tagStr(4, d.c_str()); }
        if (!x) { refuse(need); return; }
        if (huge) { bad("value bigger than the pool was accepted"); return; }
        if (kind == 3 || kind == 4) v.raw = d + '\0'; else if (kind == 6) v = strv(XBT_BLOB_STRING, d); else v.raw = le32(n) + d;
        if (kind == 2 || kind == 4 || kind == 5) { M* m = D.node(kind == 2 ? 0 : kind == 4 ? 1 : 2, false, v); m->up = D.root; D.root->at.push_back(m); } else { M* m = D.node(kind == 0 ? 1 : kind == 1 ? 2 : kind == 3 ? 3 : 4, true, v); m->off = x->offset; put(D.root, {m}); }
    }
    // an attempt that must be refused
    std::string wrong() {
        auto N = D.nodes(); if (!D.root) return ""; std::vector<M*> EL; for (M* m : N) if (m->el) EL.push_back(m); M* e = EL[r.below(EL.size())]; BW_element* x = E(e); BW_pool* p = W->getPool(); std::vector<uint64_t> keep;
        auto attr_not = [&](std::function<bool(int)> ok) { for (int t = 0; t < 50; t++) { int id = r.below(D.d.t[1].size()); if (!ok(D.d.t[1][id].second)) return id; } return -1; };
        auto tag_not = [&](std::function<bool(int)> ok) { for (int t = 0; t < 50; t++) { int id = r.below(D.d.t[0].size()); if (!ok(D.d.t[0][id].second)) return id; } return -1; };
        auto is = [](int t) { return [t](int u) { return t == u; }; };
        char b[64] = "0123456789012345678"; int k = r.below(40); int id = 0; BW_element* y = nullptr; op = vh::fmt("wrong %d", k);
#define TRY(sel, call) { id = sel; if (id >= 0) y = call; break; }
        if (D.d.t[1].empty() && k < 16) return "";
        switch (k) {
            case 0: TRY(attr_not(is(XBT_NULL)), x->attrNull(id)) case 1: TRY(attr_not(is(XBT_STRING)), x->attrStr(id, b)) case 2: TRY(attr_not(is(XBT_STRING)), x->attrStr2(id, b, b + 5)) case 3: TRY(attr_not(is(XBT_BLOB)), x->attrBLOB(id, b, 5)) case 4: TRY(attr_not(is(XBT_HEX)), x->attrHEX(id, b, 5))
            case 5: TRY(attr_not(is(XBT_INT32)), x->attrInt32(id, 5)) case 6: TRY(attr_not(is(XBT_UINT32)), x->attrUInt32(id, 5)) case 7: TRY(attr_not(is8), x->attrInt64(id, 5)) case 8: TRY(attr_not(is(XBT_UINT64)), x->attrUInt64(id, 5)) case 9: TRY(attr_not(is(XBT_FLOAT)), x->attrFloat(id, 5)) case 10: TRY(attr_not(is(XBT_DOUBLE)), x->attrDouble(id, 5))
            case 11: TRY(attr_not(is(XBT_GUID)), x->attrGUID(id, b)) case 12: TRY(attr_not(is(XBT_SHA1)), x->attrSHA1(id, b)) case 13: TRY(attr_not(is(XBT_UNIX_TIME)), x->attrTime(id, 5)) case 14: TRY(attr_not(is(XBT_UNIX_TIME64_MSEC)), x->attrTime64(id, 5))
            case 15: { int t; do t = pick(r, ATTR_TYPES); while (t == XBT_STRING || t == XBT_NULL); Value v = rand_value(r, t); XML_Binary_Data_Ref R = ref_of(v, keep); TRY(attr_not(is(t)), x->attrData(id, R)) }
            case 16: TRY(tag_not([](int t) { return t == XBT_STRING || t == XBT_BLOB_STRING; }), W->tagStr(id, b)) case 17: TRY(tag_not(is(XBT_BLOB)), W->tagBLOB(id, b, 5)) case 18: TRY(tag_not(is(XBT_HEX)), W->tagHEX(id, b, 5)) case 19: TRY(tag_not(is4), W->tagInt32(id, 5)) case 20: TRY(tag_not(is(XBT_INT64)), W->tagInt64(id, 5))
            case 21: TRY(tag_not(is(XBT_FLOAT)), W->tagFloat(id, 5)) case 22: TRY(tag_not(is(XBT_GUID)), W->tagGUID(id, (GUID_t*)b)) case 23: TRY(tag_not(is(XBT_SHA1)), W->tagSHA1(id, (uint8_t*)b)) case 24: TRY(tag_not(is(XBT_UNIX_TIME)), W->tagTime(id, 5)) case 25: TRY(tag_not(is(XBT_UNIX_TIME64_MSEC)), W->tagTime64(id, 5))
            case 26: { int t; do t = pick(r, TAG_TYPES); while (t == XBT_STRING || t == XBT_NULL); Value v = rand_value(r, t); XML_Binary_Data_Ref R = ref_of(v, keep); TRY(tag_not(is(t)), W->tagData(id, R)) }
            case 27: TRY(tag_not(is(XBT_NULL)), p->tag(id)) case 28: TRY(tag_not(is4), p->tagInt32(id, 5)) case 29: TRY(tag_not(is8), p->tagInt64(id, 5)) case 30: TRY(tag_not(is(XBT_STRING)), p->tagString(id, b)) case 31: TRY(tag_not(is(XBT_UNIX_TIME)), p->tagTime(id, 5)) case 32: TRY(tag_not(is(XBT_SHA1)), p->tagSHA1(id, (uint8_t*)b))
            case 33: { M* m = N[r.below(N.size())]; if (m == D.root || m->v.type == XBT_STRING || m->v.type == XBT_BLOB_STRING) return ""; if (E(m)->setStr(W, E(m->up), "something")) bad("setStr of value that is not text"); break; }
            case 34: { M* m = N[r.below(N.size())]; int t = pick(r, ATTR_TYPES), o = m->v.type; if (t == o || (is4(t) && is4(o)) || (is8(t) && is8(o)) || (isvar(t) && isvar(o))) return ""; y = E(m)->retype((XML_Binary_Type)t); break; }
            case 35: { if (e->ch.empty()) return ""; y = x->replace(E(e->ch[0]), nullptr); break; }
            case 36: { Value t; t.type = XBT_STRING; t.raw = std::string("not a value") + '\0'; XML_Binary_Data_Ref R = ref_of(t, keep); static const int BADT[] = {XBT_INT32, XBT_INT64, XBT_IPv4, XBT_GUID, XBT_SHA1, XBT_UINT32}; int ty = BADT[r.below(6)]; id = -1; for (size_t i = 0; i < D.d.t[1].size(); i++) if (D.d.t[1][i].second == ty) id = i; if (id < 0) return ""; op += vh::fmt(" t%d", ty); y = x->attrData(id, R); break; }
            case 37: { Value t; t.type = XBT_STRING; t.raw = std::string("not a value") + '\0'; XML_Binary_Data_Ref R = ref_of(t, keep); static const int BADT[] = {XBT_INT32, XBT_INT64, XBT_IPv4, XBT_GUID, XBT_SHA1, XBT_UINT32}; int ty = BADT[r.below(6)]; id = -1; for (size_t i = 0; i < D.d.t[0].size(); i++) if (D.d.t[0][i].second == ty) id = i; if (id < 0) return ""; op += vh::fmt(" t%d", ty); y = W->tagData(id, R); break; }
            case 38: { M* m = EL[r.below(EL.size())]; W->setRoot(E(m)); break; }                 // root is set only once
            default: { // numbers that do not exist
                id = r.chance(50) ? (int)D.d.t[0].size() + (int)r.below(100) : 0x7fff; BW_element* z = nullptr; switch (r.below(6)) { case 0: z = W->tagStr(id, b); break; case 1: z = W->tagInt32(id, 1); break; case 2: z = p->tag(id); break; case 3: z = x->attrInt32((int)D.d.t[1].size() + r.below(100), 1); break; case 4: z = x->attrStr((int)D.d.t[1].size() + r.below(100), b); break; default: z = x->tagSetInt32(id, 1); } y = z; op += " number"; }
        }
#undef TRY
        if (y && y != x + 0) bad(op + vh::fmt(": number %d was accepted", id)); else if (y == x) bad(op + vh::fmt(": number %d was accepted", id));
        return vh::fmt(" wrong%d(%d,%d)", k, id, e->id);
    }
    std::string queries() {
        auto N = D.nodes(); if (N.empty()) return ""; std::vector<M*> EL; for (M* m : N) if (m->el) EL.push_back(m);
        for (int q = 0; q < 4; q++) {
            M* e = EL[r.below(EL.size())]; BW_element* x = E(e); int id = r.chance(40) && e->ch.size() ? e->ch[r.below(e->ch.size())]->id : (int)r.below(D.d.t[0].size() + 2); M* m = first(e, id); BW_element* want = m ? E(m) : nullptr;
            if (x->tagGet(id) != want) return "tagGet"; if (x->findChildByTag(id) != want) return "findChildByTag";
            if (x->tagGetInt32(id) != (m && is4(m->v.type) ? (int32_t*)want->BWD() : nullptr)) return "tagGetInt32";
            if (x->tagGetStr(id) != (m && m->v.type == XBT_STRING ? want->BWD() : m && m->v.type == XBT_BLOB_STRING ? want->BWD() + 4 : nullptr)) return "tagGetStr";
            int aid = r.chance(60) && e->at.size() ? e->at[r.below(e->at.size())]->id : (int)r.below(D.d.t[1].size() + 2); M* a = nullptr; for (M* c : e->at) if (c->id == aid) { a = c; break; } BW_element* wa = a ? E(a) : nullptr;
            if (x->attrGet(aid) != wa) return "attrGet"; if (x->findAttr(aid) != wa) return "findAttr"; if (x->findAttrInt32(aid) != (a && is4(a->v.type) ? (int32_t*)wa->BWD() : nullptr)) return "findAttrInt32";
            { size_t i = 0; BW_FOREACH2(x, c) { if (i >= e->ch.size() || c != E(e->ch[i])) return "NextChild"; i++; } if (i != e->ch.size()) return "NextChild ends early"; }
            { size_t i = e->ch.size(); BW_FOREACH2_REV(x, c) { if (i == 0 || c != E(e->ch[i - 1])) return "PrevChild"; i--; } if (i) return "PrevChild ends early"; }
            M* n = N[r.below(N.size())]; BW_element* y = E(n); int t = n->v.type; char* d = y->BWD();
            if ((void*)y->getInt32() != (is4(t) ? d : nullptr)) return "getInt32"; if ((void*)y->getFloat() != (t == XBT_FLOAT ? d : nullptr)) return "getFloat"; if ((void*)y->getTime() != (t == XBT_UNIX_TIME ? d : nullptr)) return "getTime"; if ((void*)y->getInt64() != (t == XBT_INT64 || t == XBT_UNIX_TIME64_MSEC ? d : nullptr)) return "getInt64"; if ((void*)y->getUInt64() != (t == XBT_UINT64 ? d : nullptr)) return "getUInt64"; if ((void*)y->getGUID() != (t == XBT_GUID ? d : nullptr)) return "getGUID"; if (y->getStr() != (t == XBT_STRING ? d : t == XBT_BLOB_STRING ? d + 4 : nullptr)) return "getStr";
            if (n->id >= 0 && y->getSymbolType() != type_of(D.d, n->el ? 0 : 1, n->id)) return "getSymbolType"; if (y->getPool() != W->getPool()) return "getPool";
            // child by value of its attribute: the first one that has it
            M* p = EL[r.below(EL.size())]; std::vector<std::pair<M*, M*>> C; for (M* c : p->ch) for (M* at : c->at) if (at->v.type != XBT_BLOB && at->v.type != XBT_NULL && at->v.type != XBT_FLOAT && at->v.type != XBT_DOUBLE) C.push_back({c, at});
            if (C.size()) { auto pr = C[r.below(C.size())]; Value v = pr.second->v; if (r.chance(20)) v = rand_value(r, v.type, 10); bool str = v.type == XBT_STRING || v.type == XBT_BLOB_STRING; std::string content = str ? txt(v) + '\0' : isvar(v.type) ? v.raw.substr(4) : v.raw; std::vector<uint64_t> k8(content.size() / 8 + 1); memcpy(k8.data(), content.data(), content.size());
                M* wantc = nullptr; for (M* c : p->ch) { if (c->id != pr.first->id) continue; for (M* at : c->at) if (at->id == pr.second->id && at->v.type == v.type) { std::string oc = str ? txt(at->v) + '\0' : isvar(at->v.type) ? at->v.raw.substr(4) : at->v.raw; if (oc == content) { wantc = c; break; } } if (wantc) break; }
                // attributes retyped to another type are compared in an unspecified way
                bool mixed = false; for (M* c : p->ch) if (c->id == pr.first->id) for (M* at : c->at) if (at->id == pr.second->id && at->v.type != v.type) mixed = true;
                if (!mixed && E(p)->findChildByParam(pr.first->id, pr.second->id, (XML_Binary_Type)v.type, k8.data(), content.size()) != (wantc ? E(wantc) : nullptr)) return vh::fmt("findChildByParam of type %d", v.type); }
            h.eval(16);
        }
        return "";
    }
};
// the reading callbacks of the plugin
struct CB { std::vector<std::pair<void*, int>> el; std::vector<std::string> s; };
static std::string callbacks(W_t* W, Doc& D) {
    if (!D.root) return ""; CB cb; static std::vector<std::pair<M*, int>> flat; flat.clear(); std::function<void(M*, int)> walk = [&](M* m, int d) { flat.push_back({m, d}); for (M* c : m->ch) walk(c, d + 1); }; walk(D.root, 0);
    W->ForAllChildrenRecursively([](void* e, void* u, int deep) { ((CB*)u)->el.push_back({e, deep}); }, W->getRoot(), &cb, 0);
    if (cb.el.size() != flat.size()) return vh::fmt("ForAllChildrenRecursively gives %d elements of %d", (int)cb.el.size(), (int)flat.size());
    for (size_t i = 0; i < flat.size(); i++) {
        M* m = flat[i].first; BW_element* E = W->BWE(m->off); if (cb.el[i].first != E || cb.el[i].second != flat[i].second) return "ForAllChildrenRecursively order";
        const char* n = W->getNodeName(E); if (!n || name_of(D.d, 0, m->id) != n) return "getNodeName"; XML_Binary_Type t = XBT_LAST; int size = -1; const char* b = W->getNodeBinValue(E, t, size); if (t != m->v.type || b != (t == XBT_NULL ? nullptr : E->BWD())) return "getNodeBinValue"; if ((t == XBT_BLOB || t == XBT_HEX) && size != (int)m->v.raw.size() - 4) return "getNodeBinValue size";
        if (text_known(t) && t != XBT_NULL && m->v.raw.size() < 300) { const char* tx = W->getNodeValue(E); if (text_of(m->v) != (tx ? tx : "")) return vh::fmt("getNodeValue of type %d: ", t) + (tx ? tx : "(null)") + " and not " + text_of(m->v); }
        CB c2; W->ForAllChildren([](void* e, void* u) { ((CB*)u)->el.push_back({e, 0}); }, E, &c2); if (c2.el.size() != m->ch.size()) return "ForAllChildren count"; for (size_t k = 0; k < m->ch.size(); k++) if (c2.el[k].first != W->BWE(m->ch[k]->off)) return "ForAllChildren order";
        CB c3; W->ForAllParams([](const char* n, const char* v, void*, void* u) { ((CB*)u)->s.push_back(n ? n : "(null)"); ((CB*)u)->s.push_back(v ? v : ""); }, E, &c3); if (c3.s.size() != 2 * m->at.size()) return "ForAllParams count";
        CB c4; if (!W->ForAllBinParams([](const char* n, int id, XML_Binary_Type t, const char* v, void*, void* u) { CB* c = (CB*)u; c->s.push_back(n ? n : "(null)"); c->el.push_back({(void*)v, id * 256 + t}); }, E, &c4)) return "ForAllBinParams"; if (c4.s.size() != m->at.size()) return "ForAllBinParams count";
        for (size_t k = 0; k < m->at.size(); k++) { M* a = m->at[k]; std::string nm = name_of(D.d, 1, a->id); if (c3.s[2 * k] != nm || c4.s[k] != nm) return "attribute name"; if (text_known(a->v.type) && a->v.raw.size() < 300 && c3.s[2 * k + 1] != text_of(a->v)) return vh::fmt("ForAllParams value of type %d: ", a->v.type) + c3.s[2 * k + 1] + " and not " + text_of(a->v); if (c4.el[k].first != W->BWE(a->off)->BWD() || c4.el[k].second != a->id * 256 + a->v.type) return "ForAllBinParams value"; }
    }
    return "";
}
} // namespace bwm
