"""Random XML and JSON documents, and malformed variants of them."""
import random, json

SHAPES_FIXED = ["0", "-0", "00", "007", "-1", "+1", "1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
    "0.0", "0.5", "-0.5", "-0.05", "1.5", "1.50", "1.500", "12.345678", "-0.000001", "0.000000001", "214748364.7", "214748364.8", "21474836.47", "21474836.48", "1.", ".5", "1e5", "1E-3", "NaN", "Infinity", "1,5", "1.2.3", "0x1F", "0x", "1 ", "-", "--1", "- 1", "1-", "99999999999999999999999999999",
    "1.2.3.4", "0.0.0.0", "255.255.255.255", "256.1.1.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "127.0.0.1", "1.2.3.04", "::1", "fe80::1",
    "2017-01-15", "2017-1-15", "1970-01-01", "1969-12-31", "1600-02-29", "2000-02-29", "1900-02-29", "2017-02-29", "2017-13-01", "2017-00-10", "0000-00-00", "9999-12-31", "2017-01-15 13:38:00", "2017-01-15 13:38", "2017-01-15 24:00:00", "2017-01-15 23:59:60", "2038-01-19 03:14:07", "2038-01-19 03:14:08", "2106-02-07 06:28:15", "2106-02-07 06:28:16", "1969-12-31 23:59:59", "1970-01-01 00:00:00",
    "2017-01-15 13:38:00.123", "2017-01-15 09:08:07.006", "1969-12-31 23:59:59.999", "2017-01-15 13:38:00.12", "2017-01-15 13:38:00.1234", "2017-01-15T13:38:00", "2017-01-15T13:38:00+01:00", "2017-01-15T13:38:00.1234567", "15.1.2017", "15:30", "13:38:00",
    "2f32360c988cc76f10f3c0a08759d8813ff3d1c7", "2F32360C988CC76F10F3C0A08759D8813FF3D1C7", "2f32360c988cc76f10f3c0a08759d8813ff3d1c", "2f32360c988cc76f10f3c0a08759d8813ff3d1c7a",
    "01234567-89ab-cdef-0123-456789abcdef", "01234567-89AB-CDEF-0123-456789ABCDEF", "{01234567-89ab-cdef-0123-456789abcdef}", "0123456789abcdef0123456789abcdef",
    "deadbeef", "DEADBEEF", "dead", "abc", "ab", "a", "AA==", "QUJD", "QUJDRA==", "true", "false", "null", "NULL", "none",
    "a b", "a  b", "a\tb", "a\nb", "a\n\nb", "<", ">", "&", "\"", "'", "]]>", "&amp;", "&#65;", "&#x3c;b", "&lt;b&gt;", "&#", "&#;", "1 &#10; 2", "&;", "<![CDATA[", "<!-- x -->", "\u00e9", "\u20ac", "\U0001f600", "\u00a0x", "x\u00a0", "\u2028", "p\u0159\u00edli\u0161", "100%", "%s%n", "\\", "\\n", "$HOME", "a\rb", "x\u0085y", "\ufffd", "\ud7ff", "\ue000"]

NAME1 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
NAMEN = NAME1 + "0123456789-."

def shape(r, maxlen=60):
    k = r.randrange(16)
    if k < 5: return r.choice(SHAPES_FIXED)
    if k == 5: return str(r.getrandbits(r.randrange(1, 70)) * r.choice([1, -1]))
    if k == 6: return "%s%d.%s" % (r.choice(["", "-"]), r.getrandbits(r.randrange(1, 34)), "".join(r.choice("0123456789") for _ in range(r.randrange(1, 12))))
    if k == 7: return "%04d-%02d-%02d" % (r.randrange(0, 3000), r.randrange(0, 14), r.randrange(0, 33))
    if k == 8: return "%04d-%02d-%02d %02d:%02d:%02d%s" % (r.randrange(1800, 2200), r.randrange(1, 13), r.randrange(1, 30), r.randrange(0, 25), r.randrange(0, 61), r.randrange(0, 61), r.choice(["", "", ".%03d" % r.randrange(1000), ".%d" % r.randrange(100)]))
    if k == 9: return ".".join(str(r.randrange(0, 260)) for _ in range(r.choice([3, 4, 4, 4, 4, 5])))
    if k == 10: return "".join(r.choice("0123456789abcdef") for _ in range(r.choice([2, 4, 8, 16, 31, 32, 33, 39, 40, 41, 64, 128, 500])))
    if k == 11: h = "".join(r.choice(r.choice(["0123456789abcdef", "0123456789ABCDEF"])) for _ in range(32)); return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
    if k == 12: return "".join(r.choice("abc <>&\"'\u00e9\u20ac\U0001f600\n\t01.-;]") for _ in range(r.randrange(0, maxlen))).strip()
    if k == 13:  # near miss of a fixed shape
        s = list(r.choice(SHAPES_FIXED)); p = r.randrange(len(s)); q = r.randrange(3); c = r.choice("0123456789.-+: aZ\u00e9")
        if q == 0: s[p] = c
        elif q == 1: s.insert(p, c)
        else: del s[p]
        return "".join(s)
    if k == 14: return "".join(r.choice("ab cdefgh&<\u00e9") for _ in range(r.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 250, 255, 256, 257, 300, 511, 512, 513, 690, 700, 1023, 1024, 1025, 4095, 4096, 4097, 9000])))
    return "".join(r.choice("0123456789") for _ in range(r.randrange(1, 45)))

def rname(r, long=False):
    s = r.choice(NAME1) + "".join(r.choice(NAMEN) for _ in range(r.choice([0, 1, 2, 5, 10]) if not long else r.randrange(20, 200)))
    if r.random() < .06: s += r.choice(["\u00e9", "\u010d", "\u4e2d"])
    return s

class N:
    __slots__ = ("name", "attrs", "text", "ch")
    def __init__(self, name): self.name = name; self.attrs = []; self.text = None; self.ch = []

def rtree(r, maxnodes=40, maxdepth=10, repeats=.25, mixed=.15):
    names = [rname(r, r.random() < .05) for _ in range(r.choice([1, 2, 5, 12, 30]))]
    anames = [rname(r, r.random() < .05) for _ in range(r.choice([1, 2, 5, 12, 30]))]
    names = [n for n in names if n != "et-tecera" and not n.lower().startswith("xml")] or ["n"]
    anames = [n for n in anames if not n.lower().startswith("xml")] or ["a"]
    pool = [shape(r) for _ in range(r.choice([3, 30, 200]))]
    def fill(n):
        if r.random() < .75: n.text = r.choice(pool)
        for a in r.sample(anames, min(len(anames), r.choice([0, 0, 1, 2, 3, 8]))):
            n.attrs.append((a, r.choice(pool) if r.random() < .95 else r.choice(["", " ", " x", "x ", "a\nb", "a\tb"])))
    root = N(r.choice(names)); fill(root); allv = [(root, 0)]
    style = r.randrange(4)
    def cp(n):
        m = N(n.name); m.attrs = list(n.attrs); m.text = n.text; m.ch = [cp(c) for c in n.ch]; return m
    def size(n): return 1 + sum(size(c) for c in n.ch)
    for _ in range(r.randrange(maxnodes)):
        p, d = r.choice(allv) if style == 0 else allv[-1] if style == 1 else allv[0] if style == 2 else r.choice(allv[-4:])
        if d >= maxdepth: p, d = allv[0]
        if r.random() < repeats:
            s = r.choice(allv)[0]
            if size(s) < 25:
                c = cp(s)
                if r.random() < .4: # near repetition
                    q = c
                    while q.ch and r.random() < .7: q = r.choice(q.ch)
                    z = r.randrange(3)
                    if z == 0: q.text = r.choice(pool)
                    elif z == 1 and q.attrs: i = r.randrange(len(q.attrs)); q.attrs[i] = (q.attrs[i][0], r.choice(pool))
                    else: q.name = r.choice(names)
                p.ch.append(c); continue
        n = N(r.choice(names)); fill(n); p.ch.append(n); allv.append((n, d + 1))
    if r.random() > mixed:
        def strip(n):
            if n.ch: n.text = None
            for c in n.ch: strip(c)
        strip(root)
    return root

def okchar(c): return c in "\t\n\r" or (" " <= c and c not in "\ufffe\uffff" and not "\ud800" <= c <= "\udfff")

def xml(r, root, ns=True, ents=True):
    """one of the many serialisations"""
    enc = r.choice(["utf-8"] * 8 + ["UTF-16", "us-ascii", None, None])
    ascii_only = enc == "us-ascii"
    use_ent = ents and r.random() < .2
    pretty = r.choice([0, 1, 2])
    cdata = r.random() < .3; refs = r.random() < .3; comm = r.random() < .3; pis = r.random() < .15
    pref = {}
    if ns and r.random() < .2: pref = {"p": "urn:p", "q": "http://q.example/x?a=1&b=2"}
    default_ns = "urn:d" if ns and not use_ent and r.random() < .15 else None
    out = []
    def esc(s, q=None):
        o = []
        for c in s:
            if c == "&": o.append("&amp;" if r.random() < .8 else "&#38;")
            elif c == "<": o.append("&lt;" if r.random() < .8 else "&#x3c;")
            elif c == ">": o.append("&gt;" if not q or r.random() < .5 else ">")
            elif c == "\r": o.append("&#13;")
            elif q and c in "\n\t": o.append("&#%d;" % ord(c))
            elif q and c == q: o.append("&quot;" if c == '"' else "&apos;")
            elif c in "\"'" and not q and r.random() < .3: o.append("&quot;" if c == '"' else "&apos;")
            elif refs and r.random() < .15 or ord(c) > 126 and ascii_only: o.append("&#%d;" % ord(c) if r.random() < .5 else "&#x%x;" % ord(c))
            else: o.append(c)
        return "".join(o)
    def text(s):
        s = "".join(c for c in s if okchar(c))
        if not s: return ""
        if comm and r.random() < .3 and len(s) > 1:
            k = r.randrange(1, len(s)); return text(s[:k]) + "<!-- c%d -->" % k + text(s[k:])
        if pis and r.random() < .3 and len(s) > 1:
            k = r.randrange(1, len(s)); return text(s[:k]) + "<?pi d?>" + text(s[k:])
        if use_ent and r.random() < .3: return esc(s) + r.choice(["&e1;", "&e2;"])
        if cdata and r.random() < .5 and "]]>" not in s and "\r" not in s and not (ascii_only and any(ord(c) > 126 for c in s)): return "<![CDATA[" + s + "]]>"
        return esc(s)
    def el(n, d, top=False):
        nm = n.name
        if ascii_only: nm = nm.encode("ascii", "replace").decode().replace("?", "e")
        pf = r.choice(list(pref)) + ":" if pref and r.random() < .3 else ""
        at = []
        if top:
            at += [("xmlns:" + k, v) for k, v in pref.items()]
            if default_ns: at.append(("xmlns", default_ns))
        seen = set(); el_at = []
        for a, v in n.attrs:
            if ascii_only: a = a.encode("ascii", "replace").decode().replace("?", "e")
            if a in seen: continue
            seen.add(a); v = "".join(c for c in v if okchar(c))
            el_at.append((r.choice(list(pref)) + ":" + a if pref and r.random() < .2 else a, v))
        at += el_at
        s = "<" + pf + nm
        for a, v in at:
            q = r.choice("\"\"\"'"); s += r.choice([" ", " ", "\n\t"]) + a + r.choice(["=", "=", " = "]) + q + esc(v, q) + q
        t = text(n.text) if n.text is not None else ""
        if not t and not n.ch and r.random() < .6: out.append(s + r.choice(["/>", " />"])); return
        out.append(s + ">")
        if t and (not n.ch or r.random() < .7): out.append(t); t = ""
        for c in n.ch:
            if pretty: out.append("\n" + ("  " if pretty == 1 else "\t") * (d + 1))
            if comm and r.random() < .2: out.append("<!-- between -->")
            if pis and r.random() < .2: out.append("<?between x?>")
            el(c, d + 1)
            if t and r.random() < .5: out.append(t); t = ""
        if t: out.append(t)
        if n.ch and pretty: out.append("\n" + ("  " if pretty == 1 else "\t") * d)
        out.append("</" + pf + nm + r.choice(["", "", " "]) + ">")
    el(root, 0, True)
    head = ""
    if enc: head = '<?xml version="1.0" encoding="%s"?>' % enc + r.choice(["", "\n"])
    rn = root.name if not ascii_only else root.name.encode("ascii", "replace").decode().replace("?", "e")
    if use_ent: head += "<!DOCTYPE x [<!ENTITY e1 \"one\"><!ENTITY e2 \"t&#38;#38;w &#233; &e1;\">]>\n"
    if comm: head += "<!-- head -->"
    tail = r.choice(["", "\n", "\n<!-- tail -->\n"])
    return (head + "".join(out) + tail).encode({"us-ascii": "ascii", None: "utf-8"}.get(enc, enc))

# ---------------------------------------------------------------- JSON
def jvalue(r, d, maxd, budget):
    budget[0] -= 1
    k = r.random()
    if d < maxd and budget[0] > 0 and k < (.9 if d == 0 else .4):
        if d == 0 or r.random() < .55: return jobject(r, d, maxd, budget)
        return [jvalue(r, d + 1, maxd, budget) for _ in range(r.choice([0, 1, 2, 3, 7]))]
    return jleaf(r)

class Raw(str): pass  # number literal kept as written

def jleaf(r):
    k = r.randrange(10)
    if k == 0: return r.choice([True, False, None])
    if k < 4: return Raw(r.choice(["0", "-0", "1", "-1", "1.5", "1.50", "-0.05", "1e5", "1E+5", "2.5e-3", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775808", "123456789012345678901234567890", "0.1234567890123", str(r.getrandbits(r.randrange(1, 66))), "%d.%0*d" % (r.randrange(100000), r.randrange(1, 8), r.randrange(10))]))
    s = shape(r)
    if r.random() < .25: s += r.choice(["\b", "\f", "\n", "\r", "\t", "\"", "\\", "/", "\u0001", "\u001f", "\u007f", "\U0001f600", "\uffff", "\\u0041", " ", "  "]) + r.choice(["", "x"])
    if r.random() < .1: s = r.choice(["\n", " ", "\t"]) + s
    if r.random() < .1: s = ""
    return s

def jkey(r, names):
    return r.choice(names)

def jobject(r, d, maxd, budget, names=[None]):
    if d == 0 or names[0] is None:
        nm = [rname(r, r.random() < .05) for _ in range(r.choice([1, 3, 8, 20]))]
        nm += ["items", "userList", "List", "s", "ss", "Lists", "xList", "data", "News", "L", "ist"]
        if r.random() < .3: nm += ["with space", "quo\"te", "back\\slash", "sla/sh", "t\tab", "\u00e9", "\u4e2d", "\U0001f600s", "1", "-"]
        nm = [n for n in nm if n]
        names[0] = nm
    return [(jkey(r, names[0]), jvalue(r, d + 1, maxd, budget)) for _ in range(r.choice([0, 1, 2, 3, 5, 9] if d else [1, 2, 3, 6, 12]))]

def is_obj(v): return isinstance(v, list) and v and isinstance(v[0], tuple)

class Obj(list): pass

def jgen(r, maxd=6, nodes=60):
    def conv(v, forced=False):
        if isinstance(v, list) and (forced or (v and isinstance(v[0], tuple))): return Obj((k, conv(x)) for k, x in v)
        if isinstance(v, list): return [conv(x) for x in v]
        return v
    return conv(jobject(r, 0, maxd, [nodes]), True)

def json_text(r, v):
    ws = r.choice(["", "", " ", "\n", "full"])
    def sp():
        if ws == "full": return "".join(r.choice(" \t\r\n") for _ in range(r.randrange(3)))
        return ws
    esc_all = r.random() < .2
    def st(s):
        o = []
        for c in s:
            if c == '"': o.append('\\"')
            elif c == "\\": o.append("\\\\")
            elif c in "\b\f\n\r\t" and r.random() < .7: o.append({"\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}[c])
            elif c == "/" and r.random() < .4: o.append("\\/")
            elif ord(c) < 32 or esc_all or r.random() < .03:
                for u in (c.encode("utf-16-be")[i:i + 2] for i in range(0, len(c.encode("utf-16-be")), 2)):
                    h = u.hex(); o.append("\\u" + (h if r.random() < .5 else h.upper()))
            else: o.append(c)
        return '"' + "".join(o) + '"'
    def go(v):
        if v is True: return "true"
        if v is False: return "false"
        if v is None: return "null"
        if isinstance(v, Raw): return str(v)
        if isinstance(v, str): return st(v)
        if isinstance(v, Obj): return "{" + sp() + ("," + sp()).join(st(k) + sp() + ":" + sp() + go(x) + sp() for k, x in v) + "}"
        return "[" + sp() + ("," + sp()).join(go(x) + sp() for x in v) + "]"
    return (sp() + go(v) + sp()).encode("utf-8")

def item_name(parent_key):
    if parent_key is None: return "__ARRAY_ITEM_NAME__"
    if parent_key.endswith("s"): return parent_key[:-1]
    if len(parent_key.encode()) > 4 and parent_key.endswith("List"): return parent_key[:-4]
    return parent_key + "Item"

def json_expected(v, name=None, key=None):
    """(name, text, children) by the documented rule"""
    if isinstance(v, Obj): return (name, None, [json_expected(x, k, k) for k, x in v])
    if isinstance(v, list): return (name, None, [json_expected(x, item_name(key), None) for x in v])
    if v is True: return (name, "true", [])
    if v is False: return (name, "false", [])
    if v is None: return (name, "null", [])
    return (name, str(v), [])

# ---------------------------------------------------------------- damage
XTOK = [b"<", b">", b"</", b"/>", b"&", b";", b"&#", b"&#x", b"&#0;", b"&#xFFFF;", b"&#1114112;", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?", b"?>", b"<!DOCTYPE a [", b"]>", b"<!ENTITY a \"&a;\">", b"<!ENTITY b SYSTEM \"x.ent\">", b"&a;", b"&b;", b"\"", b"'", b"=", b" xmlns=\"\"", b"xmlns:z=\"\"", b"z:", b":", b"\x00", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xef\xbb\xbf", b"\xff\xfe", b" a=\"1\" a=\"2\"", b"<a>", b"</a>", b"encoding=\"utf-16\"", b"encoding=\"bogus\""]
JTOK = [b"{", b"}", b"[", b"]", b":", b",", b"\"", b"\\", b"\\u", b"\\u0000", b"\\ud800", b"\\udc00", b"\\x", b"null", b"tru", b"-", b"e", b".", b"\x00", b"\xff", b"\xc3", b"\xef\xbb\xbf", b"'", b"//", b"/*", b"\n", b"1" * 400, b"{}", b"[]", b"\"\"", b"\"a\":1", b"\"a\"", b"=", b"#"]
def damage(r, data, toks):
    d = bytearray(data)
    for _ in range(r.choice([1, 1, 2, 4, 16])):
        k = r.randrange(9); n = len(d)
        p = r.randrange(n + 1); q = min(n, p + r.choice([1, 1, 2, 5, 20, 100]))
        if k == 0: d[p:p] = r.choice(toks)
        elif k == 1: d[p:q] = b""
        elif k == 2 and n: d[min(p, n - 1)] = r.randrange(256)
        elif k == 3: d = d[:p]
        elif k == 4: d[p:p] = d[p:q] * r.choice([1, 2, 50])
        elif k == 5: d[p:q] = r.choice(toks)
        elif k == 6 and n: d[min(p, n - 1)] ^= 1 << r.randrange(8)
        elif k == 7: a = r.randrange(n + 1); d[a:a] = d[p:q]
        else: d = d[p:] if r.random() < .2 else d[:max(0, n - r.randrange(1, 6))]
        if len(d) > 60000: d = d[:60000]
    return bytes(d)
