"""Checks of document conversion: C01-C07 and the command line part of U04."""
import base64, hashlib, json, os, random, re, resource, shutil, signal, struct, subprocess, tempfile, time
import concurrent.futures as cf
import xml.etree.ElementTree as ET
import build, runner, docgen, xbparse

WS = " \t\r\n"
def rng(group, i): return random.Random("%s/%d/%d" % (group, runner.SEED, i))
def quick(a, b): return b if runner.TIER == "thorough" else a

class Work:
    def __enter__(self): self.d = tempfile.mkdtemp(prefix="vc-"); return self
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
    def p(self, *a):
        f = os.path.join(self.d, *a); os.makedirs(os.path.dirname(f), exist_ok=True); return f

def put(path, data):
    with open(path, "wb") as f: f.write(data)
    os.utime(path, (1500000000, 1500000000))
def get(path):
    try:
        with open(path, "rb") as f: return f.read()
    except OSError: return None

_batchno = [0]
def batch(exe, jobs, work, env=None, nproc=8, timeout=700):
    """jobs: list of (id, command, args...). Returns {id: (rc, sig, ms, err)}."""
    if not jobs: return {}
    _batchno[0] += 1
    env = env or build.san_env()
    res = {}; procs = []
    for s in range(min(nproc, len(jobs))):
        jf = work.p("batch%d-%d.jobs" % (_batchno[0], s)); of = jf[:-5] + ".out"
        with open(jf, "w") as f:
            for j in jobs[s::nproc]: f.write("\t".join(str(x) for x in j) + "\n")
        procs.append((subprocess.Popen([exe, jf, of], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work.d), of))
    end = time.time() + timeout
    for p, of in procs:
        try: p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        with open(of, errors="replace") as f:
            for line in f:
                a = line.rstrip("\n").split(" ", 4)
                if len(a) >= 4: res[a[0]] = (int(a[1]), int(a[2]), int(a[3]), a[4] if len(a) > 4 else "")
    return res

def bad_end(r):
    """description of an abnormal end, or None"""
    if r is None: return None
    rc, sig, ms, err = r
    if sig == signal.SIGALRM: return "hang"
    if sig: return "signal-%d" % sig
    if rc == 77: return "sanitizer"
    return None

def fail(res, key, msg, doc=None, **kw):
    if doc is not None and not isinstance(doc, bytes): doc = str(doc).encode("utf-8", "replace")
    res.fail(key, msg, desc=repr(doc[:1500]) if doc is not None else kw.pop("desc", ""), doc_base64=base64.b64encode(doc[:60000]).decode() if doc else "", **kw)

# ------------------------------------------------------------------ XML meaning
def local_ws_strip(s): return s.strip(WS)
ISO = re.compile(r"^(\d{4}-\d\d-\d\d)T(\d\d:\d\d:\d\d\.\d{3})Z$")
def norm(s):
    m = ISO.match(s)        # the same instant written in the other way is the same value
    return m.group(1) + " " + m.group(2) if m else s

def meaning(el):
    """(tag, attributes, text, children) of an ElementTree element; text concatenated without blank runs"""
    runs = [el.text or ""] + [c.tail or "" for c in el]
    runs = [x for x in runs if x.strip(WS)]
    return (el.tag, {k: v for k, v in el.attrib.items()}, norm("".join(runs).strip(WS)), list(el))

def xml_diff(a, b, path=""):
    """first difference of the meaning of two elements, iteratively"""
    st = [(a, b, "")]
    while st:
        x, y, path = st.pop()
        tx, ax, sx, cx = meaning(x); ty, ay, sy, cy = meaning(y)
        p = path + "/" + tx
        if tx != ty: return "name", "%s: element %r became %r" % (p, tx, ty)
        if set(ax) != set(ay): return "attributes", "%s: attributes %r became %r" % (p, sorted(ax), sorted(ay))
        for k in ax:
            if norm(ax[k]) != norm(ay[k]): return "attribute-value", "%s@%s: %r became %r" % (p, k, ax[k][:200], ay[k][:200])
        if sx != sy: return "text", "%s: text %r became %r" % (p, sx[:300], sy[:300])
        if len(cx) != len(cy): return "children", "%s: %d children became %d" % (p, len(cx), len(cy))
        st.extend((u, v, p) for u, v in zip(cx, cy))
    return None

def count_el(el): return sum(1 for _ in el.iter())

DOCS_SPECIAL = [
    b"<a/>", b"<a></a>", b"<a> </a>", b"<a>\n\n</a>", b"<a b=''/>", b"<a b=' '/>", b"<a>x</a>", b"<a><b/></a>", b"<a><b/><b/></a>", b"<a>x<b/>y<c/>z</a>",
    b"<a><![CDATA[]]></a>", b"<a><![CDATA[<&>]]></a>", b"<a>x<!---->y</a>", b"<!--x--><a/><!--y-->", b"<a>&#x1F600;</a>", b"<a>&#10;&#13;&#9;x</a>", b"<a b='&#10;&#13;&#9;x'/>",
    b"<a>" + b"x" * 100000 + b"</a>", b"<a>" + b"12345678" * 5000 + b"</a>", b"<a b='" + b"y" * 70000 + b"'/>",
    b"<a>" * 200 + b"x" + b"</a>" * 200, b"<r>" + b"<i>1</i>" * 5000 + b"</r>", b"<r>" + b"".join(b"<i n='%d'>%d</i>" % (i, i * 7919) for i in range(3000)) + b"</r>",
    b"<r>" + b"".join(b"<n%d/>" % i for i in range(2000)) + b"</r>", b"<r " + b" ".join(b"a%d='%d'" % (i, i) for i in range(500)) + b"/>",
    b"<x:a xmlns:x='urn:x' x:b='1' b='2'/>", b"<a xmlns='urn:d'><b xmlns=''><c xmlns='urn:e'/></b></a>", b"<a xml:lang='en' xml:space='preserve'> x </a>",
    "<\u00e9l\u00e9ment \u00e0='\u20ac'>\u4e2d\u6587</\u00e9l\u00e9ment>".encode(), "<?xml version='1.0' encoding='iso-8859-2'?><a>\u0159\u017e</a>".encode("iso-8859-2"), "<?xml version='1.0' encoding='UTF-16'?><a b='\u0159'>\u20ac</a>".encode("utf-16"), b"\xef\xbb\xbf<a>bom</a>",
    b"<?xml version='1.0' standalone='yes'?><!DOCTYPE a [<!ELEMENT a ANY><!ATTLIST a d CDATA #IMPLIED i ID #IMPLIED><!ENTITY e 'v'>]><a>&e;&e;</a>", b"<a><?pi x?>t<?pi y?></a>",
]

def large_docs(group, n):
    """documents around the sizes where buffers, halves of integers and tables end"""
    B = [256, 512, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20]
    for i in range(n):
        r = rng(group, i); k = i % 8; b = r.choice(B)
        ln = max(1, b + r.randint(-20, 20)); alpha = r.choice(["x", "0123456789abcdef", "ab<&\"'", "\u0159\u20ac\U0001f600a", "0123456789", "a b"])
        t = "".join(r.choice(alpha) for _ in range(min(ln, 4096))); t = (t * (ln // len(t) + 1))[:ln]
        if not t.strip(): t = "z" * ln
        e = t.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")
        if k == 0: d = "<r><v>%s</v><w>1</w></r>" % e
        elif k == 1: d = "<r><v a=\"1\" b=\"%s\" c=\"2\">3</v><w>4</w></r>" % e
        elif k == 2: d = "<r>" + "".join("<i n='%d'>%s</i>" % (j % 977, j) for j in range(min(ln, 70000))) + "</r>"
        elif k == 3: d = "<r>" + "<i/>" * min(ln * 2, 140000) + "<z>9</z></r>"
        elif k == 4: d = "<r>" + "".join("<n%d v%d='%d'/>" % (j, j // 3, j) for j in range(min(ln, 9000))) + "</r>"
        elif k == 5: d = "<r>" + "".join("<g><v>%s</v></g>" % (e[:1] == "&" and "x" * (j % 7) or t[0] * (j % 7)).replace("<", "x").replace("&", "y") for j in range(min(ln, 20000))) + "</r>"
        elif k == 6: d = "<r>" + "".join("<v>%s</v>" % ("x" * r.randint(1, b // 50 + 2)) for j in range(100)) + "</r>"
        else: d = "<r><v%s>1</v%s><w a%s='2'/></r>" % (("e" * min(ln, 4000),) * 2 + ("a" * min(ln, 4000),))
        yield d.encode()

def length_docs(group, top):
    """every length of text, attribute, name, list of elements and of attributes, with one character which has to be escaped or has more bytes at any place"""
    for L in range(top):
        r = rng(group, L); t = "".join(r.choice("abcxyz-_.129") for _ in range(L)); at = r.randrange(L + 1)
        c = r.choice(["&lt;", "&amp;", "&gt;", "&quot;", "'", "&#10;", "&#9;", "\u0159", "\u20ac", "\U0001f600", " ", "]]&gt;", "&#13;", "&#x7f;", "%", "\\"])
        v = t[:at] + c + t[at:]; w = "q" + v + "q"; d = "1" * L; k = "n" + t
        o = ["<r><v>%s</v><v a='%s' b='%s'/>" % (w, w.replace("'", "&apos;"), d), "<%s %s='%s'>%s</%s>" % (k, k, L, d, k), "<l>%s</l>" % "".join("<i>%d</i>" % q for q in range(L)), "<m %s/>" % " ".join("a%d='%s'" % (q, r.choice(["x", "1", "", t[:q % 9]])) for q in range(L)), "<x>%s</x>" % ("<y/>" * L), "<u>%s<h%s>%s</h></u>" % ("<h>1</h>" * L, r.choice(["", " o%d='1'" % L]), r.choice(["x", "1.25", "-1", "99999999999", "<k%d/>" % L])), "<w>%s<s g='%s'/></w>" % ("<s g='5'/>" * L, r.choice(["x", "1.5", "7000000000", "-"])), "<c><![CDATA[%s]]></c><e>%s</e>" % ("z" + t + "&<" + t + "z", (t[:at] or "k") + "<f/>" + (t[at:] or "k"))]
        r.shuffle(o); s = "".join(o); s = "<r>" + s.replace("<r>", "") + "</r>"
        yield s.encode()

def special_values():
    """one document with every fixed shape as text and as attribute, alone and with neighbours that shift alignment"""
    out = []
    for i, s in enumerate(docgen.SHAPES_FIXED):
        s = "".join(c for c in s if docgen.okchar(c))
        e = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;"); q = e.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
        out.append(("<r><v a=\"%s\">%s</v><p a=\"x\" b=\"%s\"/><q>x</q><v>%s</v></r>" % (q, e, q, e)).encode())
    return out

def xml_docs(group, n, **kw):
    for i in range(n):
        r = rng(group, i)
        size = r.choice([3, 10, 40, 40, 150, 400]) if n < 100000 else 40
        yield docgen.xml(r, docgen.rtree(r, maxnodes=size, maxdepth=r.choice([3, 8, 20]), **kw))

def run_roundtrip(res, group, docs, command, exe, w, cli=None):
    jobs = []; files = []
    for i, d in enumerate(docs):
        f = w.p(group, "%d.xml" % i); put(f, d); files.append((f, d)); jobs.append(("%d" % i, command, f, f[:-4] + ".xb"))
    out = batch(exe, jobs, w)
    out2 = batch(exe, [("%d" % i, "export", f[:-4] + ".xb", f[:-4] + ".out.xml") for i, (f, d) in enumerate(files) if out.get(str(i), (1,))[0] == 0], w)
    g = res.group(group); seen = set()
    for i, (f, d) in enumerate(files):
        g["cases"] += 1
        o = out.get(str(i))
        if o is None: res.broken.append("%s: job %d gave no result" % (group, i)); continue
        try: src = ET.fromstring(d)
        except ET.ParseError: res.broken.append("generated document %d is not well-formed" % i); continue
        if o[0] != 0: g["fails"] += 1; fail(res, "%s/%s" % (command, bad_end(o) or "refused"), "conversion of a well-formed document ended with %s %s: %s" % (o[0], o[1], o[3]), d); continue
        o = out2.get(str(i))
        if o is None or o[0] != 0: g["fails"] += 1; fail(res, "export/%s" % (bad_end(o) or "refused"), "export of converted file ended with %s" % (o,), d); continue
        x = get(f[:-4] + ".out.xml")
        try: dst = ET.fromstring(x)
        except ET.ParseError as e: g["fails"] += 1; fail(res, "export/not-well-formed", "%s in %r" % (e, x[:800]), d); continue
        df = xml_diff(src, dst)
        g["evals"] += count_el(src)
        if df: g["fails"] += 1; fail(res, "meaning/" + df[0], df[1], d); continue
        h = hashlib.md5(d).digest()
        if h not in seen: seen.add(h); g["distinct"] += 1
        if i < 2: res.sample("%s: %r" % (group, d[:200]))
        for e in (".xml", ".xb", ".out.xml"):
            try: os.unlink(f[:-4] + e)
            except OSError: pass

def run_cli(exe, args, cwd, env=None, timeout=60, preexec=None, stdout=subprocess.PIPE):
    try:
        p = subprocess.run([exe] + args, cwd=cwd, env=env or build.san_env(), stdout=stdout, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=preexec)
        return p.returncode, p.stdout or b"", p.stderr
    except subprocess.TimeoutExpired: return 124, b"", b"timeout"

def c01(res):
    res.rule = "Generated well-formed documents (every serialisation freedom, look-alike value shapes, repetition and near-repetition) are converted and exported by the real code under ASan+UBSan; the source and the exported XML are parsed by expat and compared element by element. Evaluation = one element compared; distinct = distinct source document."
    res.assumptions = ["expat (Python's ElementTree) decides what an XML document says", "leading and trailing white space of text, and blank text between elements, is ignorable; text parts of mixed content are compared concatenated", "the same instant written as ...T...Z or with a space is the same value", "documents nested deeper than libxml2's default limit of 256 are outside of scope"]
    b = build.build("asan", ["xbtool", "tool:2xb", "tool:xb2xml"]); exe = b["xbtool"]
    with Work() as w:
        run_roundtrip(res, "special-documents", DOCS_SPECIAL + special_values(), "conv", exe, w)
        run_roundtrip(res, "special-packed", DOCS_SPECIAL + special_values(), "pack", exe, w)
        n = quick(1600, 30000)
        for part in range(0, n, 4000): run_roundtrip(res, "random-converted", list(xml_docs("c01a%d" % part, min(4000, n - part))), "conv", exe, w)
        n = quick(1600, 30000)
        for part in range(0, n, 4000): run_roundtrip(res, "random-packed", list(xml_docs("c01b%d" % part, min(4000, n - part))), "pack", exe, w)
        for c in ("conv", "pack"): run_roundtrip(res, "lengths-" + c, list(length_docs("c01len" + c, quick(200, 1000))), c, exe, w)
        for part in range(0, quick(80, 800), 80):
            run_roundtrip(res, "large", list(large_docs("c01l%d" % part, 80)), "conv", exe, w)
            run_roundtrip(res, "large-packed", list(large_docs("c01m%d" % part, 80)), "pack", exe, w)
        # the tools themselves
        g = res.group("tools"); docs = DOCS_SPECIAL + list(xml_docs("c01c", quick(60, 600)))
        def one(a):
            i, d = a; cwd = w.p("cli%d" % i, "x"); cwd = os.path.dirname(cwd); put(os.path.join(cwd, "d.xml"), d)
            r1 = run_cli(b["tool:2xb"], ["d.xml"], cwd); r2 = run_cli(b["tool:xb2xml"], ["d.xb"], cwd) if r1[0] == 0 else None
            shutil.rmtree(cwd, ignore_errors=True); return i, d, r1, r2
        with cf.ThreadPoolExecutor(8) as ex:
            for i, d, r1, r2 in ex.map(one, list(enumerate(docs))):
                g["cases"] += 1
                if r1[0] != 0: g["fails"] += 1; fail(res, "2xb/exit-%d" % r1[0], r1[2][-600:].decode("utf-8", "replace"), d); continue
                if r2[0] != 0: g["fails"] += 1; fail(res, "xb2xml/exit-%d" % r2[0], r2[2][-600:].decode("utf-8", "replace"), d); continue
                try: df = xml_diff(ET.fromstring(d), ET.fromstring(r2[1]))
                except ET.ParseError as e: df = ("not-well-formed", str(e))
                g["evals"] += 1; g["distinct"] += 1
                if df: g["fails"] += 1; fail(res, "tools/" + df[0], df[1], d)

# ------------------------------------------------------------------ C02
def same_value(t, raw, s, strip=False):
    """does a stored value say what the source text says?"""
    if t in (xbparse.FLOAT, xbparse.DOUBLE):
        v, = struct.unpack("<f" if t == xbparse.FLOAT else "<d", raw)
        try: f = float(s)
        except ValueError: return False
        return v == f if t == xbparse.DOUBLE else raw == struct.pack("<f", f)
    x = xbparse.text(t, raw).decode("utf-8", "replace")
    if strip: x = x.strip(WS)
    return norm(x) == norm(s)

def compare_xml_tree(D, el):
    st = [(el, D.root)]; n = 0
    while st:
        x, y = st.pop(); n += 1
        tag, at, text, ch = meaning(x)
        name = xbparse.tag(D, y).decode("utf-8", "replace")
        if tag.rsplit("}", 1)[-1] != name: return n, "element %r stored as %r" % (tag, name)
        if not same_value(y.type, y.raw, text, True): return n, "%s: text %r stored as %r (type %d)" % (tag, text[:200], xbparse.text(y.type, y.raw) or y.raw[:20], y.type)
        stored = {}
        for pn, pt, raw in y.attrs:
            k = xbparse.param(D, pn).decode("utf-8", "replace")
            if k in stored: return n, "%s: attribute %r stored twice" % (tag, k)
            stored[k] = (pt, raw)
        plain = {k: v for k, v in at.items() if not k.startswith("{")}
        for k, v in plain.items():
            if k not in stored: return n, "%s: attribute %r is missing in %r" % (tag, k, sorted(stored))
            if not same_value(*stored[k], v): return n, "%s@%s: %r stored as %r" % (tag, k, v[:200], stored[k])
        extra = [k for k in stored if k not in plain and k != "xmlns" and not k.startswith("xmlns:") and ":" not in k]
        if extra: return n, "%s: extra attributes %r" % (tag, extra)
        if len(ch) != len(y.children): return n, "%s: %d children stored as %d" % (tag, len(ch), len(y.children))
        st.extend(zip(ch, y.children))
    return n, None

def read_spec(path):
    """reference tree written by xbtool gen: nested [name, type, raw, attrs, children]"""
    root = None; stack = []
    with open(path) as f:
        for line in f:
            a = line.rstrip("\n").split(" ")
            if a[0] == "E":
                node = [bytes.fromhex(a[2]), int(a[3]), bytes.fromhex(a[4]), [], []]; d = int(a[1])
                del stack[d:]
                if stack: stack[-1][4].append(node)
                else: root = node
                stack.append(node)
            else: stack[-1][3].append((bytes.fromhex(a[1]), int(a[2]), bytes.fromhex(a[3])))
    return root

def compare_spec(D, spec):
    st = [(spec, D.root)]; n = 0
    while st:
        x, y = st.pop(); n += 1
        if x[0] != xbparse.tag(D, y): return n, "element %r stored as %r" % (x[0], xbparse.tag(D, y))
        if (x[1], x[2]) != (y.type, y.raw): return n, "%r: value (%d, %s) stored as (%d, %s)" % (x[0], x[1], x[2][:40].hex(), y.type, y.raw[:40].hex())
        at = [(xbparse.param(D, p), t, r) for p, t, r in y.attrs]
        if at != x[3]:
            return n, "%r: attributes %r stored as %r" % (x[0], x[3], at)
        if len(x[4]) != len(y.children): return n, "%r: %d children stored as %d" % (x[0], len(x[4]), len(y.children))
        st.extend(zip(x[4], y.children))
    return n, None

def names_used(D, spec=None):
    t, p = set(), set(); seen = set(); st = [D.root]
    while st:
        n = st.pop()
        if n.off in seen: continue
        seen.add(n.off); t.add(n.name); p.update(a[0] for a in n.attrs); st.extend(n.children)
    return t, p

def c02(res):
    res.rule = "Every file written (XML and JSON conversion, typed trees through the source-plugin interface; creator and packer) is read by an independent strict parser of the format (lib/xbparse.py): alignment, bounds, nesting, tiling, sorted duplicate-free name tables, types; the tree recovered by it must equal the source. Evaluation = one stored element validated; distinct = distinct file content."
    res.assumptions = ["the layout is the one in README.md and bin_xml.h; packed files may refer to earlier complete elements"]
    exe = build.build("asan", ["xbtool"])["xbtool"]
    with Work() as w:
        # XML
        for command in ("conv", "pack"):
            docs = DOCS_SPECIAL + list(length_docs("c02len" + command, quick(150, 800))) + list(xml_docs("c02" + command, quick(800, 15000)))
            files = []
            for i, d in enumerate(docs): f = w.p(command, "%d.xml" % i); put(f, d); files.append(f)
            out = batch(exe, [("%d" % i, command, f, f[:-4] + ".xb") for i, f in enumerate(files)], w)
            g = res.group("xml-" + command); seen = set()
            for i, (f, d) in enumerate(zip(files, docs)):
                g["cases"] += 1; o = out.get(str(i))
                if o is None: res.broken.append("no result of job"); continue
                if o[0] != 0: g["fails"] += 1; fail(res, "%s/%s" % (command, bad_end(o) or "refused"), str(o), d); continue
                x = get(f[:-4] + ".xb")
                D = xbparse.parse(x, command == "pack")
                if D.errors: g["fails"] += 1; fail(res, "format/" + re.sub(r"[\d@:]+", "#", D.errors[0])[:60], "; ".join(D.errors), d); continue
                n, e = compare_xml_tree(D, ET.fromstring(d)); g["evals"] += D.items
                if e: g["fails"] += 1; fail(res, "content", e, d); continue
                base = os.path.basename(f).encode()
                if not D.src_name.endswith(base): g["fails"] += 1; fail(res, "header/name", "source name %r" % D.src_name, d); continue
                if D.modified != 1500000000: g["fails"] += 1; fail(res, "header/modified", "modified %d instead of 1500000000" % D.modified, d); continue
                h = hashlib.md5(x).digest()
                if h not in seen: seen.add(h); g["distinct"] += 1
        # JSON
        g = res.group("json"); docs = []; seen = set()
        for i in range(quick(400, 6000)): r = rng("c02j", i); v = docgen.jgen(r, nodes=r.choice([5, 40, 200])); docs.append((docgen.json_text(r, v), v))
        files = []
        for i, (d, v) in enumerate(docs): f = w.p("json", "%d.json" % i); put(f, d); files.append(f)
        out = batch(exe, [("%d" % i, "pack" if i % 3 == 0 else "conv", f, f[:-5] + ".xb") for i, f in enumerate(files)], w)
        for i, (f, (d, v)) in enumerate(zip(files, docs)):
            g["cases"] += 1; o = out.get(str(i))
            if o is None: res.broken.append("no result of job"); continue
            if o[0] != 0:
                if b"\x00" in d or "\\u0000" in d.decode("utf-8", "replace"): continue
                g["fails"] += 1; fail(res, "json/%s" % (bad_end(o) or "refused"), str(o), d); continue
            x = get(f[:-5] + ".xb"); D = xbparse.parse(x, i % 3 == 0); g["evals"] += D.items
            if D.errors: g["fails"] += 1; fail(res, "format/" + re.sub(r"[\d@:]+", "#", D.errors[0])[:60], "; ".join(D.errors), d); continue
            e = json_diff(D, docgen.json_expected(v))
            if e: g["fails"] += 1; fail(res, "json/content", e, d); continue
            h = hashlib.md5(x).digest()
            if h not in seen: seen.add(h); g["distinct"] += 1
        # typed trees
        types = {}
        for command in ("creator", "packer"):
            g = res.group("typed-" + command); n = quick(1200, 20000); seen = set(); jobs = []
            for i in range(n):
                r = rng("c02g" + command, i); f = w.p("gen-" + command, "%d.xb" % i)
                jobs.append(("%d" % i, "gen", r.getrandbits(48), f, f[:-3] + ".spec", command, r.choice([1, 3, 10, 40, 40, 120, 500]), r.randrange(2)))
            out = batch(exe, jobs, w)
            for i, j in enumerate(jobs):
                g["cases"] += 1; o = out.get(str(i))
                if o is None: res.broken.append("no result of job"); continue
                if o[0] != 0: g["fails"] += 1; fail(res, "gen-%s/%s" % (command, bad_end(o) or "refused"), str(o), None, desc=" ".join(map(str, j))); continue
                x = get(j[3]); D = xbparse.parse(x, command == "packer"); g["evals"] += D.items
                if D.errors: g["fails"] += 1; fail(res, "format/" + re.sub(r"[\d@:]+", "#", D.errors[0])[:60], "; ".join(D.errors), None, desc=" ".join(map(str, j))); continue
                k, e = compare_spec(D, read_spec(j[4]))
                if e: g["fails"] += 1; fail(res, "typed/content", e, None, desc=" ".join(map(str, j))); continue
                for t, c in D.types.items(): types[t] = types.get(t, 0) + c
                h = hashlib.md5(x).digest()
                if h not in seen: seen.add(h); g["distinct"] += 1
                for q in (j[3], j[4], j[3] + ".src"):
                    try: os.unlink(q)
                    except OSError: pass
        res.extra["stored_values_by_type"] = {str(k): v for k, v in sorted(types.items())}

# ------------------------------------------------------------------ C03
def subtree_keys(D):
    """offset -> structural key of the element (name, value, attributes, children)"""
    keys = {}; has8 = {}
    order = []; st = [(D.root, False)]
    while st:
        n, done = st.pop()
        if done: order.append(n); continue
        if n.off in keys: continue
        keys[n.off] = None; st.append((n, True)); st.extend((c, False) for c in n.children)
    for n in order:
        keys[n.off] = hashlib.sha1(repr((n.name, n.type, n.raw, n.attrs, [keys[c.off] for c in n.children])).encode()).digest()
        has8[n.off] = n.type in xbparse.IS8 or any(t in xbparse.IS8 for _, t, _ in n.attrs) or any(has8[c.off] for c in n.children)
    return keys, has8

def sharing_error(D):
    """content stored more often than the format needs: once, or once per alignment of 8 byte values"""
    keys, has8 = subtree_keys(D); where = {}
    for off, k in keys.items(): where.setdefault(k, []).append(off)
    for k, offs in where.items():
        if len(offs) > (2 if has8[offs[0]] else 1): return len(keys), "identical element stored %d times at %s" % (len(offs), sorted(offs)[:6])
    return len(keys), None

def near_docs(r):
    """documents made of copies and near copies of one subtree"""
    base = docgen.rtree(r, maxnodes=r.choice([1, 2, 5, 12]), repeats=0, mixed=0)
    def cp(n):
        m = docgen.N(n.name); m.attrs = list(n.attrs); m.text = n.text; m.ch = [cp(c) for c in n.ch]; return m
    def all_(n): return [n] + [x for c in n.ch for x in all_(c)]
    root = docgen.N("root"); exact = 0; near = 0
    for _ in range(r.choice([2, 3, 8, 30])):
        c = cp(base)
        if r.random() < .5:
            q = r.choice(all_(c)); near += 1; z = r.randrange(6)
            if z == 0: q.text = (q.text or "") + r.choice("ab01") if not q.ch else q.text
            elif z == 1 and q.attrs: i = r.randrange(len(q.attrs)); q.attrs[i] = (q.attrs[i][0], q.attrs[i][1] + r.choice("ab01"))
            elif z == 2 and q.attrs: q.attrs = q.attrs[1:]
            elif z == 3 and q.ch: q.ch = q.ch[:-1] if r.random() < .5 else q.ch[::-1]
            elif z == 4 and len(q.attrs) > 1: q.attrs = q.attrs[::-1]
            else: q.name = q.name + r.choice("xy")
        else: exact += 1
        p = root
        if r.random() < .3: p = docgen.N("w" * r.randrange(1, 9)); root.ch.append(p)     # other depth and alignment
        p.ch.append(c)
        if r.random() < .3: f = docgen.N("f"); f.text = "x" * r.randrange(9); root.ch.append(f)
    return root

def far_docs(group, n):
    """big elements of equal size which differ in one place, anywhere in them, at any depth"""
    for i in range(n):
        r = rng(group, i); size = r.choice([50, 1000, 4096, 5000, 32768, 65536, 70000, 140000, 300000]) + r.randint(0, 40); kind = r.randrange(4)
        def big(mark):
            pos = where; body = bytearray(b"abcdefgh" * (size // 8 + 1))[:size]
            if mark is not None: body[pos] = mark
            if kind == 0: return b"<t>%s</t>" % body
            if kind == 1: return b"<t a=\"%s\" n=\"1\">x</t>" % body
            if kind == 2: return b"<t>" + b"".join(b"<p>%s</p>" % bytes(body[k:k + 97]) for k in range(0, size, 97)) + b"</t>"
            return b"<t a=\"%s\"><u><v>%s</v></u></t>" % (bytes(body[:size // 2]), bytes(body[size // 2:]) or b"q")
        where = r.choice([0, size - 1, size - r.randint(1, min(size, 70)), r.randrange(size)])
        parts = [big(None), big(90)] + ([big(89)] if r.random() < .5 else []) + ([big(None)] if r.random() < .5 else [])
        r.shuffle(parts); yield b"<r>" + b"".join(parts) + b"</r>"

def c03(res):
    res.rule = "Documents made of exact and near copies are packed by the real packer under ASan; the independent parser recovers the graph of stored elements. Oracles: the recovered tree equals the source (nothing different was merged), no structurally equal element is stored more than once (twice only where 8-byte values need the other alignment), and n further copies cost only their references. Evaluation = one stored element keyed; distinct = distinct packed file."
    res.assumptions = ["two stored copies are allowed where an element contains 8-byte values and its occurrences have different alignment modulo 8"]
    exe = build.build("asan", ["xbtool"])["xbtool"]
    with Work() as w:
        # near copies, small ones and big ones
        n = quick(1500, 25000); shared = 0
        for part in list(range(0, n, 4000)) + [-1]:
            files = []
            if part < 0:
                g = res.group("big-near-copies")
                for i, d in enumerate(far_docs("c03f", quick(160, 1600))): f = w.p("far", "%d.xml" % i); put(f, d); files.append((f, d))
            else:
              g = res.group("near-copies")
              for i in range(min(4000, n - part)):
                r = rng("c03n", part + i); d = docgen.xml(r, near_docs(r), ns=False); f = w.p("near", "%d.xml" % i); put(f, d); files.append((f, d))
            out = batch(exe, [("%d" % i, "pack", f, f[:-4] + ".xb") for i, (f, d) in enumerate(files)], w)
            for i, (f, d) in enumerate(files):
                g["cases"] += 1; o = out.get(str(i))
                if o is None: res.broken.append("no result of job"); continue
                if o[0] != 0: g["fails"] += 1; fail(res, "pack/%s" % (bad_end(o) or "refused"), str(o), d); continue
                D = xbparse.parse(get(f[:-4] + ".xb"))
                if D.errors: g["fails"] += 1; fail(res, "format", "; ".join(D.errors), d); continue
                _, e = compare_xml_tree(D, ET.fromstring(d))
                if e: g["fails"] += 1; fail(res, "merged-different", e, d); continue
                k, e = sharing_error(D); g["evals"] += k; shared += D.shared
                if e: g["fails"] += 1; fail(res, "not-shared", e, d); continue
                g["distinct"] += 1
        # typed trees: same text image in different types, 8 byte values at both alignments
        n = quick(1500, 25000); g = res.group("typed-repeats"); jobs = []
        for i in range(n):
            r = rng("c03g", i); f = w.p("gen", "%d.xb" % i)
            jobs.append(("%d" % i, "gen", r.getrandbits(48), f, f[:-3] + ".spec", "packer", r.choice([5, 20, 60, 200]), 1))
        out = batch(exe, jobs, w)
        for i, j in enumerate(jobs):
            g["cases"] += 1; o = out.get(str(i)); ds = " ".join(map(str, j))
            if o is None: res.broken.append("no result of job"); continue
            if o[0] != 0: g["fails"] += 1; fail(res, "gen/%s" % (bad_end(o) or "refused"), str(o), None, desc=ds); continue
            D = xbparse.parse(get(j[3]))
            if D.errors: g["fails"] += 1; fail(res, "format", "; ".join(D.errors), None, desc=ds); continue
            _, e = compare_spec(D, read_spec(j[4]))
            if e: g["fails"] += 1; fail(res, "merged-different", e, None, desc=ds); continue
            k, e = sharing_error(D); g["evals"] += k; shared += D.shared
            if e: g["fails"] += 1; fail(res, "not-shared", e, None, desc=ds); continue
            g["distinct"] += 1
            for q in (j[3], j[4], j[3] + ".src"):
                try: os.unlink(q)
                except OSError: pass
        # growth with the number of copies
        g = res.group("growth"); rows = []
        for i in range(quick(120, 1200)):
            r = rng("c03s", i); base = docgen.rtree(r, maxnodes=r.choice([1, 5, 30]), repeats=0, mixed=0); sizes = []
            for k in (1, 40, 41, r.choice([100, 1000])):
                root = docgen.N("root"); root.ch = [base] * k
                f = w.p("grow", "%d-%d.xml" % (i, k)); put(f, plain_xml(root)); rows.append((i, k, f))
        out = batch(exe, [("%d" % n, "pack", f, f[:-4] + ".xb") for n, (i, k, f) in enumerate(rows)], w)
        by = {}
        for n, (i, k, f) in enumerate(rows):
            o = out.get(str(n))
            if o is None or o[0] != 0: g["fails"] += 1; fail(res, "grow/%s" % (bad_end(o) or "refused"), str(o), get(f)); continue
            by.setdefault(i, []).append((k, os.path.getsize(f[:-4] + ".xb"), f))
        for i, l in by.items():
            g["cases"] += 1; l.sort(); one = l[0][1]       # one file with a single copy bounds the size of a copy
            for (k0, s0, f0), (k1, s1, f1) in zip(l, l[1:]):
                g["evals"] += 1
                # beside references, only one more copy for the other alignment may come
                if s1 - s0 > 4 * (k1 - k0) + 16 + one: g["fails"] += 1; fail(res, "growth", "%d copies take %d bytes, %d copies %d" % (k0, s0, k1, s1), get(f0)); break
            else: g["distinct"] += 1
        res.extra["shared_references_seen"] = shared
        if shared == 0: res.broken.append("no sharing was observed")

def plain_xml(n):
    def esc(s): return "".join(c for c in s if docgen.okchar(c)).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;").replace("\r", "&#13;").replace("\n", "&#10;").replace("\t", "&#9;")
    return ("<%s%s>%s%s</%s>" % (n.name, "".join(' %s="%s"' % (a, esc(v)) for a, v in {a: v for a, v in n.attrs}.items()), esc(n.text) if n.text and not n.ch else "", "".join(plain_xml(c).decode() for c in n.ch), n.name)).encode()

# ------------------------------------------------------------------ C05
def json_diff(D, exp):
    st = [(exp, D.root, "")]
    while st:
        (name, text, ch), y, path = st.pop()
        got = xbparse.tag(D, y).decode("utf-8", "replace")
        p = path + "/" + got
        if (name if name is not None else "NULL") != got: return "%s: name %r stored as %r" % (p, name, got)
        if y.attrs: return "%s: has attributes" % p
        if not same_value(y.type, y.raw, text or ""): return "%s: value %r stored as %r (type %d)" % (p, text[:200] if text else text, xbparse.text(y.type, y.raw) or y.raw[:20], y.type)
        if len(ch) != len(y.children): return "%s: %d members stored as %d" % (p, len(ch), len(y.children))
        st.extend((c, k, p) for c, k in zip(ch, y.children))
    return None

JSON_SPECIAL = [
    '{"a":1}', '{"a":""}', '{"":1}', '{"a":[]}', '{"a":{}}', '{"a":[[]]}', '{"a":[{}]}', '{"a":[1,"1",1.0,true,false,null]}', '{"items":[1,2,3]}', '{"userList":[{"n":1},{"n":2}]}', '{"data":[[1,2],[3]]}',
    '{"a":"\\"\\\\\\/\\b\\f\\n\\r\\t\\u00e9\\ud83d\\ude00"}', '{"a\\"b":1,"a\\\\b":2,"\\u00e9":3}', '{"a":1,"a":2,"a":3}', '{"s":[1]}', '{"List":[1]}', '{"xList":[1]}', '{"a":"' + "x" * 50000 + '"}',
    '{"a":' + "[" * 300 + "1" + "]" * 300 + "}", '{"a":' * 300 + "1" + "}" * 300, '{"r":[' + ",".join(str(i) for i in range(5000)) + "]}", "{" + ",".join('"k%d":%d' % (i, i) for i in range(3000)) + "}",
    '{"a":"\\ud800"}', '{"a":"\\udc00x"}', '{"a":"\\ud800\\ud800"}', ' \n{ "a" : 1 }\n', '{"a":-0,"b":1E400,"c":1e-400,"d":123456789012345678901234567890}', '{"null":null,"true":true}', '{"a":" lead","b":"trail ","c":"  "}', '{"a":"2017-01-15","b":"1.2.3.4","c":"007","d":"+1"}',
]
def from_json(t):
    def pairs(p): return docgen.Obj(p)
    def fix(v):
        if isinstance(v, docgen.Obj): return docgen.Obj((fixs(k), fix(x)) for k, x in v)
        if isinstance(v, list): return [fix(x) for x in v]
        return fixs(v) if isinstance(v, str) and not isinstance(v, docgen.Raw) else v
    def fixs(s): return s.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "replace") if not any("\ud800" <= c <= "\udfff" for c in s) else "".join("\ufffd" if "\ud800" <= c <= "\udfff" else c for c in s)
    return fix(json.loads(t, object_pairs_hook=pairs, parse_int=docgen.Raw, parse_float=docgen.Raw))

def c05(res):
    res.rule = "Generated valid JSON objects (every serialisation freedom: white space, escapes, surrogates) are converted under ASan+UBSan; the stored tree, read by the independent parser, is compared with Python's json module and the naming rule (member name; array item = array's name without final s, without List, or with Item; __ARRAY_ITEM_NAME__ where the array has no name). Evaluation = one stored element; distinct = distinct document."
    res.assumptions = ["U+0000 cannot be stored and is refused; single surrogates become U+FFFD; nesting is limited to 1000", "a JSON null is stored as the text null, booleans as true and false"]
    exe = build.build("asan", ["xbtool"])["xbtool"]
    with Work() as w:
        def go(group, docs, command):
            g = res.group(group); files = []; seen = set()
            for i, (d, v) in enumerate(docs): f = w.p(group, "%d.json" % i); put(f, d); files.append(f)
            out = batch(exe, [("%d" % i, command, f, f[:-5] + ".xb") for i, f in enumerate(files)], w)
            ex = batch(exe, [("%d" % i, "dump", f[:-5] + ".xb", f[:-5] + ".dump") for i, f in enumerate(files) if out.get(str(i), (1,))[0] == 0], w)
            for i, (f, (d, v)) in enumerate(zip(files, docs)):
                g["cases"] += 1; o = out.get(str(i))
                if o is None: res.broken.append("no result of job"); continue
                if b"\\u0000" in d.replace(b"\\\\", b""):
                    if o[0] == 0: g["fails"] += 1; fail(res, "u0000", "accepted", d)
                    continue
                if o[0] != 0: g["fails"] += 1; fail(res, "json/%s" % (bad_end(o) or "refused"), str(o), d); continue
                D = xbparse.parse(get(f[:-5] + ".xb"))
                if D.errors: g["fails"] += 1; fail(res, "format", "; ".join(D.errors), d); continue
                g["evals"] += D.items
                want = docgen.json_expected(v); e = json_diff(D, want)
                if e: g["fails"] += 1; fail(res, "content", e, d); continue
                # and the library's own reader says the same
                o = ex.get(str(i))
                if o is None or o[0] != 0: g["fails"] += 1; fail(res, "dump/%s" % (bad_end(o) or "refused"), str(o), d); continue
                e = dump_diff(get(f[:-5] + ".dump"), want)
                if e: g["fails"] += 1; fail(res, "reader", e, d); continue
                h = hashlib.md5(d).digest()
                if h not in seen: seen.add(h); g["distinct"] += 1
                if i < 2: res.sample("%s: %r" % (group, d[:200]))
                for e in (".xb", ".dump"): os.unlink(f[:-5] + e)
        for c in ("conv", "pack"): go("special-" + c, [(s.encode("utf-8"), from_json(s)) for s in JSON_SPECIAL], c)
        # every length of names, values and of lists, every place of an escape
        for c in ("conv", "pack"):
            docs = []
            for L in list(range(0, quick(280, 1100))) + [4095, 4096, 4097, 20000, 40000]:
                r = rng("c05len" + c, L); k = "".join(r.choice("abcxyzList_") for _ in range(L)); e = r.choice(["\n", "\"", "\\", "\u0159", "\U0001f600", "\t", "\b", "\f", "\r", "/"])
                at = r.randrange(L + 1); v = k[:at] + e + k[at:]; n = min(L, 1100)
                sfx = ["s", "List", "Lis", "ist", "list", "ss", "Lists", "sList", "Item", ""]; r.shuffle(sfx)
                o = docgen.Obj([(k + x, r.choice([[], [1], ["a", "b"], [{"q": 1}], [[1], 2]])) for x in sfx[:4]] + [(v, v), ("n" * L + e, [v, v[::-1]]), ("c", ["i"] * n), ("d", [1] * n + [r.choice(["x", 1.5, {"u%d" % L: 2}, ["y"], 1 << 40])]), ("e", docgen.Obj([("p", 7)] * n + [("p", r.choice(["x", 2.25, -1]))])), ("o", docgen.Obj(("m%d" % q, q) for q in range(n))), ("t", "7" * L)])
                def j(x):
                    if isinstance(x, docgen.Obj): return "{" + ",".join(json.dumps(a, ensure_ascii=r.random() < .5) + ":" + j(b) for a, b in x) + "}"
                    if isinstance(x, list): return "[" + ",".join(j(b) for b in x) + "]"
                    if isinstance(x, dict): return j(docgen.Obj(x.items()))
                    return json.dumps(x, ensure_ascii=r.random() < .5)
                t = j(o); docs.append((t.encode("utf-8"), from_json(t)))
            go("lengths-" + c, docs, c)
        for c in ("conv", "pack"):
            n = quick(1000, 16000)
            for part in range(0, n, 4000):
                docs = []
                for i in range(min(4000, n - part)):
                    r = rng("c05" + c, part + i); v = docgen.jgen(r, r.choice([2, 4, 6, 12]), r.choice([5, 40, 40, 200])); t = docgen.json_text(r, v)
                    docs.append((t, from_json(t.decode())))
                go("random-" + c, docs, c)

def dump_diff(data, exp):
    flat = []; st = [(exp, 0)]
    while st:
        (n, t, ch), d = st.pop(); flat.append((d, n, t)); st.extend((c, d + 1) for c in reversed(ch))
    lines = [l.split(b" ") for l in data.split(b"\n") if l]
    if len(lines) != len(flat): return "reader shows %d elements instead of %d" % (len(lines), len(flat))
    for l, (d, n, t) in zip(lines, flat):
        def un(x): return "" if x == b"-" else bytes.fromhex(x.decode()).decode("utf-8", "replace")
        if l[0] != b"E" or int(l[1]) != d: return "depth of %r" % n
        if un(l[2]) != (n if n is not None else "NULL"): return "name %r read as %r" % (n, un(l[2]))
        if norm(un(l[4])) != norm(t or ""): return "%r: value %r read as %r" % (n, t, un(l[4]))
    return None

# ------------------------------------------------------------------ C06
def hostile_xml():
    yield b""; yield b" "; yield b"\0"; yield b"<"; yield b"<a"; yield b"<a>"; yield b"</a>"; yield b"<a/><b/>"; yield b"text"; yield b"<a>" * 60000; yield b"<a b='" + b"x" * 60000
    yield b"<a>" * 5000 + b"</a>" * 5000; yield b"<a " + b" ".join(b"b%d=''" % i for i in range(40000)) + b"/>"; yield b"<r>" + b"".join(b"<n%d/>" % i for i in range(33000)) + b"</r>"
    yield b"<!DOCTYPE a [" + b"".join(b"<!ENTITY e%d \"%s\">" % (i, (b"&e%d;" % (i - 1)) * 10 if i else b"x" * 10) for i in range(10)) + b"]><a>&e9;</a>"
    yield b"<!DOCTYPE a [<!ENTITY a \"&b;\"><!ENTITY b \"&a;\">]><a>&a;</a>"; yield b"<!DOCTYPE a [<!ENTITY a \"<b>&a;</b>\">]><a>&a;</a>"; yield b"<!DOCTYPE a SYSTEM \"missing.dtd\"><a>&x;</a>"; yield b"<!DOCTYPE a [<!ENTITY x SYSTEM \"/nonexistent/x\">]><a>&x;</a>"; yield b"<a>&undefined;</a>"
    yield b"<et-tecera/>"; yield b"<a><et-tecera/></a>"; yield b"<a><et-tecera>1</et-tecera><b/></a>"; yield b"<a " + b"x" * 40000 + b"='1'/>"; yield b"<" + b"x" * 50000 + b"/>"; yield b"<a xmlns:" + b"p" * 600 + b"='u'/>"; yield b"<" + b"p" * 600 + b":a xmlns:" + b"p" * 600 + b"='u'/>"
    yield b"<?xml version='1.0' encoding='utf-16'?><a/>"; yield b"<?xml version='9.9'?><a/>"; yield b"\xff\xfe<\0a\0/\0>"; yield b"<a>\xff</a>"; yield b"<a>\xed\xa0\x80</a>"; yield b"<a>&#0;</a>"; yield b"<a>\x01</a>"; yield b"<a b='1' b='2'/>"
def hostile_json():
    for t in (b"", b" ", b"\0", b"{", b"}", b"[", b"]", b"{}", b"[]", b"null", b"1", b"\"\"", b"\"", b"{\"a\"", b"{\"a\":", b"{\"a\":}", b"{\"a\":1", b"{\"a\":1,}", b"{a:1}", b"{\"a\" 1}", b"{\"a\":1 \"b\":2}", b"{1:2}", b"{[]:1}", b"{\"a\":1}}", b"{\"a\":1}{\"b\":2}", b"{\"a\":[1}", b"{\"a\":{1]}", b"{\"a\":\"\\u12\"}", b"{\"a\":\"\\x\"}", b"{\"a\":\"\n\"}", b"{\"a\":tru}", b"{\"a\":\\}", b"{\"a\":\"\\u0000\"}", b"{:1}", b"{,}", b"[,]", b"{\"a\":,}", b"{\"a\":1:2}", b"\xef\xbb\xbf{\"a\":1}", b"\xff\xfe{\0", b"{\"a\":\xff}", b"{\"\xff\":\"\xff\"}", b"{\"a\":'x'}", b"// c\n{}", b"{\"a\":1", b"{\"a\":[", b"[[1],[2]]", b"[{}]", b"{\"a\"::1}", b"{\"a\":\"b\" \"c\"}", b"{\"a\":{\"b\"}}", b"{\"a\":{\"b\":}}", b"{\"a\":[\"b\":1]}"): yield t
    yield b"[" * 50000; yield b"{\"a\":" * 10000; yield b"{\"a\":" * 10000 + b"1" + b"}" * 10000; yield b"{\"a\":" + b"[" * 1100 + b"]" * 1100 + b"}"; yield b"{\"a\":" + b"[" * 900 + b"]" * 900 + b"}"; yield b"{\"a\":\"" + b"\\" * 50001; yield b"{" + b",".join(b"\"k%d\":1" % i for i in range(33000)) + b"}"; yield b"{\"a\":" + b"9" * 50000 + b"}"; yield b"{\"" + b"k" * 50000 + b"\":[1,2]}"; yield b"{" + b"\"a\":{" * 2000

def c06(res):
    res.rule = "Hostile texts and mutations of valid documents (byte flips, deletions, duplications, token splices, truncations) are converted by creator and packer under ASan+UBSan with a time limit. Oracle: no sanitizer report, signal, assertion or hang; success implies a file the independent parser finds valid and the exporter can read; failure implies no result file. Evaluation = one conversion judged; distinct = distinct source text."
    res.assumptions = ["an external DTD or entity is never fetched from the network"]
    b = build.build("asan", ["xbtool", "tool:2xb"]); exe = b["xbtool"]; outcomes = {}
    with Work() as w:
        def go(group, docs, ext):
            g = res.group(group); files = []; seen = set()
            for i, d in enumerate(docs): f = w.p(group, "%d%s" % (i, ext)); put(f, d); files.append(f)
            dst = [f[:-len(ext)] + ".xb" for f in files]
            jobs = [("%d" % i, "pack" if i & 1 else "conv", f, x) for i, (f, x) in enumerate(zip(files, dst))]
            out = batch(exe, jobs, w)
            ex = batch(exe, [("%d" % i, "export", x, x + ".out") for i, x in enumerate(dst) if out.get(str(i), (1,))[0] == 0], w)
            for i, d in enumerate(docs):
                g["cases"] += 1; g["evals"] += 1; o = out.get(str(i))
                if o is None: res.broken.append("no result of job"); continue
                h = hashlib.md5(d).digest()
                if h not in seen: seen.add(h); g["distinct"] += 1
                be = bad_end(o); k = "%s/%s" % (ext, be or ("accepted" if o[0] == 0 else "refused")); outcomes[k] = outcomes.get(k, 0) + 1
                if be or o[0] not in (0, 1): g["fails"] += 1; fail(res, "%s/%s" % (jobs[i][1], be or "exit-%d" % o[0]), o[3], d); continue
                x = get(dst[i])
                if o[0] == 1:
                    if x is not None: g["fails"] += 1; fail(res, "refused-but-file", "conversion failed but left %d bytes in %s" % (len(x), os.path.basename(dst[i])), d)
                    continue
                if x is None: g["fails"] += 1; fail(res, "accepted-without-file", "success was reported but there is no file", d); continue
                D = xbparse.parse(x)
                if D.errors and "et-tecera" not in repr(d): g["fails"] += 1; fail(res, "accepted-invalid", "; ".join(D.errors), d); continue
                o = ex.get(str(i))
                if o is None or o[0] != 0: g["fails"] += 1; fail(res, "accepted-unreadable", str(o), d); continue
                for q in (files[i], dst[i], dst[i] + ".out"):
                    try: os.unlink(q)
                    except OSError: pass
            left = [x for x in os.listdir(os.path.dirname(w.p(group, "x"))) if not x.endswith((ext, ".xb", ".out"))]
            if left: fail(res, "stray-files", repr(left[:10]))
        hx = list(hostile_xml()); hj = list(hostile_json())
        go("hostile-xml", hx + hx[::-1], ".xml"); go("hostile-json", hj + hj[::-1], ".json")
        for part in range(quick(1, 12)):
            docs = []
            for i in range(2500):
                r = rng("c06x", part * 100000 + i); d = docgen.xml(r, docgen.rtree(r, maxnodes=r.choice([2, 6, 25]))); docs.append(docgen.damage(r, d, docgen.XTOK))
            go("mutated-xml", docs, ".xml"); docs = []
            for i in range(3500):
                r = rng("c06j", part * 100000 + i); d = docgen.json_text(r, docgen.jgen(r, 4, r.choice([3, 10, 30]))); docs.append(docgen.damage(r, d, docgen.JTOK))
            go("mutated-json", docs, ".json")
        # every truncation of a few documents
        docs = []
        for i in range(quick(2, 10)): r = rng("c06t", i); d = docgen.xml(r, docgen.rtree(r, maxnodes=8))[:600]; docs += [d[:k] for k in range(len(d))]
        go("truncated-xml", docs, ".xml"); docs = []
        for i in range(quick(3, 15)): r = rng("c06u", i); d = docgen.json_text(r, docgen.jgen(r, 4, 8))[:500]; docs += [d[:k] for k in range(len(d))]
        go("truncated-json", docs, ".json")
        # sources whose result would not fit into the format (offsets have 31 bits)
        g = res.group("too-large"); jobs = []
        for mode in ("creator", "packer", "xbw"):
            for kind in ("bin", "attr", "text"):
                for n, size in ((3, 1000), (33, 1 << 26)) + (() if kind == "text" else ((64, 1 << 26), (65, 1 << 26), (130, 1 << 26))): jobs.append(("%d" % len(jobs), "giant", w.p("giant", "%d.%s" % (len(jobs), "xbw" if mode == "xbw" else "xb")), mode, kind, n, size))
        out = batch(exe, jobs, w)
        for j in jobs:
            g["cases"] += 1; g["evals"] += 1; g["distinct"] += 1; o = out.get(j[0]); ds = " ".join(map(str, j[3:])); be = o and bad_end(o); ok = j[5] == 3
            if o is None: res.broken.append("no result of job"); continue
            if be or o[0] not in (0, 1): g["fails"] += 1; fail(res, "too-large/%s" % (be or "exit-%d" % o[0]), "%s: %s" % (ds, o[3]), None, desc=ds); continue
            if (o[0] == 0) != ok: g["fails"] += 1; fail(res, "too-large/%s" % ("refused" if ok else "accepted"), "%s: %s" % (ds, o[3]), None, desc=ds); continue
            if not ok and os.path.exists(j[2]): g["fails"] += 1; fail(res, "too-large/refused-but-file", ds, None, desc=ds)
        # the tool: status and files left behind
        g = res.group("tool"); docs = [(".xml", d) for d in hx] + [(".json", d) for d in hj] + [(".txt", b"x"), ("", b"<a/>"), (".XML", b"<a/>")]
        def one(a):
            i, (ext, d) = a; cwd = os.path.dirname(w.p("cli%d" % i, "x")); put(os.path.join(cwd, "d" + ext), d)
            r = run_cli(b["tool:2xb"], ["d" + ext], cwd); ls = sorted(os.listdir(cwd)); x = get(os.path.join(cwd, "d.xb")); src = get(os.path.join(cwd, "d" + ext)); shutil.rmtree(cwd, ignore_errors=True); return ext, d, r, ls, x, src
        with cf.ThreadPoolExecutor(8) as ex:
            for ext, d, r, ls, x, src in ex.map(one, list(enumerate(docs))):
                g["cases"] += 1; g["evals"] += 1; g["distinct"] += 1
                if r[0] not in (0, 1): g["fails"] += 1; fail(res, "2xb/exit-%d" % r[0], r[2][-800:].decode("utf-8", "replace"), d); continue
                if src != d: g["fails"] += 1; fail(res, "2xb/source-changed", "", d)
                if r[0] == 1 and ls != ["d" + ext]: g["fails"] += 1; fail(res, "2xb/refused-but-file", repr(ls), d)
                if r[0] == 0 and (x is None or (xbparse.parse(x).errors and b"et-tecera" not in d)): g["fails"] += 1; fail(res, "2xb/accepted-invalid", repr(ls), d)
        res.extra["outcomes"] = outcomes

# ------------------------------------------------------------------ C04
def c04(res):
    res.rule = "The same source is converted in separate processes with differently filled heaps (MALLOC_PERTURB_), stacks (environment size, extra arguments) and addresses; the result files must be byte-identical. A sample also runs under valgrind memcheck, which reports any uninitialised byte handed to write(2) and any decision on uninitialised data. Evaluation = one pair of files compared byte by byte; distinct = distinct source."
    res.assumptions = ["same source = same path, contents and modification time"]
    b = build.build("plain", ["xbtool"]); exe = b["xbtool"]
    envs = [("zero", {}), ("perturb-55", {"MALLOC_PERTURB_": "85"}), ("perturb-aa", {"MALLOC_PERTURB_": "170", "PAD": "x" * 3333}), ("perturb-ff", {"MALLOC_PERTURB_": "255", "PAD": "y" * 20011, "MALLOC_TOP_PAD_": "100000"}), ("mmap", {"MALLOC_MMAP_THRESHOLD_": "64", "MALLOC_PERTURB_": "1"})]
    with Work() as w:
        srcs = []
        for i, d in enumerate(DOCS_SPECIAL + special_values()[::7] + list(xml_docs("c04", quick(250, 4000)))): srcs.append(("xml", w.p("s", "%d.xml" % i), d))
        for i in range(quick(150, 2000)): r = rng("c04j", i); srcs.append(("json", w.p("s", "j%d.json" % i), docgen.json_text(r, docgen.jgen(r))))
        for k, f, d in srcs: put(f, d)
        gens = [(rng("c04g", i).getrandbits(48), rng("c04g", i).choice([3, 40, 300])) for i in range(quick(200, 3000))]
        for command in ("conv", "pack"):
            g = res.group("documents-" + command); results = []
            for name, e in envs:
                od = os.path.dirname(w.p("o-%s" % name, "x"))
                # one process per file: every conversion starts in a fresh process image
                jobs = [("%d" % i, command, f, os.path.join(od, "%d.xb" % i)) for i, (k, f, d) in enumerate(srcs)]
                out = batch(exe, jobs, w, env=dict(os.environ, TZ="UTC", **e)); results.append((name, od, out))
            for i, (k, f, d) in enumerate(srcs):
                g["cases"] += 1; first = None; ok = True
                for name, od, out in results:
                    o = out.get(str(i)); x = get(os.path.join(od, "%d.xb" % i))
                    if o is None: res.broken.append("no result"); continue
                    cur = (o[0], x)
                    if first is None: first = cur; continue
                    g["evals"] += 1
                    if cur != first:
                        ok = False; p = next((q for q in range(min(len(x or b""), len(first[1] or b""))) if x[q] != first[1][q]), -1)
                        g["fails"] += 1; fail(res, "differs/" + command, "run %s differs from run %s: exit %s/%s, sizes %s/%s, first differing byte %d" % (name, results[0][0], o[0], first[0], len(x or b""), len(first[1] or b""), p), d); break
                if ok and first and first[1]: g["distinct"] += 1
            for name, od, out in results: shutil.rmtree(od)
        # the source, its name and its time stay; everything else around the conversion changes
        MT = 1234567890123456789; few = srcs[::max(1, len(srcs) // quick(40, 400))]
        for k, f, d in few: os.utime(f, ns=(MT, MT))
        od = os.path.dirname(w.p("oc", "x")); os.makedirs(w.p("cwd", "x")[:-2], exist_ok=True)
        def again(command, name, env=None, prepare=None, wrap=None):
            for q in os.listdir(od): os.unlink(os.path.join(od, q))
            dst = [os.path.join(od, "%d.xb" % i) for i in range(len(few))]
            for i, (k, f, d) in enumerate(few):
                if prepare: prepare(i, f, d, dst[i])
            out = batch(exe, [("%d" % i, command, f, dst[i]) for i, (k, f, d) in enumerate(few)], w, env=dict(os.environ, **(env or {"TZ": "UTC"})))
            return [(out.get("%d" % i, (None,))[0], get(dst[i])) for i in range(len(few))]
        def rewritten(i, f, d, t): os.unlink(f); put(f, d); os.utime(f, ns=(MT, MT))
        def touched(i, f, d, t): os.chmod(f, 0o640); os.utime(f, ns=(MT + 86400 * 10**9 * (i + 1), MT))
        def moved(i, f, d, t): os.utime(f, ns=(MT, MT)); os.rename(f, f + ".bak"); os.link(f + ".bak", f); os.unlink(f + ".bak")
        def longer(i, f, d, t): put(t, os.urandom(len(d) * 3 + 5000))
        def old(i, f, d, t): put(t, b"x"); os.utime(t, (1, 1)); os.chmod(t, 0o600)
        for command in ("conv", "pack"):
            g = res.group("circumstances-" + command); first = again(command, "first"); time.sleep(1.1)
            for name, env, prepare in (("written again", None, rewritten), ("other access time and rights", None, touched), ("moved away and back", None, moved), ("over a longer result", None, longer), ("over an old result", None, old),
                                       ("zone Prague", {"TZ": "Europe/Prague"}, None), ("zone -11:30", {"TZ": "XXX11:30"}, None), ("locale", {"TZ": "UTC", "LC_ALL": "C.UTF-8", "LANG": "cs_CZ.UTF-8"}, None)):
                cur = again(command, name, env, prepare)
                for i, (k, f, d) in enumerate(few):
                    g["cases"] += 1; g["evals"] += 1
                    if cur[i] != first[i]:
                        x, y = cur[i][1] or b"", first[i][1] or b""; p = next((q for q in range(min(len(x), len(y))) if x[q] != y[q]), -1)
                        g["fails"] += 1; fail(res, "circumstances/%s/%s" % (command, name), "exit %s/%s, sizes %d/%d, first differing byte %d" % (cur[i][0], first[i][0], len(x), len(y), p), d)
                    elif cur[i][1]: g["distinct"] += 1
        # all ways of asking for the conversion give the same file
        g = res.group("ways"); first = again("conv", "first")
        for name in ("convall", "convs"):
            cur = again(name, name)
            for i, (k, f, d) in enumerate(few):
                g["cases"] += 1; g["evals"] += 1
                if cur[i] != first[i]: g["fails"] += 1; fail(res, "ways/" + name, "exit %s/%s, sizes %d/%d" % (cur[i][0], first[i][0], len(cur[i][1] or b""), len(first[i][1] or b"")), d)
                elif cur[i][1]: g["distinct"] += 1
        for command in ("creator", "packer"):
            g = res.group("typed-" + command); results = []
            for name, e in envs:
                od = os.path.dirname(w.p("o", "x"))      # the name of the source is stored, so it must be the same
                jobs = [("%d" % i, "gen", s, os.path.join(od, "%d.xb" % i), os.path.join(od, "%d.spec" % i), command, n, i & 1) for i, (s, n) in enumerate(gens)]
                for i in range(len(gens)): put(os.path.join(od, "%d.xb.src" % i), b"x")
                out = batch(exe, jobs, w, env=dict(os.environ, TZ="UTC", **e))
                results.append({i: (out.get(str(i), (None,))[0], mask_time(get(os.path.join(od, "%d.xb" % i)))) for i in range(len(gens))}); shutil.rmtree(od)
            for i in range(len(gens)):
                g["cases"] += 1; g["evals"] += len(results) - 1
                if any(r[i] != results[0][i] for r in results[1:]): g["fails"] += 1; fail(res, "differs/" + command, "typed tree differs between runs", None, desc=repr(gens[i]))
                elif results[0][i][1]: g["distinct"] += 1
        # memcheck
        g = res.group("memcheck"); vg = shutil.which("valgrind")
        if vg:
            def one(a):
                i, job = a; jf = w.p("vg", "%d.jobs" % i); 
                with open(jf, "w") as fh:
                    for k, j in enumerate(job): fh.write("\t".join([str(k)] + [str(x) for x in j]) + "\n")
                p = subprocess.run([vg, "-q", "--trace-children=no", "--child-silent-after-fork=no", "--track-origins=yes", "--error-exitcode=0", "--log-file=%s.%%p.log" % jf, exe, jf, jf + ".out"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
                logs = "".join(open(os.path.join(os.path.dirname(jf), x), errors="replace").read() for x in os.listdir(os.path.dirname(jf)) if x.startswith("%d.jobs." % i) and x.endswith(".log"))
                done = open(jf + ".out").read().count("\n"); return job, logs, done
            jobs = []
            for i, (k, f, d) in enumerate(srcs[::max(1, len(srcs) // quick(64, 600))]):
                if len(d) > 30000: continue
                jobs.append(("pack" if i & 1 else "conv", f, w.p("vgo", "%d.xb" % i)))
            for i, (s, n) in enumerate(gens[:quick(32, 300)]): jobs.append(("gen", s, w.p("vgo", "g%d.xb" % i), w.p("vgo", "g%d.spec" % i), "packer" if i & 1 else "creator", min(n, 60), 1))
            chunks = [jobs[i::8] for i in range(8)]
            with cf.ThreadPoolExecutor(8) as ex:
                for job, logs, done in ex.map(one, list(enumerate(chunks))):
                    g["cases"] += done; g["evals"] += done; g["distinct"] += done
                    m = re.search(r"==\d+== (Syscall param write|Conditional jump|Use of uninit|Invalid (read|write)|Syscall param).*?(?=\n==\d+== \n|\Z)", logs, re.S)
                    if m: g["fails"] += 1; fail(res, "memcheck", m.group(0)[:1500], None, desc=repr(job[:3]))
        else: res.assumptions.append("valgrind is missing, memcheck part not run"); del res.groups["memcheck"]

def mask_time(x):
    if x is None: return None
    # modification time of the source of a typed tree is the time of its creation
    D = xbparse.parse(x)
    if D.root is None: return x
    o = 12 + 3 * 8 + 4
    return x[:o] + b"\0\0\0\0" + x[o + 4:]

# ------------------------------------------------------------------ C07
def c07(res):
    res.rule = "Every converter (2xb, the packer, a reader opening a source, source to writable document, writable document to .xb by creator and packer) runs with an interposed libc that fails or shortens exactly one file operation, once for every operation and every error kind, also over an older valid result, and under every file size limit (a real disk-full). Oracle: success implies the result file holds the whole content of the undisturbed run. Evaluation = one faulted run judged; distinct = distinct (source, operation, kind)."
    res.assumptions = ["operations are those the process makes on the source and result files through libc; faults inside the kernel after a successful close are outside"]
    b = build.build("plain", ["tool:2xb", "tool:2xbw", "xbtool"]); so = build.build_preload("fault")
    KINDS = [("EIO", "5"), ("ENOSPC", "28"), ("short", "short"), ("EINTR", "4"), ("EACCES", "13")]
    with Work() as w:
        srcs = [("small.xml", b"<r><a x=\"1\">text</a><b>2</b></r>"), ("small.json", b'{"a":1,"b":[1,2],"c":{"d":"x"}}'),
                ("big.xml", b"<r>" + b"".join(b"<i n='%d'>value %d %s</i>" % (i, i * 31, b"x" * (i % 50)) for i in range(quick(600, 3000))) + b"</r>"),
                ("big.json", b'{"items":[' + b",".join(b'{"n":%d,"v":"%s"}' % (i, b"y" * (i % 40)) for i in range(quick(400, 2000))) + b"]}")]
        for i in range(quick(2, 12)): r = rng("c07", i); srcs.append(("r%d.xml" % i, docgen.xml(r, docgen.rtree(r, maxnodes=60)))); srcs.append(("r%d.json" % i, docgen.json_text(r, docgen.jgen(r))))
        ops = {}
        def run(tool, name, data, n=-1, kind="5", limit=None, cwd=None, stale=None):
            own = os.path.dirname(w.p("run%s" % os.urandom(6).hex(), "x")) if cwd is None else cwd
            f = os.path.join(own, name); put(f, data); log = os.path.join(w.d, "log" + os.path.basename(own))
            env = dict(os.environ, TZ="UTC", LD_PRELOAD=so, FAULT_DIR=own + "/", FAULT_LOG=log, FAULT_N=str(n), FAULT_KIND=kind)
            dst = f.rsplit(".", 1)[0] + (".xbw" if tool in ("2xbw", "convw") else ".xb")
            if stale is not None: put(dst, stale)
            if tool in ("2xb", "2xbw"): cmd = [b["tool:" + tool], f]
            else:
                jf = os.path.join(w.d, "j" + os.path.basename(own)); open(jf, "w").write("1\t%s\t%s\t%s\n" % ({"pack": "pack", "convw": "convw", "auto": "auto", "xbw": "conv", "xbwpack": "pack"}[tool], f, dst if tool != "auto" else os.path.join(w.d, "a" + os.path.basename(own)))); cmd = [b["xbtool"], jf, jf + ".o"]
            def pre():
                if limit is not None: signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try: p = subprocess.run(cmd, env=env, cwd=own, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60, preexec_fn=pre if limit is not None else None); rc = p.returncode
            except subprocess.TimeoutExpired: rc = 124
            if tool not in ("2xb", "2xbw") and limit is None:
                o = (get(jf + ".o") or b"").split(); rc = int(o[1]) if len(o) > 1 else 99
                if rc == -1: rc = -int(o[2])
            x = get(dst); src = get(f); l = (get(log) or b"").decode("utf-8", "replace").split("\n")
            ls = sorted(os.listdir(own)); shutil.rmtree(own, ignore_errors=True)
            try: os.unlink(log)
            except OSError: pass
            return rc, x, src, l, ls
        def norm_time(x): return None if x is None or len(x) < 44 else x[:40] + b"\0\0\0\0" + x[44:]
        def norm_name(x, own=None): return x
        # writable documents as sources
        wsrc = []
        jobs = [("w%d" % i, "bwgen", rng("c07w", i).randrange(1 << 40), w.p("c07w", "w%d.xbw" % i), w.p("c07w", "w%d.spec" % i), 30 if i else 200, 0) for i in range(quick(2, 6))]
        batch(b["xbtool"], jobs, w, env=dict(os.environ))
        for j in jobs:
            d = get(j[3])
            if d is None: res.broken.append("no writable document was made")
            else: wsrc.append((os.path.basename(j[3]), d))
        old = {}
        def text_of_xbw(x):
            if x is None: return None
            q = os.path.dirname(w.p("tx%s" % os.urandom(6).hex(), "x")); f = os.path.join(q, "t.xbw"); put(f, x); rs = batch(b["xbtool"], [("1", "bwexport", f, os.path.join(q, "t.out"))], w, env=dict(os.environ)).get("1"); t = get(os.path.join(q, "t.out")); shutil.rmtree(q, ignore_errors=True)
            return t if rs and rs[0] == 0 and t else ("broken", str(rs)[:200])
        for tool in ("2xb", "pack", "auto", "2xbw", "convw", "xbw", "xbwpack"):
            for name, data in (wsrc if tool.startswith("xbw") else srcs):
                # the directory is part of the stored name, so its length must not change: same-length random names
                g = res.group("faults-" + tool); ext = "xbw" if tool in ("2xbw", "convw") else "xb"
                rc0, x0, s0, l0, ls0 = run(tool, name, data)
                if rc0 != 0 or x0 is None: res.broken.append("undisturbed %s of %s ended with %s" % (tool, name, rc0)); continue
                if ext == "xb":
                    D0 = xbparse.parse(x0)
                    if D0.errors: fail(res, "undisturbed", "; ".join(D0.errors), data); continue
                total = len([1 for y in l0 if y and y[0].isdigit()])
                if total < 5: res.broken.append("only %d file operations seen in %s" % (total, tool))
                def canon(x):
                    """file without the stored directory and time; content of a writable document"""
                    if x is None: return None
                    if ext == "xbw": return text_of_xbw(x)
                    D = xbparse.parse(x)
                    if D.errors or D.root is None: return ("broken", len(x), D.errors[:1])
                    i = x.find(D.src_name); return norm_time(x[:i] + b"#" * len(D.src_name) + x[i + len(D.src_name):])
                want = canon(x0); before = old.get(ext); old[ext] = x0
                if isinstance(want, tuple): fail(res, "undisturbed", str(want), data); continue
                jobs = [(n, kn, kv, None if before is None or (n + len(kn)) % 2 else before) for n in range(1, total + 6) for kn, kv in KINDS]
                with cf.ThreadPoolExecutor(8) as ex:
                    for (n, kn, kv, st), (rc, x, s, l, ls) in zip(jobs, ex.map(lambda a: run(tool, name, data, a[0], a[2], stale=a[3]), jobs)):
                        hit = [y for y in l if y.endswith((" FAULT", " SHORT"))]
                        if not hit:
                            if st is not None and n > total and (rc != 0 or canon(x) != want): g["fails"] += 1; fail(res, "over-old-result/" + tool, "%s of %s over an older result ends with %d" % (tool, name, rc), data)
                            continue
                        g["cases"] += 1; g["evals"] += 1; g["distinct"] += 1
                        op = hit[0].split()[1]; k = "%s/%s" % (op, kn); ops[k] = ops.get(k, 0) + 1
                        where = hit[0].split()[2].rsplit(".", 1)[-1]
                        if rc == 0 and canon(x) != want: g["fails"] += 1; fail(res, "success-with-wrong-file/%s/%s/%s" % (op, where, kn), "%s of %s with %s at %s%s: exit 0 but the file is %s" % (tool, name, kn, hit[0], " over an older result" if st is not None else "", "missing" if x is None else "%d bytes instead of %d, %s" % (len(x), len(x0), xbparse.parse(x).errors[:2] if ext == "xb" else "")), data)
                        if rc == 124: g["fails"] += 1; fail(res, "hang/%s/%s" % (op, kn), hit[0], data)
                        if rc < 0: g["fails"] += 1; fail(res, "crash/%s/%s/%s" % (op, where, kn), "%s of %s with %s at %s ends by signal %d" % (tool, name, kn, hit[0], -rc), data)
                        if s != data: g["fails"] += 1; fail(res, "source-changed/%s/%s" % (op, kn), hit[0], data)
        # disk full: every limit of file size (a sample of them for bigger results)
        g = res.group("size-limit")
        for name, data in srcs:
            rc0, x0, s0, l0, ls0 = run("2xb", name, data)
            if x0 is None: continue
            lim = sorted(set(list(range(0, min(len(x0) + 3, quick(90, 600)))) + [rng("c07l" + name, i).randrange(len(x0) + 64) for i in range(quick(30, 300))] + [len(x0) - 1, len(x0), len(x0) + 1]))
            def lr(k):
                own = os.path.dirname(w.p("run%s" % os.urandom(6).hex(), "x")); f = os.path.join(own, name); put(f, data)
                def pre(): signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
                rc, o, e = run_cli(b["tool:2xb"], [f], own, env=dict(os.environ, TZ="UTC"), preexec=pre, stdout=subprocess.DEVNULL); x = get(f.rsplit(".", 1)[0] + ".xb"); shutil.rmtree(own, ignore_errors=True); return rc, x
            with cf.ThreadPoolExecutor(8) as ex:
                for k, (rc, x) in zip(lim, ex.map(lr, lim)):
                    g["cases"] += 1; g["evals"] += 1; g["distinct"] += 1
                    if rc == 0 and (x is None or len(x) != len(x0) or xbparse.parse(x).errors): g["fails"] += 1; fail(res, "size-limit", "file size limited to %d of %d bytes: exit 0 with %s bytes" % (k, len(x0), None if x is None else len(x)), data)
                    if rc < 0: g["fails"] += 1; fail(res, "size-limit-crash", "file size limited to %d of %d bytes: ends by signal %d" % (k, len(x0), -rc), data)
                    if k >= len(x0) and rc != 0: g["fails"] += 1; fail(res, "size-limit-refused", "limit %d is enough for %d bytes but exit is %d" % (k, len(x0), rc), data)
        # missing things
        g = res.group("missing"); cwd = os.path.dirname(w.p("missing", "x"))
        os.makedirs(os.path.join(cwd, "dir.xb")); put(os.path.join(cwd, "dir.xml"), b"<a/>"); put(os.path.join(cwd, "empty.xml"), b""); os.makedirs(os.path.join(cwd, "d.xml")); os.symlink("nowhere/x", os.path.join(cwd, "l.xb")); put(os.path.join(cwd, "l.xml"), b"<a/>"); os.symlink("/dev/full", os.path.join(cwd, "full.xb")); put(os.path.join(cwd, "full.xml"), b"<a/>"); put(os.path.join(cwd, "full.json"), b'{"a":1}')
        for a in (["nothing.xml"], ["nothing.json"], ["nothing"], ["dir.xml"], ["empty.xml"], ["d.xml"], ["l.xml"], ["no/such/dir/a.xml"], ["full.xml"], ["full.json"]):
            rc, o, e = run_cli(b["tool:2xb"], a, cwd, env=dict(os.environ)); g["cases"] += 1; g["evals"] += 1; g["distinct"] += 1
            if rc == 0: g["fails"] += 1; fail(res, "missing", "2xb %s ended with success" % a)
            if rc < 0: g["fails"] += 1; fail(res, "missing-crash", "2xb %s ends by signal %d" % (a, -rc))
        res.extra["faulted_operations"] = dict(sorted(ops.items()))
        if len(ops) < 8: res.broken.append("too few kinds of faulted operations: %s" % sorted(ops))

# ------------------------------------------------------------------ U04
def snapshot(d):
    r = {}
    for base, dirs, files in os.walk(os.fsencode(d)):
        for f in files + dirs:
            q = os.path.join(base, f); st = os.lstat(q); r[os.path.relpath(q, os.fsencode(d))] = (st.st_mode, st.st_mtime_ns if os.path.isfile(q) else 0, get(q) if os.path.isfile(q) else None)
    return r

def u04(res):
    b = build.build("asan", ["utils", "tool:2xb", "xbtool"])
    res.rule = "Names: each result of the name helper is compared with an independent rule. Files: 2xb, and a reader opening a document, run on sources with every path shape in a directory full of bystanders; afterwards the directory must be the old one plus exactly the named result. Distinct = distinct input or path."
    runner.run_harness(res, b["utils"], res.prop, timeout=600)
    XML = b"<r a=\"1\"><b>text</b></r>"; JSON = b'{"a":1,"b":"text"}'
    stems = ["a", "a.b", "a.b.c", "..a", "...", "a..", "a b", " a", "p\u0159\u00edli\u0161", "a" * 200, "-a", "a%s%n", "xml", "a.xml", "a.json", "a.xb", "b\\c", "a'\"", "a\nb"]
    dirs = ["", "d", "d.x", "d.xml", "d.xml/e.json", "d/../d", "./d", ".", "..d/.e", "d.xb", "a b", "deep/" * 30 + "x", "\u0159"]
    exts = {".xml": XML, ".xsd": XML, ".wsdl": XML, ".json": JSON}
    other = ["", ".", ".txt", ".XML", ".xm", ".xmlx", ".xb", ".xbw", ".jso", ".jsonx", ".html"]
    cases = []
    for e in list(exts) + other:
        for k, (s, d) in enumerate([(s, d) for s in stems for d in dirs]):
            if e in ("", ".") and (s in ("...", "..a") or s.endswith("..")): continue
            if runner.TIER != "thorough" and k >= 12 and rng("u04" + e, k).random() > (0.16 if e in exts else 0.08): continue
            for absolute in (0, 1):
                if absolute and k % 3: continue
                cases.append((s, d, e, absolute))
    with Work() as w:
        def one(a):
            k, (s, d, e, absolute) = a; top = os.path.join(w.d, "t%d" % k); os.mkdir(top)
            rel = os.path.join(d, s + e); full = os.path.join(top, rel); os.makedirs(os.path.dirname(full), exist_ok=True)
            data = exts.get(e, XML); real = exts.get(os.path.splitext("x" + s.lstrip(".") + e)[1]) if e == "" else exts.get(e)
            base = os.path.basename(full); dot = base.rfind(".")
            if e in ("", "."): ext = base[dot:] if dot >= 0 else ""; real = exts.get(ext); data = real or XML
            put(full, data); here = os.path.dirname(full)
            for n in ("other.xml", "other.xb", base + ".xb", s + ".xbw", base[:1] + ".xb", "xb", ".xb" if s != "" else "q"):
                q = os.path.join(here, n)
                if len(n) < 250 and not os.path.exists(q): put(q, b"bystander")
            want = os.path.join(here, base[:dot] + ".xb") if dot >= 0 else full + ".xb"
            stale = rng("u04s", k).random()
            if want != full:
                if stale < 0.3 and os.path.exists(want): os.unlink(want)
                elif stale < 0.6: put(want, b"Z" * 70000)
            before = snapshot(top); arg = full if absolute else rel; out = []
            for kind in ("2xb", "auto"):
                if kind == "2xb": rc, o, er = run_cli(b["tool:2xb"], [arg], top)
                else:
                    if "\n" in arg or "\t" in arg: continue
                    jf = os.path.join(w.d, "j%d" % k); of = os.path.join(w.d, "x%d.xml" % k); open(jf, "w").write("1\tauto\t%s\t%s\n" % (arg, of)); run_cli(b["xbtool"], [jf, jf + ".o"], top)
                    q = (get(jf + ".o") or b"").decode("utf-8", "replace").split(" ", 4); rc = int(q[1]) if len(q) > 1 else 99; er = q[4].encode() if len(q) > 4 else b""
                    if rc == -1: rc = -int(q[2])
                after = snapshot(top); wk = os.path.relpath(os.fsencode(want), os.fsencode(top)); bad = None
                norm_b = {x: y for x, y in before.items() if x != wk}; norm_a = {x: y for x, y in after.items() if x != wk}
                if norm_a != norm_b: bad = ("others", "changed besides the result: %s" % sorted(x for x in set(norm_a) | set(norm_b) if norm_a.get(x) != norm_b.get(x))[:3])
                elif rc == 77: bad = ("sanitizer", er[-600:].decode("utf-8", "replace"))
                elif rc == 5: bad = ("caller", "the reader changed the caller's file name")
                elif rc not in (0, 1): bad = ("exit", "%s ended with %d" % (kind, rc))
                elif real is not None and rc != 0: bad = ("refused", "%s refused the document: %s" % (kind, er[-300:]))
                elif real is not None:
                    D = xbparse.parse(after[wk][2]) if wk in after and after[wk][2] else None
                    if D is None or D.errors: bad = ("result", "result is %s" % ("missing" if D is None else D.errors[:2]))
                    elif kind == "auto":
                        x = get(of)
                        try: ok = x is not None and ET.fromstring(x) is not None
                        except ET.ParseError as ex: ok = False
                        if not ok: bad = ("auto-export", "opening the document does not give its content")
                elif kind == "2xb" and rc == 0: bad = ("accepted", "unrecognised file was reported as converted")
                elif kind == "2xb" and before.get(wk) != after.get(wk): bad = ("result-of-refused", "a refused source still changed or created %s" % wk)
                out.append((kind, bad))
                if real is not None:
                    before = snapshot(top)
            shutil.rmtree(top, ignore_errors=True); return arg, out
        with cf.ThreadPoolExecutor(8) as ex:
            for (k, c), (arg, out) in zip(enumerate(cases), ex.map(one, enumerate(cases))):
                g = res.group("paths"); g["cases"] += 1; g["distinct"] += 1; g["evals"] += len(out)
                for kind, bad in out:
                    if bad: g["fails"] += 1; fail(res, "path/%s/%s" % (kind, bad[0]), "%r: %s" % (arg[-120:], bad[1]), arg)
                if k < 3: res.sample("path %r: %s" % (arg, out))
        # refused calls and several arguments
        top = os.path.join(w.d, "m"); os.mkdir(top); put(os.path.join(top, "a.xml"), XML); put(os.path.join(top, "b.xml"), b"<bad"); put(os.path.join(top, "b.xb"), b"old")
        g = res.group("calls")
        for args, want in ((["b.xml"], 1), ([], 0), (["nope.xml"], 1), (["a.xml"], 0)):
            before = snapshot(top); rc, o, er = run_cli(b["tool:2xb"], args, top); after = snapshot(top); g["cases"] += 1; g["evals"] += 1; g["distinct"] += 1
            ch = sorted(x for x in set(after) | set(before) if after.get(x) != before.get(x) and x not in (b"b.xb",))
            if (rc != 0) != (want != 0) or ch != ([b"a.xb"] if args == ["a.xml"] else []): g["fails"] += 1; fail(res, "calls", "2xb %s: exit %d, changed %s" % (args, rc, ch))

# ------------------------------------------------------------------ writable documents
def bw_make(res, exe, w, group, n, styles=(0, 0, 0, 1, 1, 2, 3, 4)):
    jobs = []
    for i in range(n):
        r = rng(group, i); f = w.p(group, "%d.xbw" % i); st = styles[i % len(styles)]
        jobs.append(("%d" % i, "bwgen", r.getrandbits(48), f, f[:-4] + ".spec", r.choice([0, 1, 2, 5, 20, 60, 150, 300]) if st != 4 else r.choice([5, 20, 60]), st))
    out = batch(exe, jobs, w); good = []
    for i, j in enumerate(jobs):
        o = out.get(str(i))
        if o is None: res.broken.append("no result of job"); continue
        if o[0] != 0: res.inconclusive = getattr(res, "inconclusive", 0) + 1; continue        # that is another property: W01
        good.append((j[3], " ".join(map(str, j))))
    if len(good) < n * 3 // 4: res.broken.append("only %d of %d writable documents could be made" % (len(good), n))
    return good

def bw_value(t, raw): return (t, xbparse.text(t, raw)) if t == xbparse.BLOB_STRING else (t, raw)
def compare_bw(D, spec):
    st = [(spec, D.root)]; n = 0
    while st:
        x, y = st.pop(); n += 1
        if x[0] != xbparse.tag(D, y): return n, "name", "element %r stored as %r" % (x[0], xbparse.tag(D, y))
        if bw_value(x[1], x[2]) != bw_value(y.type, y.raw): return n, "value/%d" % x[1], "%r: value (%d, %s) stored as (%d, %s)" % (x[0], x[1], x[2][:40].hex(), y.type, (y.raw or b"")[:40].hex())
        a = [(nm, bw_value(t, r)) for nm, t, r in x[3]]; b = [(xbparse.param(D, p), bw_value(t, r)) for p, t, r in y.attrs]
        if a != b: return n, "attributes", "%r: attributes %r stored as %r" % (x[0], a, b)
        if len(x[4]) != len(y.children): return n, "children", "%r: %d children stored as %d" % (x[0], len(x[4]), len(y.children))
        st.extend(zip(x[4], y.children))
    return n, None, None

def w04(res):
    res.rule = "Writable documents are built by random edits through the public interface (the model remembers what they must contain), then converted by the real creator, packer and command line tool under ASan+UBSan; the independent reader of the format checks the file and its tree is compared with the model. Evaluation = one element compared; distinct = distinct converted file."
    res.assumptions = ["the spare capacity of BLOB_STRING values is not content", "one element has each attribute at most once"]
    b = build.build("asan", ["xbtool", "tool:2xb"]); exe = b["xbtool"]
    with Work() as w:
        def judge(g, f, xb, ds, key):
            g["cases"] += 1; data = get(xb)
            if data is None: g["fails"] += 1; fail(res, key + "/no-file", "no file was made", None, desc=ds); return
            D = xbparse.parse(data)
            if D.errors: g["fails"] += 1; fail(res, key + "/format", "; ".join(D.errors), None, desc=ds); return
            n, k, e = compare_bw(D, read_spec(f[:-4] + ".spec")); g["evals"] += n
            if k: g["fails"] += 1; fail(res, key + "/" + k, e, None, desc=ds); return
            g["distinct"] += 1
        n = quick(1600, 24000)
        for part in range(0, n, 1600):
            good = bw_make(res, exe, w, "w04-%d" % part, 1600)
            before = {f: hashlib.md5(get(f)).digest() for f, ds in good[:200]}
            for cmd in ("conv", "pack"):
                g = res.group(cmd); out = batch(exe, [("%d" % i, cmd, f, f[:-4] + ".%s.xb" % cmd) for i, (f, ds) in enumerate(good)], w)
                for i, (f, ds) in enumerate(good):
                    o = out.get(str(i))
                    if o is None: res.broken.append("no result of job"); continue
                    if o[0] != 0: g["cases"] += 1; g["fails"] += 1; fail(res, "%s/%s" % (cmd, bad_end(o) or "refused"), str(o), None, desc=ds); continue
                    judge(g, f, f[:-4] + ".%s.xb" % cmd, ds, cmd)
            # the source survives: it is exported the same after the conversions
            g = res.group("source"); ex = [(f, ds) for f, ds in good[:200]]
            out = batch(exe, [("%d" % i, "bwexport", f, f[:-4] + ".after.xml") for i, (f, ds) in enumerate(ex)], w)
            for i, (f, ds) in enumerate(ex):
                g["cases"] += 1; g["evals"] += 1; o = out.get(str(i)); a = get(f[:-4] + ".spec.xml"); z = get(f[:-4] + ".after.xml")
                if o is None or o[0] != 0: g["fails"] += 1; fail(res, "source/refused", "after conversion: %s" % (o,), None, desc=ds); continue
                if z is None or not z.endswith(a): g["fails"] += 1; fail(res, "source/changed", "the writable document changed by its conversion", None, desc=ds); continue
                g["distinct"] += 1
            if part == 0:
                g = res.group("tool"); few = good[:quick(60, 400)]
                def one(a):
                    i, (f, ds) = a; d = os.path.dirname(w.p("t%d-%d" % (part, i), "x")); shutil.copy(f, os.path.join(d, "d.xbw")); return f, ds, d, run_cli(b["tool:2xb"], ["d.xbw"], d)
                with cf.ThreadPoolExecutor(8) as ex:
                    for f, ds, d, r in ex.map(one, list(enumerate(few))):
                        if r[0] != 0: g["cases"] += 1; g["fails"] += 1; fail(res, "2xb/exit-%d" % r[0], r[2][-500:].decode("utf-8", "replace"), None, desc=ds)
                        else: judge(g, f, os.path.join(d, "d.xb"), ds, "2xb")
                        shutil.rmtree(d, ignore_errors=True)
                if good: res.sample("%s: %s" % (good[0][1], repr(get(good[0][0][:-4] + ".spec")[:300])))
            shutil.rmtree(w.p("w04-%d" % part), ignore_errors=True)
        # nesting: what is reported as converted can be opened; only what is nested deeper than the format's readers go may be refused, without a result
        g = res.group("nested"); r = rng("w04n", 0); levels = sorted({1, 2, 255, 256, 257, 511, 512, 900, 1000} | set(range(1015, 1031)) | {1100, 2047, 2048, 3000} | {r.randrange(300, 3000) for _ in range(quick(10, 200))})
        jobs = [("%d" % n, "bwdeep", r.getrandbits(40), w.p("w04n", "n%d.xbw" % n), w.p("w04n", "n%d.spec" % n), n) for n in levels]; made = batch(exe, jobs, w)
        for cmd in ("conv", "pack"):
            xb = lambda n: w.p("w04n", "n%d.%s.xb" % (n, cmd)); out = batch(exe, [("%d" % n, cmd, w.p("w04n", "n%d.xbw" % n), xb(n)) for n in levels], w); op = batch(exe, [("%d" % n, "dump", xb(n), xb(n) + ".dump") for n in levels if os.path.exists(xb(n))], w)
            for n in levels:
                d = "%d levels, %s" % (n, cmd); o = out.get(str(n)); m = made.get(str(n))
                if m is None or m[0] != 0: res.broken.append("nested document not made: %s" % (m,)); continue
                if o is None or o[0] not in (0, 1): g["cases"] += 1; g["fails"] += 1; fail(res, "nested/" + (bad_end(o) or "exit"), str(o), None, desc=d); continue
                if o[0] == 1:
                    g["cases"] += 1; g["evals"] += 1
                    if n <= 1000: g["fails"] += 1; fail(res, "nested/refused", "document was not converted", None, desc=d)
                    elif os.path.exists(xb(n)): g["fails"] += 1; fail(res, "nested/refused-but-file", "refused, but there is a result", None, desc=d)
                    continue
                if op.get(str(n), (None,))[0] != 0: g["cases"] += 1; g["fails"] += 1; fail(res, "nested/unreadable", "conversion reported success, the result cannot be opened: %s" % (op.get(str(n)),), None, desc=d); continue
                judge(g, w.p("w04n", "n%d.xbw" % n), xb(n), d, "nested")
        res.extra["documents not made (other property)"] = getattr(res, "inconclusive", 0)

def xml_against(spec, el):
    """exported XML against the model; names of this project are XML names without prefixes"""
    st = [(spec, el)]; n = 0
    def text_is(t, raw, s, strip):
        if t in (xbparse.FLOAT, xbparse.DOUBLE):
            v, = struct.unpack("<f" if t == xbparse.FLOAT else "<d", raw)
            return "nan" in s.lower() if v != v else same_value(t, raw, s.strip(WS))
        x = xbparse.text(t, raw).decode("utf-8")
        return x == s or (strip and x.strip(WS) == s.strip(WS))
    while st:
        x, y = st.pop(); n += 1; nm = x[0].decode("utf-8")
        if y.tag != nm: return n, "name", "element %r exported as %r" % (nm, y.tag)
        at = {k.decode("utf-8"): (t, r) for k, t, r in x[3]}
        if list(at) != list(y.attrib): return n, "attributes", "%r: attributes %r exported as %r" % (nm, list(at), list(y.attrib))
        for k, (t, r) in at.items():
            if not text_is(t, r, y.attrib[k], False): return n, "attribute-value/%d" % t, "%r@%r: type %d %s exported as %r" % (nm, k, t, r[:60].hex(), y.attrib[k][:200])
        if len(x[4]) != len(y): return n, "children", "%r: %d children exported as %d" % (nm, len(x[4]), len(y))
        runs = [y.text or ""] + [c.tail or "" for c in y]; s = "".join(runs) if len(y) == 0 else "".join(v for v in runs if v.strip(WS))
        if not text_is(x[1], x[2], s, len(y) > 0): return n, "text/%d" % x[1], "%r: type %d %s exported as %r" % (nm, x[1], x[2][:60].hex(), s[:200])
        st.extend(zip(x[4], y))
    return n, None, None

def w05(res):
    res.rule = "Writable documents built by random edits (the model remembers their content) are exported as XML by the editing process, by another process that opens the file and by the command line tool, under ASan+UBSan; expat parses the XML and it is compared with the model: names, order, exact text of every value. Evaluation = one element compared; distinct = distinct XML."
    res.assumptions = ["text of an element with children is compared without the white space around it", "FLOAT and DOUBLE are compared as numbers", "texts contain only characters that XML allows"]
    b = build.build("asan", ["xbtool", "tool:xb2xml"]); exe = b["xbtool"]
    with Work() as w:
        def judge(g, f, x, ds, key):
            g["cases"] += 1
            try: el = ET.fromstring(x or b"")
            except ET.ParseError as e: g["fails"] += 1; fail(res, key + "/not-well-formed", "%s in %r" % (e, (x or b"")[:600]), None, desc=ds); return
            n, k, e = xml_against(read_spec(f[:-4] + ".spec"), el); g["evals"] += n
            if k: g["fails"] += 1; fail(res, key + "/" + k, e, None, desc=ds); return
            g["distinct"] += 1
        n = quick(1600, 24000)
        for part in range(0, n, 1600):
            good = bw_make(res, exe, w, "w05-%d" % part, 1600)
            g = res.group("while-editing")
            for f, ds in good: judge(g, f, get(f[:-4] + ".spec.xml"), ds, "editing")
            g = res.group("opened-again"); out = batch(exe, [("%d" % i, "bwexport", f, f[:-4] + ".out.xml") for i, (f, ds) in enumerate(good)], w)
            for i, (f, ds) in enumerate(good):
                o = out.get(str(i))
                if o is None: res.broken.append("no result of job"); continue
                if o[0] != 0: g["cases"] += 1; g["fails"] += 1; fail(res, "opened/%s" % (bad_end(o) or "refused"), str(o), None, desc=ds); continue
                judge(g, f, get(f[:-4] + ".out.xml"), ds, "opened")
            if part == 0:
                g = res.group("tool"); few = good[:quick(100, 400)]
                def one(a):
                    i, (f, ds) = a; d = os.path.dirname(w.p("t%d-%d" % (part, i), "x")); shutil.copy(f, os.path.join(d, "d.xbw")); return f, ds, d, run_cli(b["tool:xb2xml"], ["d.xbw"], d)
                with cf.ThreadPoolExecutor(8) as ex:
                    for f, ds, d, r in ex.map(one, list(enumerate(few))):
                        if r[0] != 0: g["cases"] += 1; g["fails"] += 1; fail(res, "xb2xml/exit-%d" % r[0], r[2][-500:].decode("utf-8", "replace"), None, desc=ds)
                        else:
                            head, sep, body = r[1].partition(b"\n-->\n")                      # the tool lists the names in a comment
                            if sep and b"<!--" in head and b"--" in head.partition(b"<!--")[2]:
                                fail(res, "xb2xml/dashes-in-list-of-names", head[:300].decode("utf-8", "replace"), None, desc=ds); judge(g, f, body, ds, "xb2xml")
                            else: judge(g, f, r[1], ds, "xb2xml")
                        shutil.rmtree(d, ignore_errors=True)
                if good: res.sample("%s: %s" % (good[-1][1], repr(get(good[-1][0][:-4] + ".spec.xml")[:400])))
            shutil.rmtree(w.p("w05-%d" % part), ignore_errors=True)
        res.extra["documents not made (other property)"] = getattr(res, "inconclusive", 0)

CHECKS = {"W04": w04, "W05": w05, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": (c07, "fault_enumeration"), "U04": u04}
