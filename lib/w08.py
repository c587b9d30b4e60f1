"""W08: conversion of documents to writable form (2xbw, XBTARGET_XBW); C08: printing of sources."""
import hashlib, os, re, shutil
import concurrent.futures as cf
import xml.etree.ElementTree as ET
import build, docgen, xbwparse
from cdoc import *
import cdoc

def lists(n):
    """values whose types differ from the common type of their name; attributes; sizes that strain the pool"""
    V = ["1", "-1", "9999999999", "1.5", "x", "", "2017-01-15", "00:11", "1.2.3.4", "0", "-0", "007", "18446744073709551615", "0123456789abcdef0123456789abcdef01234567", "2020-01-01 00:00:00", "ab" * 30, "y" * 5000]
    for i in range(n):
        r = rng("w08l", i); k = r.choice([1, 3, 30, 300, 3000]); few = r.sample(V, r.choice([1, 2, 3, len(V)])); item = lambda: r.choice(few) if r.random() < 0.9 else r.choice(V)
        big = k * 5000 < 3000000
        vals = [v if big or len(v) < 100 else "z" for v in (item() for _ in range(k))]
        if i % 3 == 0: yield ("<r>" + "".join("<i>%s</i>" % v for v in vals) + "</r>").encode()
        elif i % 3 == 1: yield ("<r>" + "".join("<i a=\"%s\" b%d='%s'/>" % (v, j % 9, v) for j, v in enumerate(vals)) + "</r>").encode()
        else: yield ("<r>" + "".join("<g%d><i>%s</i><j k='%s'><i/></j></g%d>" % (j % 50, v, v, j % 50) for j, v in enumerate(vals)) + "</r>").encode()

def w08(res):
    res.rule = "XML and JSON documents and typed trees are converted to writable documents by the real creator and by the command line tool under ASan+UBSan; an independent reader of the pool layout (lib/xbwparse.py) checks every offset, ring, number, name record and value and its tree is compared with the source as read by expat, by Python's json module or as generated; the same document is also opened by the plugin in another process and exported. Refused or malformed sources must be reported as failed and may not leave a document with a root. Evaluation = one element compared; distinct = distinct source."
    res.assumptions = ["the layout of pool version 0", "what an XML or JSON document says is decided as in C01, C02 and C05", "the spare capacity of BLOB_STRING values is not content"]
    b = build.build("asan", ["xbtool", "tool:2xbw"]); exe = b["xbtool"]
    with Work() as w:
        def judge(g, key, data, d, compare, desc=None):
            g["cases"] += 1
            if data is None: g["fails"] += 1; fail(res, key + "/no-file", "no file was made", d, **({} if d else {"desc": desc})); return None
            D = xbwparse.parse(data)
            kw = {} if d else {"desc": desc}
            if D.errors: g["fails"] += 1; fail(res, key + "/format/" + re.sub(r"[\d@:]+", "#", D.errors[0])[:50], "; ".join(D.errors), d, **kw); return None
            e = compare(D); g["evals"] += D.items
            if e: g["fails"] += 1; fail(res, key + "/content", e, d, **kw); return None
            g["distinct"] += 1; return D
        def go(group, docs, ext, compare, cmd="convw", export=True):
            g = res.group(group); files = [w.p(group, "%d%s" % (i, ext)) for i in range(len(docs))]
            for f, d in zip(files, docs): put(f, d)
            dst = [f[:-len(ext)] + ".xbw" for f in files]
            out = batch(exe, [("%d" % i, cmd, f, x) for i, (f, x) in enumerate(zip(files, dst))], w); ok = []
            for i, d in enumerate(docs):
                o = out.get(str(i))
                if o is None: res.broken.append("no result of job"); continue
                if o[0] != 0: g["cases"] += 1; g["fails"] += 1; fail(res, "%s/%s" % (group, bad_end(o) or "refused"), str(o), d); continue
                if get(files[i]) != d: fail(res, group + "/source-changed", "", d)
                if judge(g, group, get(dst[i]), d, lambda D: compare(D, d)) is not None and i < 2: res.sample("%s: %r" % (group, d[:200]))
                ok.append(i)
            if export and ext == ".xml":
                g = res.group(group + "-exported"); out = batch(exe, [("%d" % i, "bwexport", dst[i], dst[i] + ".out") for i in ok], w)
                for i in ok:
                    g["cases"] += 1; o = out.get(str(i))
                    if o is None or o[0] != 0: g["fails"] += 1; fail(res, group + "/export/%s" % (o and bad_end(o) or "refused"), str(o), docs[i]); continue
                    try: df = xml_diff(ET.fromstring(docs[i]), ET.fromstring(get(dst[i] + ".out")))
                    except ET.ParseError as e: df = ("not-well-formed", str(e))
                    g["evals"] += 1
                    if df: g["fails"] += 1; fail(res, group + "/export/" + df[0], df[1], docs[i]); continue
                    g["distinct"] += 1
            if ext == ".json":       # and on to the binary file
                g = res.group(group + "-to-xb"); out = batch(exe, [("%d" % i, "conv", dst[i], dst[i][:-4] + ".xb") for i in ok], w)
                for i in ok:
                    g["cases"] += 1; o = out.get(str(i))
                    if o is None or o[0] != 0: g["fails"] += 1; fail(res, group + "/xb/%s" % (o and bad_end(o) or "refused"), str(o), docs[i]); continue
                    D = xbparse.parse(get(dst[i][:-4] + ".xb")); g["evals"] += 1; e = "; ".join(D.errors) or compare(D, docs[i])
                    if e: g["fails"] += 1; fail(res, group + "/xb/content", e, docs[i]); continue
                    g["distinct"] += 1
            shutil.rmtree(os.path.dirname(files[0]), ignore_errors=True)
        xml = lambda D, d: compare_xml_tree(D, ET.fromstring(d))[1]
        go("xml-special", cdoc.DOCS_SPECIAL + special_values(), ".xml", xml); go("xml-special-doall", cdoc.DOCS_SPECIAL, ".xml", xml, "convwall", False)
        for part in range(0, quick(1500, 24000), 1500): go("xml-random", list(xml_docs("w08x%d" % part, 1500)), ".xml", xml)
        for part in range(quick(1, 10)): go("xml-lists", [d for i, d in enumerate(lists(quick(120, 1200))) if i // 120 == part], ".xml", xml)
        go("xml-lengths", list(length_docs("w08len", quick(150, 800))), ".xml", xml)
        go("xml-large", list(large_docs("w08b", quick(48, 400))), ".xml", xml)
        # JSON
        for part in range(0, quick(600, 10000), 600):
            docs = {}
            for t in ([s.encode("utf-8") for s in cdoc.JSON_SPECIAL] if part == 0 else []): docs[t] = from_json(t.decode())
            for i in range(600):
                r = rng("w08j", part + i); t = docgen.json_text(r, docgen.jgen(r, r.choice([2, 4, 6, 12]), r.choice([5, 40, 40, 200])))
                if b"\\u0000" not in t.replace(b"\\\\", b""): docs[t] = from_json(t.decode())
            go("json", list(docs), ".json", lambda D, d: json_diff(D, docgen.json_expected(docs[d])))
        # typed values
        g = res.group("typed"); n = quick(700, 12000)
        for part in range(0, n, 1000):
            jobs = []
            for i in range(part, min(n, part + 1000)):
                r = rng("w08t", i); f = w.p("typed", "%d.xbw" % i); jobs.append(("%d" % i, "gen", r.getrandbits(48), f, f + ".spec", "xbw", r.choice([3, 20, 80, 400]), r.randint(0, 1)))
            out = batch(exe, jobs, w)
            for j in jobs:
                o = out.get(j[0]); ds = " ".join(map(str, j))
                if o is None: res.broken.append("no result of job"); continue
                if o[0] != 0: g["cases"] += 1; g["fails"] += 1; fail(res, "typed/%s" % (bad_end(o) or "refused"), str(o), None, desc=ds); continue
                judge(g, "typed", get(j[3]), None, lambda D: compare_bw(D, read_spec(j[4]))[2], ds)
            shutil.rmtree(os.path.dirname(jobs[0][3]), ignore_errors=True)
        # from another writable document
        g = res.group("from-writable"); good = bw_make(res, exe, w, "w08w", quick(300, 4000))
        out = batch(exe, [("%d" % i, "convw", f, f[:-4] + "-copy.xbw") for i, (f, ds) in enumerate(good)], w)
        for i, (f, ds) in enumerate(good):
            o = out.get(str(i))
            if o is None: res.broken.append("no result of job"); continue
            if o[0] != 0: g["cases"] += 1; g["fails"] += 1; fail(res, "from-writable/%s" % (bad_end(o) or "refused"), str(o), None, desc=ds); continue
            judge(g, "from-writable", get(f[:-4] + "-copy.xbw"), None, lambda D: compare_bw(D, read_spec(f[:-4] + ".spec"))[2], ds)
        # the tool; existing results are replaced; refused and malformed sources
        g = res.group("tool"); docs = [(".xml", d, True) for d in cdoc.DOCS_SPECIAL + list(xml_docs("w08c", quick(40, 400)))] + [(".xml", d, False) for d in hostile_xml()] + [(".json", d, False) for d in hostile_json()] + [(".txt", b"x", False), ("", b"<a/>", False)]
        stale = get(good[0][0])
        def one(a):
            i, (ext, d, valid) = a; cwd = os.path.dirname(w.p("cli%d" % i, "x")); put(os.path.join(cwd, "d" + ext), d)
            if i % 4 == 0: put(os.path.join(cwd, "d.xbw"), stale)
            elif i % 4 == 1: put(os.path.join(cwd, "d.xbw"), b"<old>" * 20000)
            r = run_cli(b["tool:2xbw"], ["d" + ext], cwd); ls = sorted(os.listdir(cwd)); x = get(os.path.join(cwd, "d.xbw")); src = get(os.path.join(cwd, "d" + ext)); shutil.rmtree(cwd, ignore_errors=True); return i, ext, d, valid, r, ls, x, src
        with cf.ThreadPoolExecutor(8) as ex:
            for i, ext, d, valid, r, ls, x, src in ex.map(one, list(enumerate(docs))):
                msg = r[2][-600:].decode("utf-8", "replace")
                if r[0] not in (0, 1) or (valid and r[0]): g["cases"] += 1; g["fails"] += 1; fail(res, "2xbw/exit-%d" % r[0], msg, d); continue
                if src != d: fail(res, "2xbw/source-changed", "", d)
                if set(ls) - {"d" + ext, "d.xbw"}: fail(res, "2xbw/stray-files", repr(ls), d)
                if r[0] == 0: judge(g, "2xbw", x, d, (lambda D: xml(D, d)) if valid else lambda D: None); continue
                g["cases"] += 1; g["evals"] += 1; g["distinct"] += 1
                if x is not None and x not in (stale, b"<old>" * 20000):
                    D = xbwparse.parse(x)
                    if D.root is not None: g["fails"] += 1; fail(res, "2xbw/refused-but-document", "failed conversion left a document with a root", d)
        res.extra["documents not made (other property)"] = getattr(res, "inconclusive", 0)
def json_xml_diff(exp, el):
    """printed XML of a JSON document; None when the same, "" when the document cannot be said in XML"""
    st = [(exp, el)]
    while st:
        (name, text, ch), y = st.pop()
        if name is not None and not NAME.match(name) or text and any(not docgen.okchar(c) or c == "\r" for c in text): return ""
        if (name if name is not None else "NULL") != y.tag: return "name %r printed as %r" % (name, y.tag)
        if y.attrib: return "%s: has attributes" % name
        if len(ch) != len(y): return "%s: %d members printed as %d" % (name, len(ch), len(y))
        if not ch and (y.text or "") != (text or ""): return "%s: value %r printed as %r" % (name, (text or "")[:300], (y.text or "")[:300])
        st.extend(zip(ch, y))
    return None
NAME = re.compile(r"[A-Za-z_][\w.-]*$")
def sayable(v):
    """the JSON value with member names and texts that XML can carry"""
    if isinstance(v, docgen.Obj): return docgen.Obj((k if NAME.match(k) and k.isascii() and k != "s" else "k" + re.sub(r"\W", "", k, flags=re.A), sayable(x)) for k, x in v)
    if isinstance(v, list): return [sayable(x) for x in v]
    if isinstance(v, docgen.Raw) or not isinstance(v, str): return v
    return "".join(c for c in v if docgen.okchar(c) and c != "\r")

def c08(res):
    res.rule = "XML, JSON and typed sources are opened by their plugins and printed with operator<< under ASan+UBSan; expat parses the printed XML and it is compared with the source (as read by expat, by Python's json module, or as generated): names, order, attributes, exact texts. Evaluation = one document compared; distinct = distinct source."
    res.assumptions = ["names of JSON members are XML names and texts contain only characters that XML allows", "FLOAT and DOUBLE are compared as numbers", "an element without a name is shown as NULL", "namespaces are dropped, as in conversion"]
    exe = build.build("asan", ["xbtool"])["xbtool"]
    with Work() as w:
        def parsed(g, key, path, d, **kw):
            try: return ET.fromstring(get(path) or b"")
            except ET.ParseError as e: g["fails"] += 1; fail(res, key + "/not-well-formed", "%s in %r" % (e, (get(path) or b"")[:500]), d, **kw)
        def go(group, docs, ext, compare):
            g = res.group(group); files = [w.p(group, "%d%s" % (i, ext)) for i in range(len(docs))]
            for f, d in zip(files, docs): put(f, d)
            out = batch(exe, [("%d" % i, "print", f, f + ".out") for i, f in enumerate(files)], w)
            for i, d in enumerate(docs):
                g["cases"] += 1; o = out.get(str(i))
                if o is None: res.broken.append("no result of job"); continue
                if o[0] != 0: g["fails"] += 1; fail(res, "%s/%s" % (group, bad_end(o) or "refused"), str(o), d); continue
                el = parsed(g, group, files[i] + ".out", d)
                if el is None: continue
                e = compare(el, d); g["evals"] += 1
                if e: g["fails"] += 1; fail(res, group + "/content", str(e), d); continue
                g["distinct"] += 1
                if i < 2: res.sample("%s: %r" % (group, d[:200]))
            shutil.rmtree(os.path.dirname(files[0]), ignore_errors=True)
        xml = lambda el, d: xml_diff(ET.fromstring(d), el)
        go("xml-special", cdoc.DOCS_SPECIAL + special_values(), ".xml", xml)
        for part in range(0, quick(1500, 24000), 1500): go("xml-random", list(xml_docs("c08x%d" % part, 1500)), ".xml", xml)
        go("xml-lengths", list(length_docs("c08len", quick(200, 1000))), ".xml", xml)
        go("xml-large", list(large_docs("c08b", quick(40, 400))), ".xml", xml)
        unsayable = 0
        for part in range(0, quick(900, 12000), 900):
            docs = {}
            for i in range(900):
                r = rng("c08j", part + i); v = sayable(docgen.jgen(r, r.choice([2, 4, 6, 12]), r.choice([5, 40, 40, 200]))); t = docgen.json_text(r, v)
                if b"\\u0000" not in t.replace(b"\\\\", b""): docs[t] = docgen.json_expected(from_json(t.decode()))
            go("json", list(docs), ".json", lambda el, d: json_xml_diff(docs[d], el))
        # listing by print(): values are printed as they are, so only documents without markup characters in them are read back
        def plain(el): return all(not re.search(r"[<>&\"\r\n\t]", v) for e in el.iter() for v in list(e.attrib.values()) + [e.text or "", e.tail or ""] if v.strip() or v in e.attrib.values())
        g = res.group("listing"); docs = []
        for d in cdoc.DOCS_SPECIAL + list(xml_docs("c08p", quick(4000, 40000))):
            try: el = ET.fromstring(d)
            except ET.ParseError: continue
            if plain(el) and b"xmlns" not in d.replace(b"\0", b""): docs.append(d)
        files = [w.p("listing", "%d.xml" % i) for i in range(len(docs))]
        for f, d in zip(files, docs): put(f, d)
        out = batch(exe, [("%d" % i, "printf", f, f + ".out") for i, f in enumerate(files)], w)
        for i, d in enumerate(docs):
            g["cases"] += 1; o = out.get(str(i))
            if o is None: res.broken.append("no result of job"); continue
            if o[0] != 0: g["fails"] += 1; fail(res, "listing/%s" % (bad_end(o) or "refused"), str(o), d); continue
            el = parsed(g, "listing", files[i] + ".out", d)
            if el is None: continue
            e = xml(el, d); g["evals"] += 1
            if e: g["fails"] += 1; fail(res, "listing/content", str(e), d); continue
            g["distinct"] += 1
        g = res.group("typed"); n = quick(900, 12000)
        for part in range(0, n, 1000):
            jobs = []
            for i in range(part, min(n, part + 1000)): r = rng("c08t", i); f = w.p("typed", "%d.xml" % i); jobs.append(("%d" % i, "genprint", r.getrandbits(48), f, f + ".spec", r.choice([3, 20, 80, 300])))
            out = batch(exe, jobs, w)
            for j in jobs:
                g["cases"] += 1; o = out.get(j[0]); ds = " ".join(map(str, j))
                if o is None: res.broken.append("no result of job"); continue
                if o[0] != 0: g["fails"] += 1; fail(res, "typed/%s" % (bad_end(o) or "refused"), str(o), None, desc=ds); continue
                el = parsed(g, "typed", j[3], None, desc=ds)
                if el is None: continue
                n_, k, e = xml_against(read_spec(j[4]), el); g["evals"] += n_
                if k: g["fails"] += 1; fail(res, "typed/" + k, e, None, desc=ds); continue
                g["distinct"] += 1
            shutil.rmtree(os.path.dirname(jobs[0][3]), ignore_errors=True)
CHECKS = {"W08": w08, "C08": c08}
