"""Independent reader of the .xb format: knows the published layout only, shares nothing with the code under test.

parse(data) -> Doc (root Node, errors, stats).  Every departure from the layout is an error text.
"""
import struct, datetime

NULL, VARIANT, STRING, BLOB, INT32, INT64, FLOAT, DOUBLE, HEX, GUID, SHA1, UNIX_TIME, IPV4, IPV6, UNKNOWN, UINT64, MSEC, UINT32, DATE, DECI, CENTI, MILI, MICRO, NANO, BLOB_STRING = range(25)
IS4 = {INT32, FLOAT, UNIX_TIME, IPV4, UINT32, DATE, DECI, CENTI, MILI, MICRO, NANO}
IS8 = {INT64, DOUBLE, UINT64, MSEC}
VARSIZE = {BLOB, HEX, BLOB_STRING}
FIXED = {GUID: 16, SHA1: 20, IPV6: 16, NULL: 0}
META_ROOT, TAG_SYMBOLS, PARAM_SYMBOLS, PAYLOAD, ET_TECERA = -2, -3, -4, -6, -9
P_NAME, P_HASH, P_MODIFIED, P_COUNT, P_VERSION, P_TYPE_COUNT = -2, -3, -4, -5, -6, -7

class Node:
    __slots__ = ("name", "type", "raw", "attrs", "children", "off", "end", "span", "height", "ring")

def _pad(n, a): return (n + a - 1) // a * a

def scaled(v, d):
    a = abs(v); p = 10 ** d
    return "%s%d.%0*d" % ("-" if v < 0 else "", a // p, d, a % p)

def _date(days):
    # proleptic Gregorian through Python's calendar, shifted by whole 400 year cycles where it does not reach
    cyc = 0
    while days < -719162: days += 146097; cyc -= 1
    while days > 2932896: days -= 146097; cyc += 1
    d = datetime.date(1970, 1, 1) + datetime.timedelta(days=days)
    return "%04d-%02d-%02d" % (d.year + 400 * cyc, d.month, d.day)

def text(t, raw):
    """Text of a stored value; bytes. None when this reader has no opinion about formatting (float, double)."""
    if t == NULL: return b""
    if t == STRING: return raw[:-1]
    if t in IS4 and t != FLOAT:
        i, = struct.unpack("<i", raw); u = i & 0xffffffff
        if t == INT32: s = "%d" % i
        elif t == UINT32: s = "%d" % u
        elif t == IPV4: s = "%d.%d.%d.%d" % (u >> 24, (u >> 16) & 255, (u >> 8) & 255, u & 255)
        elif t == DATE: s = _date(i)
        elif t == UNIX_TIME: s = "%s %02d:%02d:%02d" % (_date(u // 86400), u % 86400 // 3600, u // 60 % 60, u % 60)
        else: s = scaled(i, {DECI: 1, CENTI: 2, MILI: 3, MICRO: 6, NANO: 9}[t])
        return s.encode()
    if t == INT64: return b"%d" % struct.unpack("<q", raw)
    if t == UINT64: return b"%d" % struct.unpack("<Q", raw)
    if t == MSEC:
        v, = struct.unpack("<q", raw); day, r = divmod(v, 86400000); s = r // 1000
        return ("%s %02d:%02d:%02d.%03d" % (_date(day), s // 3600, s // 60 % 60, s % 60, r % 1000)).encode()
    if t == GUID:
        h = raw.hex(); return ("%s-%s-%s-%s-%s" % (h[:8], h[8:12], h[12:16], h[16:20], h[20:])).encode()
    if t == SHA1: return raw.hex().encode()
    if t == HEX:
        d = raw[4:]; return b"\n".join(d[i:i + 16].hex().encode() for i in range(0, len(d), 16))
    if t == BLOB:
        import base64; return base64.b64encode(raw[4:])
    if t == BLOB_STRING: return raw[4:].split(b"\0")[0]
    return None

class Doc: pass

def parse(data, shared_ok=True, max_errors=20):
    """Strict parse of a complete file without appended records."""
    D = Doc(); D.errors = []; D.root = None; D.tags = []; D.params = []; D.items = 0; D.shared = 0; D.size = len(data); D.types = {}
    def err(s):
        if len(D.errors) < max_errors: D.errors.append(s)
    if len(data) % 4: err("file size %d is not a multiple of 4" % len(data))
    done = {}       # offset -> complete Node

    def value(t, off, limit, who):
        """stored image and end of the value at off"""
        if t == NULL: return b"", off
        if t == STRING:
            e = data.find(b"\0", off, limit)
            if e < 0: err("%s: string at %d not terminated inside its element" % (who, off)); return None, off
            return data[off:e + 1], e + 1
        if t in IS4: n, al = 4, 4
        elif t in IS8: n, al = 8, 8
        elif t in FIXED: n, al = FIXED[t], 4
        elif t in VARSIZE:
            al = 4
            if off % 4: err("%s: value at %d is not aligned" % (who, off)); return None, off
            if off + 4 > limit: err("%s: size of value at %d outside" % (who, off)); return None, off
            n, = struct.unpack_from("<i", data, off)
            if n < 0: err("%s: negative size %d" % (who, n)); return None, off
            n += 4
            if t == BLOB_STRING and off + n <= limit and b"\0" not in data[off + 4:off + n]: err("%s: BLOB_STRING not terminated" % who)
        else:
            err("%s: type %d cannot be stored" % (who, t)); return None, off
        if off % al: err("%s: value of type %d at %d is not aligned to %d" % (who, t, off, al))
        if off + n > limit: err("%s: value of type %d at %d+%d passes end %d" % (who, t, off, n, limit)); return None, off
        return data[off:off + n], off + n

    def item(off, limit, depth=0, meta=False):
        who = "item@%d" % off
        if depth > 20000: err("%s: nested too deeply" % who); return None
        if off % 4: err("%s is not aligned" % who); return None
        if off + 13 > limit: err("%s does not fit before %d" % (who, limit)); return None
        name, pc, cc, length = struct.unpack_from("<hhii", data, off)
        if pc < 0 or cc < 0 or length < 13: err("%s: counts %d %d length %d" % (who, pc, cc, length)); return None
        end = off + length
        if end > limit: err("%s: end %d outside of parent end %d" % (who, end, limit)); return None
        hdr = 12 + pc * 8 + cc * 4
        if off + hdr + 1 > end: err("%s: header does not fit in length" % who); return None
        D.items += 1
        if D.items > 4000000: err("too many items"); return None
        t = data[off + hdr]
        vo = off + hdr + 1
        if t in IS8: vo = _pad(vo, 8)
        elif t not in (NULL, STRING): vo = _pad(vo, 4)
        pieces = [(off, off + hdr + 1)]
        raw, ve = value(t, vo, end, who)
        if raw is None and D.errors: raw = b""
        if ve > vo: pieces.append((vo, ve))
        n = Node(); n.off = off; n.end = end; n.type = t; n.raw = raw or b""; n.attrs = []; n.children = []; n.span = length
        D.types[t] = D.types.get(t, 0) + 1
        for i in range(pc):
            pn, pt, res, pd = struct.unpack_from("<hBBi", data, off + 12 + i * 8)
            pw = "%s attribute %d" % (who, i)
            if res != 0: err("%s: reserved byte is %d" % (pw, res))
            D.types[pt] = D.types.get(pt, 0) + 1
            if pt in IS4: praw = struct.pack("<i", pd)
            elif pt == NULL:
                praw = b""
                if pd != 0: err("%s: NULL has data %d" % (pw, pd))
            else:
                if pd < hdr + 1 or pd >= length: err("%s: offset %d outside of element (%d..%d)" % (pw, pd, hdr + 1, length)); return None
                praw, pe = value(pt, off + pd, end, pw)
                if praw is None: return None
                pieces.append((off + pd, pe))
            n.attrs.append((pn, pt, praw))
        n.name = name
        kids = []
        for i in range(cc):
            rel, = struct.unpack_from("<i", data, off + 12 + pc * 8 + i * 4)
            c = off + rel
            if rel >= hdr + 1:
                # inside the parent: either stored here or (packed) a part of an earlier child
                if c in done and done[c].end <= (kids[-1] if kids else 0):
                    k = done[c]; D.shared += 1
                    if not shared_ok: err("%s child %d is shared" % (who, i))
                else:
                    k = item(c, end, depth + 1)
                    if k is None: return None
                    kids.append(k.end)
                    pieces.append((c, k.end))
            else:
                if not shared_ok or rel >= 0 or c not in done: err("%s child %d: offset %d leads outside of the element and not to earlier complete content" % (who, i, rel)); return None
                k = done[c]; D.shared += 1
            n.children.append(k)
            pieces.sort()
        pos = off
        for b, e in pieces:
            if b < pos: err("%s: parts overlap at %d (previous ends %d)" % (who, b, pos))
            elif b - pos >= 8: err("%s: hole of %d bytes at %d" % (who, b - pos, pos))
            pos = max(pos, e)
        if end - pos >= 8: err("%s: length %d leaves %d unused bytes" % (who, length, end - pos))
        n.height = 1 + max([k.height for k in n.children], default=0)
        done[off] = n
        return n

    def symtab(n, what, code):
        if n.name != code: err("%s table has name %d" % (what, n.name)); return []
        a = {p: (t, r) for p, t, r in n.attrs}
        if set(a) != {P_COUNT, P_TYPE_COUNT}: err("%s table has attributes %s" % (what, sorted(a))); return []
        if any(t != INT32 for t, _ in a.values()): err("%s counts are not INT32" % what); return []
        cnt, = struct.unpack("<i", a[P_COUNT][1]); tcnt, = struct.unpack("<i", a[P_TYPE_COUNT][1])
        if n.children: err("%s table has children" % what)
        if n.type != BLOB: err("%s table has type %d" % (what, n.type)); return []
        if cnt < 0 or tcnt != cnt: err("%s: count %d type_count %d" % (what, cnt, tcnt)); return []
        blob = n.off + 12 + 16 + 1; blob = _pad(blob, 4) + 4
        size = len(n.raw) - 4
        if size < cnt * 5: err("%s: blob of %d bytes for %d names" % (what, size, cnt)); return []
        names = []; used = [(blob, blob + cnt * 5)]
        for i in range(cnt):
            r, = struct.unpack_from("<i", data, blob + 4 * i)
            o = n.off + r
            if o < blob + cnt * 5 or o >= blob + size: err("%s: name %d at %d is outside of the table" % (what, i, o)); return names
            e = data.find(b"\0", o, blob + size)
            if e < 0: err("%s: name %d not terminated" % (what, i)); return names
            names.append(data[o:e]); used.append((o, e + 1))
            t = data[blob + 4 * cnt + i]
            if t > BLOB_STRING: err("%s: name %d has type %d" % (what, i, t))
        for i in range(1, cnt):
            if not names[i - 1] < names[i]: err("%s: names %r and %r are not in ascending order" % (what, names[i - 1], names[i]))
        used.sort()
        for (b0, e0), (b1, e1) in zip(used, used[1:]):
            if b1 < e0: err("%s: names overlap" % what)
        return names

    r = item(0, len(data))
    if r is None:
        if not D.errors: err("no root")
        return D
    if r.end != len(data) and not (_pad(r.end, 4) == len(data) and not any(data[r.end:])): err("root ends at %d, file at %d" % (r.end, len(data)))
    if r.name != META_ROOT: err("root has name %d" % r.name)
    if [(p, t) for p, t, _ in r.attrs] != [(P_VERSION, INT32), (P_NAME, STRING), (P_HASH, SHA1), (P_MODIFIED, UNIX_TIME)]: err("root attributes are %s" % [(p, t) for p, t, _ in r.attrs])
    else:
        if struct.unpack("<i", r.attrs[0][2])[0] != 0x100: err("format version")
        D.src_name = r.attrs[1][2][:-1]; D.modified = struct.unpack("<I", r.attrs[3][2])[0]
    if len(r.children) != 3: err("root has %d children" % len(r.children)); return D
    D.tags = symtab(r.children[0], "element name", TAG_SYMBOLS)
    D.params = symtab(r.children[1], "attribute name", PARAM_SYMBOLS)
    p = r.children[2]
    if p.name != PAYLOAD: err("payload has name %d" % p.name)
    if p.attrs: err("payload has attributes")
    if len(p.children) != 1: err("payload has %d children" % len(p.children)); return D
    D.root = p.children[0]
    # names
    seen = set(); st = [D.root]; D.distinct = 0; D.bytes_payload = p.span
    while st:
        n = st.pop()
        if n.off in seen: continue
        seen.add(n.off); D.distinct += 1
        if n.off <= r.children[1].off and n.off >= 0 and n is not D.root: err("content refers to the header")
        if not (0 <= n.name < len(D.tags)) and n.name not in (ET_TECERA, -1): err("item@%d: name %d is not in table of %d" % (n.off, n.name, len(D.tags)))
        for a in n.attrs:
            if not 0 <= a[0] < len(D.params): err("item@%d: attribute name %d is not in table of %d" % (n.off, a[0], len(D.params)))
        st.extend(n.children)
    return D

def tag(D, n):
    if n.name == ET_TECERA: return b"et-tecera"
    return D.tags[n.name] if 0 <= n.name < len(D.tags) else b"NULL"
def param(D, i): return D.params[i] if 0 <= i < len(D.params) else b"?%d" % i
