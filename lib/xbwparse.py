"""Independent reader of the writable document (.xbw): knows the layout of pool, names and elements only.

parse(data) -> Doc like xbparse.parse (root Node, errors, tags, params); every departure from the layout is an error text.
"""
import struct
import xbparse
from xbparse import NULL, STRING, IS4, IS8, VARSIZE, FIXED, BLOB_STRING

HDR = 92
def parse(data, max_errors=20):
    D = xbparse.Doc(); D.errors = []; D.root = None; D.items = 0; D.types = {}; D.size = len(data); D.tags = []; D.params = []
    def err(s):
        if len(D.errors) < max_errors: D.errors.append(s)
    if len(data) < HDR + 16: err("file of %d bytes" % len(data)); return D
    size, info, ver, fsize, mmap_size, reserved, root, master, alloc, limit = struct.unpack_from("<I24sIIIiiIii", data, 0)
    if info.rstrip(b"\0") != b"binary_xml.pksoft.org": err("identification %r" % info)
    if ver != 0: err("format version %d" % ver)
    if fsize != len(data): err("file_size %d of a file of %d bytes" % (fsize, len(data)))
    if mmap_size < fsize: err("mmap_size %d less than file size %d" % (mmap_size, fsize))
    if not HDR <= alloc <= limit <= len(data): err("allocator %d, its limit %d, size %d" % (alloc, limit, len(data))); return D
    def names(off, what):
        mx, no, ix, fl = struct.unpack_from("<iiiI", data, off); out = {}; types = {}
        if mx < -1 or mx > 32767: err("%s: max_id %d" % (what, mx)); return out, types
        if mx == -1: return out, types
        p = no
        for k in range(mx + 1):
            if p < HDR or p + 4 > alloc: err("%s: record %d at %d" % (what, k, p)); return out, types
            i, t = struct.unpack_from("<hB", data, p); e = data.find(b"\0", p + 3, alloc)
            if e < 0: err("%s: name of record %d is not terminated" % (what, k)); return out, types
            if i in out: err("%s: number %d twice" % (what, i))
            if not 0 <= i <= mx: err("%s: number %d of %d" % (what, i, mx))
            if data[p + 3:e] in out.values(): err("%s: name %r twice" % (what, data[p + 3:e]))
            out[i] = data[p + 3:e]; types[i] = t
            if ix:
                o, = struct.unpack_from("<i", data, ix + 4 * i) if 0 <= ix + 4 * i <= alloc - 4 else (0,)
                if o != p: err("%s: index of %d is %d, its record is at %d" % (what, i, o, p))
            p = (e + 1 + 3) & ~3
        return out, types
    D.tags, D.tag_types = names(60, "tags"); D.params, D.param_types = names(76, "params")
    seen = set()
    def elem(off, want_element, who):
        if off % 4 or off < HDR or off + 24 > alloc: err("%s: offset %d" % (who, off)); return None
        if off in seen: err("%s: element at %d is reached twice" % (who, off)); return None
        seen.add(off)
        o, ident, flags, t, nx, pv, fc, fa = struct.unpack_from("<ihBBiiii", data, off)
        if o != off: err("%s@%d: says it is at %d" % (who, off, o))
        if (flags & 1) != want_element: err("%s@%d: flags %d in the list of %s" % (who, off, flags, "elements" if want_element else "attributes"))
        if flags & 8: err("%s@%d: deleted element is in document" % (who, off))
        v = off + 24; D.items += 1; D.types[t] = D.types.get(t, 0) + 1
        if t == NULL: raw = b""
        elif t == STRING:
            e = data.find(b"\0", v, alloc)
            if e < 0: err("%s@%d: string not terminated" % (who, off)); return None
            raw = data[v:e + 1]
        else:
            if t in IS4: n = 4
            elif t in IS8: n = 8
            elif t in FIXED: n = FIXED[t]
            elif t in VARSIZE:
                n, = struct.unpack_from("<i", data, v) if v + 4 <= alloc else (-1,)
                if n < 0: err("%s@%d: size %d" % (who, off, n)); return None
                n += 4
            else: err("%s@%d: type %d" % (who, off, t)); return None
            if v + n > alloc: err("%s@%d: value of %d bytes passes %d" % (who, off, n, alloc)); return None
            raw = data[v:v + n]
            if t == BLOB_STRING and b"\0" not in raw[4:]: err("%s@%d: BLOB_STRING is not terminated" % (who, off))
        x = xbparse.Node(); x.off = off; x.name = ident; x.type = t; x.raw = raw; x.attrs = []; x.children = []; x.span = x.end = x.height = 0
        if not (ident in (D.tags if want_element else D.params) or ident < -1 or (ident == -1 and want_element)): err("%s@%d: number %d is not registered" % (who, off, ident))
        x.ring = (nx, pv, fc, fa)
        return x
    def ring(first, want_element, who):
        out = []; off = first; prev = None
        while True:
            x = elem(off, want_element, who)
            if x is None: return out
            out.append(x)
            if x.ring[0] == first: break
            off = x.ring[0]
        for a, b in zip(out, out[1:] + out[:1]):
            if b.ring[1] != a.off: err("%s: element at %d follows %d, its prev is %d" % (who, b.off, a.off, b.ring[1]))
        return out
    if root == 0: err("no root"); return D
    D.root = elem(root, 1, "root")
    if D.root is None: return D
    if D.root.ring[0] != root or D.root.ring[1] != root: err("root has neighbours")
    st = [D.root]
    while st:
        x = st.pop()
        if x.ring[3]: x.attrs = [(a.name, a.type, a.raw) for a in ring(x.ring[3], 0, "attribute")]
        if x.ring[2]: x.children = ring(x.ring[2], 1, "element")
        st.extend(x.children)
    return D
