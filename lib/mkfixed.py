#!/usr/bin/env python3
"""Rewrites the list of repaired defects in known_findings.json from the history of /repo and the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# beginning of the message after "fix: " -> property whose check reported it
T = """json: size of source=C07|reader: file which was refused=X02|creator: process was aborted=C07|creator: documents nested=W04|packer: GetXB=U04|import of names=W09|XBT_Equal used stack=T06|WriteToFile left=U05|force_directory=U05|scan_dir=U05|text converted by tagData=W01|tagData left=W01|printing of XML and JSON=C08|JSON document could not be converted to writable=W08|converting to writable=W08|dates: 31st December=T05|dates: years before=T05|times: impossible times=T05|times: time zone shift=T05|times: impossible time zones=T05|scanners: numbers=U03|types: decimal=T01|types: INT64 min=T01|types: UNIX_TIME64=T01|types: GUID=T01|types: each line=T04|types: announced=T03|types: IPv4=T06|types: UNIX_DATE was=T06|types: HEX text=T01|types: UINT32=T01|types: XBT_Copy=T03|types: XBT_FromString=T03|types: empty BLOB=T03|base64=U01|types: text which=T02|types: texts similar=T02|dates: scanning=U03|utils: extension=U04|utils: Int64=U01|utils: wildcard=U03|scanners: IPv4=U03|utils: StrWrite=U03|sorting: qsort=U02|sorting: merge=U02|file_getsha1=U02|creator: size of=C01|creator: symbol=C01|creator: unknown names=C06|creator: unknown source=C06|creator: values of=C01|json: esc=C05|xml: text divided=C01|packer: index=C02|packer: moved=C02|reader: damaged=R03|reader: getInt=R02|xml: white=C01|xml: &=C01|date of the lowest=T05|unterminated=T03|unregistering=W02|names of writable=W01|registration=W02|pool of=W03|too big=W03|setting of value=W01|null text=W01|setting of time=W01|time of writable=W01|value of element=W01|longer text=W01|search by text=W01|element without attributes=W01|foreign file=W02|writable document was=W02|contradictory=W02|clearing=W06|elements with different=W07|copy from=W07|value of the last=W07|replacing=W01|refusing=W02|name refused=W03|text of BLOB_STRING=W04"""
T = dict(x.split("=") for x in T.split("|"))
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    k = [p for m, p in T.items() if s[5:].startswith(m)]
    if len(k) != 1: print("?", l, k); continue
    out.append("fixed: property=%s %s %s" % (k[0], h, s[5:]))
p = os.path.join(V, "known_findings.json"); d = json.load(open(p)); d["fixed"] = out; json.dump(d, open(p, "w"), indent=1); print(len(out))
