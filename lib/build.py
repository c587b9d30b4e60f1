"""Builds the library, the command line tools and the harness drivers from /repo's working tree.

Everything goes to /verif/build/<variant>-<hash of sources+flags>/ (git-ignored).  /repo is only read.
"""
import glob, hashlib, os, subprocess, sys, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

INC = ["-I%s/include" % REPO, "-I%s/include/binary_xml/jsmn" % REPO, "-I/usr/include/libxml2", "-I%s/harness" % VERIF]
COMMON = ["-g", "-fPIC", "-DBIN_WRITE_PLUGIN", "-w"]
# null/alignment: the library tests `this` for null on purpose and reads 4-byte aligned 64-bit values on purpose;
# what must be aligned is decided by the checks on the produced files instead.
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=null,alignment,vptr,function,nonnull-attribute,returns-nonnull-attribute,pointer-overflow,enum",
       "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (cxx, cc, cflags, ldflags)
    "asan": ("clang++", "clang", ["-O1"] + SAN, SAN),
    "tsan": ("clang++", "clang", ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"], ["-fsanitize=thread", "-lpthread"]),
    "plain": ("g++", "gcc", ["-O0"], []),
}

# the reader's driver replaces file mapping by exact-size heap memory
LINK_EXTRA = {"reader": ["-Wl,--wrap=mmap,--wrap=mmap64,--wrap=munmap"], "files": ["-Wl,--wrap=read,--wrap=close,--wrap=mkdir,--wrap=readdir,--wrap=readdir64"]}

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        raise SystemExit(2)
    return p.stdout

def lib_sources():
    return sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/jsmn/*.c"))

def tree_hash(extra):
    h = hashlib.sha256()
    files = lib_sources() + sorted(glob.glob(REPO + "/include/**/*", recursive=True)) + sorted(glob.glob(REPO + "/src/tests/*"))
    for f in files + sorted(glob.glob(VERIF + "/harness/*")):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]

def build(variant, targets):
    """targets: list of harness names (harness/<name>.cpp) or 'tool:2xb' (src/tests/2xb.cpp). Returns {target: path}."""
    cxx, cc, cf_, ld = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "%s-%s" % (variant, tree_hash((cxx, cf_, COMMON))))
    if not os.path.isdir(d):
        for old in glob.glob(os.path.join(BUILD, variant + "-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    jobs = []
    objs = []
    for s in lib_sources():
        o = os.path.join(d, "lib_" + os.path.basename(s) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            comp = [cc] if s.endswith(".c") else [cxx, "-std=gnu++17"]
            jobs.append(comp + COMMON + cf_ + INC + ["-c", s, "-o", o])
    tobj = {}
    for t in targets:
        name = t.split(":")[-1]
        src = (REPO + "/src/tests/%s.cpp" % name) if t.startswith("tool:") else os.path.join(VERIF, "harness", name + ".cpp")
        o = os.path.join(d, "t_" + t.replace(":", "_") + ".o")
        tobj[t] = o
        if not os.path.exists(o):
            jobs.append([cxx, "-std=gnu++17"] + COMMON + cf_ + INC + ["-c", src, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        def one(c):
            o = c[-1]
            c = c[:-1] + [o + ".tmp"]
            sh(c)
            os.rename(o + ".tmp", o)
        list(ex.map(one, jobs))
    res = {}
    links = []
    for t in targets:
        exe = os.path.join(d, t.replace(":", "_"))
        res[t] = exe
        if not os.path.exists(exe):
            links.append((exe, [cxx] + cf_ + [tobj[t]] + objs + ld + ["-lxml2", "-ldl"] + LINK_EXTRA.get(t, []) + ["-o", exe + ".tmp"]))
    with cf.ThreadPoolExecutor(8) as ex:
        def lk(a):
            sh(a[1]); os.rename(a[0] + ".tmp", a[0])
        list(ex.map(lk, links))
    return res

def build_preload(name):
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "harness", name + ".c")
    with open(src, "rb") as fh:
        hh = hashlib.sha256(fh.read()).hexdigest()[:12]
    so = os.path.join(BUILD, "%s-%s.so" % (name, hh))
    if not os.path.exists(so):
        sh(["gcc", "-O1", "-g", "-shared", "-fPIC", "-w", src, "-ldl", "-o", so + ".tmp"])
        os.rename(so + ".tmp", so)
    return so

def san_env(extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:handle_segv=1:strict_string_checks=0:max_allocation_size_mb=2048:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1:die_after_fork=0:report_signal_unsafe=0:history_size=4"
    e["TZ"] = "UTC"; e["LC_ALL"] = "C.UTF-8"
    if extra: e.update(extra)
    return e

if __name__ == "__main__":
    import time
    t = time.time()
    v = sys.argv[1]
    print(build(v, sys.argv[2:]), time.time() - t)
