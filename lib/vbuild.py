"""Builds LLVM bitcode of /repo's current sources plus a harness, for the symbolic executor, and native replay binaries."""
import hashlib, os, re, subprocess, sys, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
BC = os.path.join(BUILD, "bc")
INC = os.path.join(BUILD, "include")

CLANG, CLANGXX = "/usr/bin/clang", "/usr/bin/clang++"
# config switches of the symbolic build (the optional third-party services are left out)
CONFIG_ON = {"CALIPER_HAVE_SAMPLER": False}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    return p.stdout


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    tmp = path + ".%d" % os.getpid()
    open(tmp, "w").write(text)
    os.rename(tmp, path)


def make_config():
    src = open(os.path.join(REPO, "caliper-config.h.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    def ver(n):
        m = re.search(r"set\(CALIPER_%s_VERSION\s+(\d+)\)" % n, cm)
        return m.group(1) if m else "0"
    vals = {"CALIPER_MAJOR_VERSION": ver("MAJOR"), "CALIPER_MINOR_VERSION": ver("MINOR"), "CALIPER_PATCH_VERSION": ver("PATCH")}
    vals["CALIPER_VERSION"] = ".".join([vals["CALIPER_MAJOR_VERSION"], vals["CALIPER_MINOR_VERSION"], vals["CALIPER_PATCH_VERSION"]]) + "-dev"
    out = re.sub(r"#cmakedefine (\w+).*", lambda m: ("#define " + m.group(1)) if CONFIG_ON.get(m.group(1)) else "/* #undef %s */" % m.group(1), src)
    out = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), ""), out)
    write_if_changed(os.path.join(INC, "caliper", "caliper-config.h"), out)
    # the list of services is generated by cmake; here the harness supplies it
    write_if_changed(os.path.join(INC, "services.inc.cpp"), "namespace cali { const CaliperService* verif_services(); namespace services { void add_default_service_specs() { add_service_specs(verif_services()); } } }\n")


def tree_hash():
    h = hashlib.sha256()
    for root in ("include", "src", "ext"):
        for d, dn, fs in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc", ".in")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    for p in sorted(glob.glob(os.path.join(VERIF, "runtime", "*.h")) + glob.glob(os.path.join(VERIF, "harness", "*.h")) + glob.glob(os.path.join(VERIF, "harness", "*.inc"))):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


_tree = None
_lock = threading.Lock()


def includes(extra=()):
    l = [INC, os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "src/common"), os.path.join(VERIF, "runtime"), os.path.join(VERIF, "harness"), REPO] + list(extra)
    r = []
    for i in l:
        r += ["-I", i]
    return r


BCFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fwrapv",
           "-fno-threadsafe-statics-DISABLED", "-fPIC", "-w"]
BCFLAGS = [f for f in BCFLAGS if "DISABLED" not in f]


def compile_bc(src, defs=(), extra_inc=(), flags=()):
    """compile one source to bitcode; cached by content"""
    global _tree
    with _lock:
        if _tree is None:
            make_config()
            _tree = tree_hash()
    os.makedirs(BC, exist_ok=True)
    cxx = not src.endswith(".c")
    cmd = [CLANGXX if cxx else CLANG] + BCFLAGS + (["-std=c++11"] if cxx and not any(f.startswith("-std") for f in flags) else []) + list(flags) + ["-D" + d for d in defs] + includes(list(extra_inc) + geninc(src))
    h = hashlib.sha256((_tree + " ".join(cmd) + src).encode() + open(src, "rb").read()).hexdigest()[:24]
    out = os.path.join(BC, os.path.basename(src) + "." + h + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        run(cmd + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out


OPT = "sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,early-cse,instcombine<no-verify-fixpoint>,simplifycfg"


def link(harness_bc, others, entries, out):
    """link, drop unreachable code, light clean-up passes (no inlining of project code)"""
    tmp = out + ".link.bc"
    # harness and runtime model override weak definitions
    run(["llvm-link-18", "-o", tmp] + [harness_bc] + others)
    run(["opt-18", "-passes=internalize,globaldce,always-inline,function(%s),globaldce" % OPT, "-internalize-public-api-list=" + ",".join(entries), tmp, "-o", out])
    os.unlink(tmp)
    return out


COMMON = ["src/common/" + f for f in ("Attribute.cpp CaliperMetadataAccessInterface.cpp CompressedSnapshotRecord.cpp Entry.cpp Log.cpp Node.cpp NodeBuffer.cpp OutputStream.cpp RuntimeConfig.cpp SnapshotBuffer.cpp SnapshotTextFormatter.cpp StringConverter.cpp Variant.cpp cali_types.c cali_variant.c util/demangle.cpp util/file_util.cpp util/format_util.cpp util/parse_util.cpp util/unitfmt.c util/vlenc.c").split()]


def exists(l):
    return [os.path.join(REPO, f) for f in l if os.path.exists(os.path.join(REPO, f))]


def globsrc(*pats):
    r = []
    for p in pats:
        r += sorted(glob.glob(os.path.join(REPO, p)))
    return [x for x in r if "/test/" not in x]


def gen_mpi_wrapper():
    """the MPI wrapper functions, generated from Wrapper.w by the repository's own generator against harness/mpi.h"""
    d = os.path.join(REPO, "src/services/mpiwrap")
    srcs = [os.path.join(d, "wrap.py"), os.path.join(d, "Wrapper.w"), os.path.join(VERIF, "harness", "mpi.h")]
    h = hashlib.sha256("".join(open(s).read() for s in srcs).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "gen", h, "Wrapper.cpp")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        run([sys.executable, srcs[0], "-wG", "-c", CLANG, "-I", os.path.join(VERIF, "harness"), "-o", tmp, srcs[1]])
        os.rename(tmp, out)
    return out


def geninc(src):
    if src.startswith(os.path.join(BUILD, "gen")):
        return [os.path.join(REPO, "src/services/mpiwrap"), os.path.join(REPO, "ext/gotcha/include")]
    if "/src/services/" in src:
        return [os.path.join(REPO, "ext/gotcha/include"), os.path.join(REPO, "src/services/io/CurIOus/include")]
    return []


def group(name):
    if name == "common":
        return globsrc("src/common/*.cpp", "src/common/*.c", "src/common/util/*.cpp", "src/common/util/*.c")
    if name == "reader":
        return globsrc("src/reader/*.cpp")
    if name == "caliper":
        return [s for s in globsrc("src/caliper/*.cpp") if not re.search(r"(_mpi|MpiChannel|OutputCommMpi|aggregate_over|collective_flush|setup_mpi|machine_mpi|CollectiveOutputChannel)", os.path.basename(s))]
    if name == "mpiwrap":
        return globsrc("src/services/mpiwrap/*.cpp") + [gen_mpi_wrapper()]
    if name == "services":
        return globsrc("src/services/Services.cpp")
    return globsrc(name)


# ---------------------------------------------------------------- engine
def build_engine():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "engine"), "BUILD=" + BUILD])
    return os.path.join(BUILD, "symx")


# ---------------------------------------------------------------- native replay binaries
NAT = os.path.join(BUILD, "nat")
NATFLAGS = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fwrapv", "-fPIC", "-w", "-pthread"]


def compile_nat(src, defs=(), extra_inc=(), flags=(), san="address"):
    global _tree
    with _lock:
        if _tree is None:
            make_config()
            _tree = tree_hash()
    os.makedirs(NAT, exist_ok=True)
    cxx = not src.endswith(".c")
    cmd = [CLANGXX if cxx else CLANG] + [f.replace("=address", "=" + san) for f in NATFLAGS] + (["-std=c++11"] if cxx and not any(f.startswith("-std") for f in flags) else []) + list(flags) + ["-D" + d for d in defs] + includes(list(extra_inc) + geninc(src))
    h = hashlib.sha256((_tree + " ".join(cmd) + src).encode() + open(src, "rb").read()).hexdigest()[:24]
    out = os.path.join(NAT, os.path.basename(src) + "." + h + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        run(cmd + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out


HFLAGS = ["-std=c++17", "-fno-access-control"]


def sources(groups, exclude=()):
    """list of (source, macros); a group "PATTERN|A,B" compiles its sources with the macros A and B"""
    r = {}
    for g in groups:
        g, _, defs = g.partition("|")
        for s in group(g):
            if not any(re.search(e, s) for e in exclude) and (defs or s not in r):
                r[s] = tuple(defs.split(",")) if defs else ()
    return list(r.items())


def build_bc(harness, groups, entries, exclude=(), defs=()):
    """bitcode of harness + runtime model + the repository sources, linked and stripped to what the entries reach"""
    srcs = sources(groups, exclude)
    jobs = [(harness, HFLAGS, defs)] + [(os.path.join(VERIF, "runtime", f), ["-std=c++17", "-fno-access-control", "-fno-builtin"], ()) for f in ("rt.cpp", "rt_c.cpp")]
    jobs += [(os.path.join(VERIF, "runtime", "rt11.cpp"), [], ())] + [(s, [], d) for s, d in srcs]
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda j: compile_bc(j[0], flags=j[1], defs=j[2]), jobs))
    h = hashlib.sha256("|".join(bcs + list(entries) + [OPT]).encode()).hexdigest()[:24]
    out = os.path.join(BC, "linked_" + os.path.basename(harness) + "." + h + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        link(bcs[0], bcs[1:], entries, tmp)
        os.rename(tmp, out)
    return out


def build_nat(harness, groups, exclude=(), defs=(), san="address"):
    srcs = sources(groups, exclude)
    jobs = [(harness, HFLAGS, defs), (os.path.join(VERIF, "runtime", "native.cpp"), ["-std=c++17"], ())] + [(s, [], d) for s, d in srcs]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_nat(j[0], flags=j[1], defs=j[2], san=san), jobs))
    h = hashlib.sha256("|".join(objs).encode()).hexdigest()[:24]
    out = os.path.join(NAT, os.path.basename(harness) + "." + h + ".exe")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        lib = tmp + ".a"
        run(["ar", "rcs", lib] + objs[2:])
        run([CLANGXX, "-fsanitize=" + san, "-pthread", "-rdynamic", "-o", tmp, objs[0], objs[1], lib, "-ldl"])
        os.unlink(lib)
        os.rename(tmp, out)
    return out
