#!/usr/bin/env python3
"""Builds harnesses of /verif together with the sources of /repo's working tree.

Objects are cached by content (source + every non-system dependency + flags), so
nothing depends on time stamps, and a cold cache only costs time.
"""
import hashlib, json, os, re, subprocess, sys, glob, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
S = REPO + "/src"
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/.build")
CXX, CC = "/usr/bin/g++", "/usr/bin/gcc"
JOBS = os.cpu_count() or 4

# ---------------------------------------------------------------- config headers
IDS = dict(EMPTY=0, OBJECT=1, LIST=2, INT8=3, INT16=4, INT32=5, INT64=6, UINT8=7,
           UINT16=8, UINT32=9, UINT64=10, FLOAT32=11, FLOAT64=12, CHAR8_STR=13)


def cfg_vars():
    ver = "0.0.0"
    for l in open(S + "/CMakeLists.txt"):
        m = re.match(r'project\(conduit VERSION "([0-9.]+)"', l)
        if m:
            ver = m.group(1)
    maj, mi, pa = (ver.split(".") + ["0", "0"])[:3]
    v = dict(PROJECT_VERSION=ver, PROJECT_VERSION_MAJOR=maj, PROJECT_VERSION_MINOR=mi,
             PROJECT_VERSION_PATCH=pa, CONDUIT_INSTALL_PREFIX="/nonexistent",
             CONDUIT_GIT_SHA1="unknown", CONDUIT_GIT_SHA1_ABBREV="unknown",
             CONDUIT_GIT_TAG="unknown", CMAKE_SYSTEM="Linux", CMAKE_CXX_COMPILER=CXX,
             CONDUIT_FORTRAN_COMPILER="none", CONDUIT_USE_FMT="1", CONDUIT_USE_CXX11="1",
             CONDUIT_USE_CXX14="1", CONDUIT_RELAY_IO_HDF5_ENABLED="1",
             CONDUIT_RELAY_IO_SILO_ENABLED="1", CONDUIT_RELAY_MPI_ENABLED="1",
             CONDUIT_RELAY_SOURCE_DIR=S + "/libs/relay")
    for k, n in dict(CHAR=1, SHORT=2, INT=4, LONG=8, LONG_LONG=8, FLOAT=4, DOUBLE=8,
                     LONG_DOUBLE=16, VOID_P=8).items():
        v["CONDUIT_SIZEOF_" + k] = str(n)
    for k in ("HAS_LONG_LONG", "HAS_LONG_DOUBLE", "USE_CHAR", "USE_SHORT", "USE_INT",
              "USE_LONG", "USE_FLOAT", "USE_DOUBLE"):
        v["CONDUIT_" + k] = "1"
    for k, n in IDS.items():
        v["CONDUIT_%s_ID" % k] = str(n)
    nat = {8: "char", 16: "short", 32: "int", 64: "long"}
    for b, n in nat.items():
        v["CONDUIT_INT%d_TYPE" % b] = "conduit_signed_" + n
        v["CONDUIT_UINT%d_TYPE" % b] = "conduit_unsigned_" + n
        v["CONDUIT_INT%d_NATIVE_TYPE" % b] = "signed " + n
        v["CONDUIT_UINT%d_NATIVE_TYPE" % b] = "unsigned " + n
        for s, p in (("SIGNED", "INT"), ("UNSIGNED", "UINT")):
            v["CONDUIT_NATIVE_%s_%s_TYPE" % (s, n.upper())] = "conduit_%s%d" % (p.lower(), b)
            v["CONDUIT_NATIVE_%s_%s_ID" % (s, n.upper())] = str(IDS["%s%d" % (p, b)])
    for s, p in (("SIGNED", "INT"), ("UNSIGNED", "UINT")):
        v["CONDUIT_NATIVE_%s_LONG_LONG_TYPE" % s] = "conduit_%s64" % p.lower()
        v["CONDUIT_NATIVE_%s_LONG_LONG_ID" % s] = str(IDS[p + "64"])
    for b, n in ((32, "float"), (64, "double")):
        v["CONDUIT_FLOAT%d_TYPE" % b] = "conduit_" + n
        v["CONDUIT_FLOAT%d_NATIVE_TYPE" % b] = n
        v["CONDUIT_NATIVE_%s_TYPE" % n.upper()] = "conduit_float%d" % b
        v["CONDUIT_NATIVE_%s_ID" % n.upper()] = str(IDS["FLOAT%d" % b])
    return v


def gen_headers():
    v = cfg_vars()
    out = BUILD + "/gen"

    def sub(line):
        m = re.match(r"\s*#cmakedefine\s+(\w+)(.*)$", line)
        if m:
            if not v.get(m.group(1)):
                return "/* #undef %s */" % m.group(1)
            line = "#define " + m.group(1) + m.group(2)
        f = lambda m: v.get(m.group(1), "")
        line = re.sub(r"@(\w+)@", f, line)
        return re.sub(r"\$\{(\w+)\}", f, line)
    for h in ("conduit/conduit_config.h", "conduit/conduit_bitwidth_style_types.h",
              "conduit/conduit_exports.h", "relay/conduit_relay_config.h",
              "relay/conduit_relay_exports.h", "blueprint/conduit_blueprint_config.h",
              "blueprint/conduit_blueprint_exports.h"):
        txt = "\n".join(sub(l) for l in open("%s/libs/%s.in" % (S, h)).read().split("\n"))
        p = "%s/%s" % (out, h)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != txt:
            tmp = p + ".%d" % os.getpid()
            open(tmp, "w").write(txt)
            os.rename(tmp, p)
    return out


def includes(fake_mpi=False):
    g = BUILD + "/gen"
    T = S + "/thirdparty_builtin"
    inc = [VERIF + "/mc"]
    inc += ["%s/libs/%s" % (S, d) for d in ("conduit", "conduit/c", "relay", "relay/c",
                                            "blueprint", "blueprint/c")]
    inc += ["%s/%s" % (g, d) for d in ("conduit", "relay", "blueprint")]
    inc += [T + "/rapidjson/include", T + "/libb64-1.2.1/include", T + "/libyaml-690a781/include",
            T + "/fmt-7.1.0"]
    if fake_mpi:
        inc.append(VERIF + "/mc/fakempi")
    inc.append("/usr/include/hdf5/serial")
    return inc


# ---------------------------------------------------------------- source groups
def G(pat):
    return sorted(glob.glob(S + "/" + pat))


def group(name):
    """list of (source, extra flags)"""
    L = S + "/libs/"
    T = S + "/thirdparty_builtin/"
    if name == "core":
        r = G("libs/conduit/*.cpp") + G("libs/conduit/c/*.cpp")
        r += [T + "libb64-1.2.1/src/cdecode.cpp", T + "libb64-1.2.1/src/cencode.cpp"]
        r += G("thirdparty_builtin/libyaml-690a781/src/*.c")
        return [(s, []) for s in r]
    if name == "blueprint":
        r = G("libs/blueprint/*.cpp") + G("libs/blueprint/c/*.cpp")
        return [(s, []) for s in r if not re.search(r"_blueprint_mpi|_exe\.cpp$", s)]
    if name == "relay":
        r = G("libs/relay/*.cpp") + G("libs/relay/c/*.cpp")
        return [(s, []) for s in r if not re.search(
            r"_relay_mpi|_exe\.cpp$|_adios\.cpp$|_zfp\.cpp$|_relay_web", s)]
    if name == "relay_mpi":
        return [(L + "relay/conduit_relay_mpi.cpp", ["-DVERIF_FAKE_MPI"])]
    if name == "blueprint_mpi":
        r = [s for s in G("libs/blueprint/*.cpp") if "_blueprint_mpi" in s]
        return [(s, ["-DVERIF_FAKE_MPI", "-DCONDUIT_BLUEPRINT_MPI_ENABLED"])
                for s in r if not re.search(r"parmetis", s)]
    if name == "relay_mpi_io":
        d = ["-DVERIF_FAKE_MPI", "-DCONDUIT_RELAY_IO_MPI_ENABLED"]
        return [(L + "relay/" + s + ".cpp", d) for s in (
            "conduit_relay_mpi_io", "conduit_relay_io_identify_protocol",
            "conduit_relay_io_blueprint", "conduit_relay_io_silo", "conduit_relay_io_hdf5")]
    raise KeyError(name)


VARIANTS = {
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "asan0": ["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g1"],
}
_hash_memo = {}


def fhash(p):
    h = _hash_memo.get(p)
    if h is None:
        h = hashlib.sha256(open(p, "rb").read()).hexdigest()
        _hash_memo[p] = h
    return h


def is_sys(p):
    return p.startswith("/usr/")


def compile_one(src, flags):
    isc = src.endswith(".c")
    fl = [f for f in flags if not (isc and f.startswith("-std="))]
    cmd0 = [CC if isc else CXX] + fl
    base = hashlib.sha256(("\0".join(cmd0) + "\0" + src).encode()).hexdigest()[:24]
    od = BUILD + "/obj"
    man = "%s/%s.deps" % (od, base)

    def key(deps):
        h = hashlib.sha256(base.encode())
        for d in deps:
            h.update(d.encode())
            h.update(fhash(d).encode())
        return "%s/%s-%s.o" % (od, base, h.hexdigest()[:24])
    if os.path.exists(man):
        try:
            deps = open(man).read().split("\n")
            o = key(deps)
            if os.path.exists(o):
                return o, False
        except OSError:
            pass
    tmp = "%s/%s.%d" % (od, base, os.getpid())
    cmd = cmd0 + ["-c", src, "-o", tmp + ".o", "-MD", "-MF", tmp + ".d"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
        raise SystemExit("BUILD-FAILED: " + src)
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted(set(os.path.abspath(d) for d in txt.split(":", 1)[1].split() if not is_sys(d)))
    o = key(deps)
    os.rename(tmp + ".o", o)
    open(tmp + ".m", "w").write("\n".join(deps))
    os.rename(tmp + ".m", man)
    os.remove(tmp + ".d")
    return o, True


def build(exe_name, harness, groups, variant="asan", libs=(), fake_mpi=False, extra=()):
    gen_headers()
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    if any(g in ("relay_mpi", "blueprint_mpi", "relay_mpi_io") for g in groups):
        fake_mpi = True
    base = VARIANTS[variant] + ["-std=gnu++14", "-fPIC", "-w"]
    inc = ["-I" + i for i in includes(False)]
    inc_mpi = ["-I" + i for i in includes(True)]
    jobs = []
    for g in groups:
        for s, ex in group(g):
            if "-DVERIF_FAKE_MPI" in ex:
                jobs.append((s, base + ex + inc_mpi))
            else:
                jobs.append((s, base + inc))
    for h in harness:
        jobs.append((h, base + list(extra) + (inc_mpi if fake_mpi else inc)))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    objs = [o for o, _ in res]
    h = hashlib.sha256(("\0".join(objs) + "\0".join(libs) + variant).encode()).hexdigest()[:16]
    exe = "%s/bin/%s-%s" % (BUILD, exe_name, h)
    if not os.path.exists(exe):
        for old in glob.glob("%s/bin/%s-*" % (BUILD, exe_name)):
            try:
                os.remove(old)
            except OSError:
                pass
        rsp = exe + ".rsp"
        open(rsp, "w").write("\n".join(objs))
        cmd = [CXX] + VARIANTS[variant] + ["@" + rsp, "-o", exe + ".tmp"] + list(libs) + \
              ["-lpthread", "-ldl", "-lrt"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.remove(rsp)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[-6000:])
            raise SystemExit("LINK-FAILED: " + exe_name)
        os.rename(exe + ".tmp", exe)
    return exe, sum(1 for _, n in res if n), len(res)
