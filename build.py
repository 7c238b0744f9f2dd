"""Builds, from /repo's current working tree: the executor, the run-time models, the repository's bitcode, harness
bitcode and the native (AddressSanitizer) replay programs.  Objects are cached by the hash of everything they depend on."""
import concurrent.futures as cf, glob, hashlib, os, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PFS_REPO", "/repo")
CACHE = os.environ.get("PFS_CACHE", os.path.join(V, ".cache"))
CXX, CC = "/usr/bin/clang++-18", "/usr/bin/clang-18"
JOBS = int(os.environ.get("PFS_JOBS", "8"))
_pool = cf.ThreadPoolExecutor(JOBS)
class BuildError(Exception):
    pass
def sha(*xs):
    h = hashlib.sha256()
    for x in xs:
        h.update(x if isinstance(x, bytes) else str(x).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]
def rd(p):
    with open(p, "rb") as f:
        return f.read()
def files(pat):
    return sorted(glob.glob(pat, recursive=True))
def nice_test(p):
    return not os.path.basename(p).startswith("Test") and "/test/" not in p[len(REPO):] and "/tests/" not in p[len(REPO):]
def repo_sources():
    s = []
    for d in ("parameter", "parameter/log", "xmlserializer", "utility", "utility/posix"):
        s += files(f"{REPO}/{d}/*.cpp")
    s += [p for p in files(f"{REPO}/remote-processor/*.cpp")]
    s += files(f"{REPO}/bindings/c/*.cpp")
    return [p for p in s if nice_test(p)]
def repo_headers():
    s = []
    for d in ("parameter", "xmlserializer", "utility", "remote-processor", "bindings/c", "asio"):
        for e in ("h", "hpp", "ipp"):
            s += files(f"{REPO}/{d}/**/*.{e}")
    s += files(f"{REPO}/tools/xmlGenerator/*.cpp") + files(f"{REPO}/remote-process/*.cpp") # programs that harnesses include
    return s
def gen_headers():
    g = os.path.join(CACHE, "gen")
    os.makedirs(g, exist_ok=True)
    exp = """#pragma once
#define {0}_EXPORT __attribute__((visibility("default")))
#define {0}_NO_EXPORT __attribute__((visibility("hidden")))
#define {0}_DEPRECATED __attribute__((__deprecated__))
#define {0}_DEPRECATED_EXPORT {0}_EXPORT {0}_DEPRECATED
#define {0}_DEPRECATED_NO_EXPORT {0}_NO_EXPORT {0}_DEPRECATED
"""
    out = {"parameter_export.h": exp.format("PARAMETER"), "remote_processor_export.h": exp.format("REMOTE_PROCESSOR"),
           "cparameter_export.h": exp.format("CPARAMETER"), "version.h": '#pragma once\n#define PARAMETER_FRAMEWORK_VERSION "v0.0.0"\n'}
    for n, t in out.items():
        p = os.path.join(g, n)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
    return g
def incs():
    return [f"-I{REPO}/{d}" for d in ("parameter", "parameter/include", "parameter/log/include", "xmlserializer", "utility", "remote-processor",
                                      "bindings/c", "tools/xmlGenerator")] + [f"-I{gen_headers()}", "-I/usr/include/libxml2"]
DEFS = ["-Dparameter_EXPORTS", "-Dremote_processor_EXPORTS", "-DASIO_STANDALONE", "-DASIO_DISABLE_THREADS_NOT"]
BCFLAGS = ["-O1", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-w", f"-I{V}/rt/include", f"-I{V}/rt",
           f"-I{V}/rt/asio", "-include", f"{V}/rt/pre.h"]
NATFLAGS = ["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-access-control", "-w", f"-I{V}/rt/asio"]
LOADER = [f"-Ddl{x}=pfs_n_dl{x}" for x in ("open", "sym", "close")]
_lock = threading.Lock()
def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd[:3]) + " ...\n" + p.stdout[-3000:])
def obj(src, cmd, key, ext):
    out = os.path.join(CACHE, "obj", sha(key, rd(src), src, *cmd) + ext)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}.{threading.get_ident()}"
        run(cmd + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out
def rthash():
    return sha(*[rd(p) for p in files(f"{V}/rt/**/*.*") if os.path.isfile(p)])
def hdrhash():
    return sha(*[rd(p) for p in repo_headers()], *[p for p in repo_headers()])
def harnhdr():
    return sha(*[rd(p) for p in files(f"{V}/harness/*.h") + files(f"{V}/harness/*.hpp")])
def engine():
    srcs = files(f"{V}/engine/*")
    d = os.path.join(CACHE, "engine-" + sha(*[rd(p) for p in srcs]))
    if not os.path.exists(d + "/pfsym"):
        os.makedirs(d, exist_ok=True)
        run(["make", "-s", "-j8", "-C", f"{V}/engine", f"B={d}"])
    return d + "/pfsym"
def rt_bc():
    k = rthash()
    js = []
    for s in ("rt.cpp", "xml.cpp"):
        js.append(_pool.submit(obj, f"{V}/rt/{s}", [CXX, "-std=c++17", "-fno-builtin"] + [f for f in BCFLAGS] + ["-I/usr/include/libxml2"], k, ".bc"))
    js.append(_pool.submit(obj, f"{V}/rt/rtc.c", [CC, "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-w", "-emit-llvm"], k, ".bc"))
    return js
def repo_bc():
    k = sha(rthash(), hdrhash())
    js = []
    for s in repo_sources():
        js.append(_pool.submit(obj, s, [CXX, "-std=c++11"] + BCFLAGS + incs() + DEFS, k, ".bc"))
    return js
def link_bc(jobs, name):
    fs = [j.result() for j in jobs]
    out = os.path.join(CACHE, "obj", sha(*fs) + f".{name}.bc")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}"
        run(["/usr/lib/llvm-18/bin/llvm-link", "-o", tmp] + fs)
        os.rename(tmp, out)
    return out
def harness_bc(name):
    k = sha(rthash(), hdrhash(), harnhdr())
    return _pool.submit(obj, f"{V}/harness/{name}.cpp", [CXX, "-std=c++14", "-fno-access-control"] + BCFLAGS + incs() + DEFS, k, ".bc")
def native_objs():
    k = hdrhash()
    return [_pool.submit(obj, s, [CXX, "-std=c++11", "-fPIC"] + NATFLAGS + LOADER + incs() + DEFS, k, ".o") for s in repo_sources()]
def native(name, objs=None):
    """path of the native replay program of one harness"""
    k = sha(hdrhash(), harnhdr())
    objs = objs or native_objs()
    h = _pool.submit(obj, f"{V}/harness/{name}.cpp", [CXX, "-std=c++14", "-fPIC"] + NATFLAGS + incs() + DEFS, k, ".o")
    n = _pool.submit(obj, f"{V}/native/native.cpp", [CXX, "-std=c++14", "-fPIC"] + NATFLAGS, k, ".o")
    p = _pool.submit(obj, f"{V}/native/plugin.cpp", [CXX, "-std=c++14", "-fPIC", "-O0", "-w"], k, ".o")
    fs = [j.result() for j in objs + [h, n]]
    d = os.path.join(CACHE, "native-" + name + "-" + sha(*fs, p.result()))
    if not os.path.exists(d + "/replay"):
        os.makedirs(d, exist_ok=True)
        run([CXX, "-shared", "-o", d + "/libpfsplugin.so", p.result()])
        # repository objects stay whole so that nothing the harness reaches by name is dropped
        run([CXX, "-fsanitize=address", "-rdynamic", "-fuse-ld=lld" if os.path.exists("/usr/bin/ld.lld-18") or os.path.exists("/usr/bin/ld.lld") else "-fuse-ld=bfd",
             "-o", d + "/replay.tmp"] + fs + ["-lxml2", "-ldl", "-lpthread"])
        os.rename(d + "/replay.tmp", d + "/replay")
    return d + "/replay"
if __name__ == "__main__":
    t = time.time()
    e = engine()
    r, q = rt_bc(), repo_bc()
    no = native_objs()
    print(link_bc(r, "rt"), link_bc(q, "repo"), time.time() - t)
    [j.result() for j in no]
    print("native", time.time() - t)
    for h in sys.argv[1:]:
        print(h, harness_bc(h).result(), native(h, no), time.time() - t)
