"""Builds the C library of /repo's working tree (plus a harness) into /verif/build, keyed by content."""
import hashlib, os, subprocess, glob, sys, tempfile, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PETSC = "/opt/petsc-3.17.3"

ENV = dict(os.environ)
ENV.update(HOME=ENV.get("HOME", "/root"), PETSC_DIR=PETSC, OMPI_ALLOW_RUN_AS_ROOT="1",
           OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMP_NUM_THREADS="1")

def _pcvars():
    """compile and link flags of the installed PETSc"""
    out = subprocess.run(["make", "-s", "-f", "-", "p"], input=(
        "include %s/lib/petsc/conf/variables\n"
        "p:\n\t@echo 'CC=$(PCC)'\n\t@echo 'CCPP=$(PETSC_CC_INCLUDES)'\n\t@echo 'LIB=$(PETSC_LIB)'\n" % PETSC),
        capture_output=True, text=True, env=dict(ENV, PETSC_DIR=PETSC), check=True).stdout
    d = dict(l.split("=", 1) for l in out.splitlines() if "=" in l)
    return d

_pv = None
def pv():
    global _pv
    if _pv is None:
        _pv = _pcvars()
    return _pv

CONFIGS = {
    # plain: as shipped (debug), for behaviour; asan: memory errors become crashes
    "asan": ["-g1", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": ["-g1", "-O1"],
}
COMMON = ["-fPIC", "-w", "-fvisibility=default", "-DVERIF_HARNESS=1"]

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def repo_sources():
    pats = ["src/fv/share/*.c", "src/fv/mpfao/*.c", "src/fv/fvtpf/*.c", "src/fe/*.c", "src/materials/*.c",
            "src/*.c"]
    r = []
    for p in pats:
        r += sorted(glob.glob(os.path.join(REPO, p)))
    return r

def _headers_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "include")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, "rb").read())
    for p in sorted(glob.glob(os.path.join(REPO, "src/**/*.h"), recursive=True)):
        h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def _compile(src, flags, hh, extra=b""):
    cpp = pv()["CCPP"].split()
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
    key = _sha(open(src, "rb").read(), " ".join(flags + cpp + inc), hh, extra, os.path.basename(src))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    r = subprocess.run(["mpicc"] + COMMON + flags + inc + cpp + ["-c", src, "-o", tmp], capture_output=True, text=True, env=ENV)
    if r.returncode != 0:
        raise RuntimeError("compile failed: %s\n%s" % (src, r.stderr[-4000:]))
    os.replace(tmp, obj)
    return obj

def build(harness, config="asan", defines=()):
    """compile harness/<harness>.c with all of /repo's C sources; return the executable's path"""
    flags = CONFIGS[config] + list(defines)
    hh = _headers_hash()
    hsrcs = [os.path.join(VERIF, "harness", harness + ".c")]
    vh = b"".join(open(p, "rb").read() for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))))
    srcs = repo_sources()
    with ThreadPoolExecutor(8) as ex:
        fo = [ex.submit(_compile, s, CONFIGS[config], hh) for s in srcs]
        fh = [ex.submit(_compile, s, flags, hh, vh) for s in hsrcs]
        objs = [f.result() for f in fo]
        hobjs = [f.result() for f in fh]
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (harness, config, _sha(*(objs + hobjs))))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        # an archive of the library, so that a harness only pulls in what it uses
        lib = pv()["LIB"].split()
        r = subprocess.run(["mpicc"] + CONFIGS[config] + ["-o", tmp] + hobjs + objs + lib + ["-lm"],
                           capture_output=True, text=True, env=ENV)
        if r.returncode != 0:
            raise RuntimeError("link failed: %s\n%s" % (harness, r.stderr[-4000:]))
        os.replace(tmp, exe)
    return exe

def prune(max_files=1500):
    d = os.path.join(BUILD, "obj")
    if os.path.isdir(d):
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
        for f in fs[:-max_files]:
            os.unlink(f)
    d = os.path.join(BUILD, "bin")
    if os.path.isdir(d):
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
        for f in fs[:-120]:
            os.unlink(f)

if __name__ == "__main__":
    for h in sys.argv[1:]:
        print(build(h))
