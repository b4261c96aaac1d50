"""Mirrors /repo's sources into the build folder (only files whose content differs) and builds
instrumented libraries and harnesses with ninja, incrementally."""
import fcntl, filecmp, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(ROOT, "build"))
SRC = os.path.join(BUILD, "src")

def sync(sub, exts=None):
    """make BUILD/src/<sub> an exact content copy of REPO/<sub>; touches only what differs"""
    srcdir, dstdir = os.path.join(REPO, sub), os.path.join(SRC, sub)
    changed = False
    seen = set()
    for d, dirs, files in os.walk(srcdir):
        dirs[:] = [x for x in dirs if x not in ("__pycache__", ".git")]
        rel = os.path.relpath(d, srcdir)
        for f in files:
            if f.endswith(".pyc"):
                continue
            s = os.path.join(d, f)
            t = os.path.normpath(os.path.join(dstdir, rel, f))
            seen.add(t)
            if not os.path.exists(t) or not filecmp.cmp(s, t, shallow=False):
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(s, t)
                changed = True
    for d, dirs, files in os.walk(dstdir):
        for f in files:
            t = os.path.normpath(os.path.join(d, f))
            if t not in seen:
                os.remove(t)
                changed = True
    return changed

LIBS = ["ir", "dd", "zx", "algorithms", "circuit_optimizer", "qasm3", "na", "datastructures"]

# harness -> libraries
HARNESS = {}

def harness(name, libs, extra=()):
    HARNESS[name] = (libs, extra)

BASE = ("-std=c++17 -O1 -gline-tables-only -fno-omit-frame-pointer -DNDEBUG -DMQT_CORE_VERIF_GC "
        "-fsanitize=address,undefined -fno-sanitize-recover=all -w")

# the interpreter the package is built for (the sandbox's own, with Qiskit)
PYTHON = "/opt/vp/venv/bin/python"
PYSITE = "/opt/vp/venv/lib/python3.12/site-packages"
PYINC = "/usr/include/python3.12"
PYEXT = ".cpython-312-x86_64-linux-gnu.so"
PYDIR = os.path.join(BUILD, "py")

_PYENV = {}

def python_env():
    if _PYENV:
        return _PYENV
    rt = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    _PYENV.update({"LD_PRELOAD": rt, "PYTHONMALLOC": "malloc", "PYTHONPATH": PYDIR + ":" + os.path.join(ROOT, "harness"),
            "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
            "QISKIT_PARALLEL": "FALSE", "RAYON_NUM_THREADS": "1"})
    return _PYENV

def prepare_python():
    """the extension modules and the Python files of the package, side by side"""
    ok, out = build(["python"])
    if not ok:
        ok, out = build(["python"])
    if ok:
        with Lock():
            d = os.path.join(PYDIR, "mqt", "core")
            s = os.path.join(SRC, "src", "mqt", "core")
            keep = set()
            for a, dirs, files in os.walk(s):
                for f in files:
                    if f.endswith(".py"):
                        r = os.path.relpath(os.path.join(a, f), s)
                        keep.add(r)
                        t = os.path.join(d, r)
                        if not os.path.exists(t) or not filecmp.cmp(os.path.join(a, f), t, shallow=False):
                            os.makedirs(os.path.dirname(t), exist_ok=True)
                            shutil.copyfile(os.path.join(a, f), t)
            for a, dirs, files in os.walk(d):
                for f in files:
                    r = os.path.relpath(os.path.join(a, f), d)
                    if f.endswith(".py") and r not in keep and r != "_version.py":
                        os.remove(os.path.join(a, f))
            v = os.path.join(d, "_version.py")
            if not os.path.exists(v):
                with open(v, "w") as f:
                    f.write("version = '0.0.0'\nversion_tuple = (0, 0, 0)\n")
    return ok, out

def gen_ninja():
    L = []
    w = L.append
    cc = "clang++"
    if shutil.which("ccache"):
        cc = "ccache clang++"
    inc = f"-I{SRC}/include/mqt-core -I{ROOT}/harness -I{ROOT}/harness/shim"
    w(f"cxx = {cc}")
    w(f"cflags = {BASE} {inc}")
    w(f"lflags = -fsanitize=address,undefined -fuse-ld=lld")
    w("rule cxx\n  command = $cxx $cflags $xflags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out")
    w("rule link\n  command = clang++ $lflags $xflags -o $out $in\n  description = LINK $out")
    objs = {}
    for lib in LIBS:
        d = os.path.join(SRC, "src", lib)
        objs[lib] = []
        for dd, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith(".cpp"):
                    s = os.path.join(dd, f)
                    o = "obj/" + os.path.relpath(s, os.path.join(SRC, "src")) + ".o"
                    w(f"build {o}: cxx {s}")
                    objs[lib].append(o)
    # the MLIR dialect: generated headers, then the library
    mlir = "/usr/lib/llvm-20"
    gen = os.path.join(BUILD, "mlirgen")
    msrc = os.path.join(SRC, "mlir")
    mflags = f"-I{gen} -I{msrc}/include -isystem {mlir}/include -fno-sanitize=vptr,function -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
    w(f"rule tblgen\n  command = {mlir}/bin/mlir-tblgen $args -I {msrc}/include -I {mlir}/include $in -d $out.d -o $out --write-if-changed && touch $out\n  depfile = $out.d\n  deps = gcc\n  description = TBLGEN $out")
    incs = []
    ir = "mlir/Dialect/MQTOpt/IR"
    for td, f, args in [("MQTOptOps", "MQTOptOps.h.inc", "-gen-op-decls"), ("MQTOptOps", "MQTOptOps.cpp.inc", "-gen-op-defs"),
                        ("MQTOptOps", "MQTOptOpsTypes.h.inc", "-gen-typedef-decls -typedefs-dialect=mqtopt"),
                        ("MQTOptOps", "MQTOptOpsTypes.cpp.inc", "-gen-typedef-defs -typedefs-dialect=mqtopt"),
                        ("MQTOptOps", "MQTOptOpsDialect.h.inc", "-gen-dialect-decls -dialect=mqtopt"),
                        ("MQTOptOps", "MQTOptOpsDialect.cpp.inc", "-gen-dialect-defs -dialect=mqtopt"),
                        ("MQTOptInterfaces", "MQTOptInterfaces.h.inc", "-gen-op-interface-decls"),
                        ("MQTOptInterfaces", "MQTOptInterfaces.cpp.inc", "-gen-op-interface-defs")]:
        incs.append((f"mlirgen/{ir}/{f}", f"{msrc}/include/{ir}/{td}.td", args))
    tr = "mlir/Dialect/MQTOpt/Transforms"
    incs.append((f"mlirgen/{tr}/Passes.h.inc", f"{msrc}/include/{tr}/Passes.td", "-gen-pass-decls -name MQTOpt"))
    for o, i, args in incs:
        w(f"build {o}: tblgen {i}\n  args = {args}")
    order = " ".join(o for o, _, _ in incs)
    objs["mlir"] = []
    for dd, _, files in sorted(os.walk(os.path.join(msrc, "lib"))):
        for f in sorted(files):
            if f.endswith(".cpp"):
                s = os.path.join(dd, f)
                o = "obj/mlir/" + os.path.relpath(s, os.path.join(msrc, "lib")) + ".o"
                w(f"build {o}: cxx {s} || {order}\n  xflags = {mflags}")
                objs["mlir"].append(o)
    for name, (libs, extra) in HARNESS.items():
        src = os.path.join(ROOT, "harness", name + ".cpp")
        if not os.path.exists(src):
            continue
        o = f"obj/harness/{name}.o"
        fuzz = "fuzz" in extra
        w(f"build {o}: cxx {src}" + (f" || {order}" if "mlir" in libs else ""))
        if "mlir" in libs:
            w(f"  xflags = {mflags}")
        if fuzz:
            w("  xflags = -fsanitize=fuzzer-no-link")
        ins = " ".join([o] + [x for l in libs for x in objs[l]])
        w(f"build bin/{name}: link {ins}")
        if "mlir" in libs:
            w(f"  xflags = -L{mlir}/lib -Wl,-rpath,{mlir}/lib -lMLIR -lLLVM")
        if fuzz:
            w("  xflags = -fsanitize=fuzzer")
    # the Python package: core library and the two extension modules
    pyb = f"-isystem {PYSITE}/pybind11/include -isystem {PYINC} -fPIC -fno-sanitize=vptr,function"
    so = []
    for lib in ("ir", "qasm3", "dd"):
        for o in objs[lib]:
            p = "obj/pic/" + o[4:]
            w(f"build {p}: cxx {os.path.join(SRC, 'src', o[4:-2])}\n  xflags = {pyb}")
            so.append(p)
    shared = "-shared -shared-libasan"
    w(f"build py/mqt/core/libvfcore.so: link {' '.join(so)}\n  xflags = {shared}")
    mods = []
    for mod in ("ir", "dd"):
        ms = []
        for dd, _, files in sorted(os.walk(os.path.join(SRC, "src", "python", mod))):
            for f in sorted(files):
                if f.endswith(".cpp"):
                    s = os.path.join(dd, f)
                    o = "obj/py/" + os.path.relpath(s, os.path.join(SRC, "src", "python")) + ".o"
                    w(f"build {o}: cxx {s}\n  xflags = {pyb}")
                    ms.append(o)
        so = f"py/mqt/core/{mod}{PYEXT}"
        w(f"build {so}: link {' '.join(ms)} | py/mqt/core/libvfcore.so\n  xflags = {shared} -Wl,--no-as-needed -Lpy/mqt/core -lvfcore -Wl,-rpath,'$$ORIGIN'")
        mods.append(so)
    w(f"build python: phony {' '.join(mods)}")
    out = "\n".join(L) + "\n"
    p = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(p) or open(p).read() != out:
        with open(p, "w") as f:
            f.write(out)

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def build(targets, timeout=800):
    """returns (ok, output)"""
    with Lock():
        sync("include")
        sync("src")
        sync("mlir")
        gen_ninja()
        env = dict(os.environ)
        env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
        env["CCACHE_MAXSIZE"] = "2G"
        env["CCACHE_BASEDIR"] = BUILD
        r = subprocess.run(["ninja", "-C", BUILD, "-j", str(os.cpu_count() or 4)] + targets, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode == 0, r.stdout
