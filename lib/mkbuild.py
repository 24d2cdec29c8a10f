#!/usr/bin/env python3
"""Build the Cantera C++ library and Python package from /repo's working tree.

Sources are mirrored by content into .build/src (a file is rewritten only when its
content differs), so the incremental build depends on what the tree says and not on
its time stamps.  Objects are made with ninja, through ccache when it is there.

  mkbuild.py py           shared library + Python package  (.build/py)
  mkbuild.py san          address/undefined sanitized shared library (.build/san)
"""
import filecmp, os, re, shutil, subprocess, sys, fcntl, time
from pathlib import Path
from textwrap import indent

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("CT_REPO", "/repo"))
B = Path(os.environ.get("CT_BUILD", VERIF / ".build"))
VENV = "/opt/cantera-venv/bin/python"
SRC = B / "src"

CONFIG = {
    "CANTERA_VERSION": '#define CANTERA_VERSION "3.2.0a1"',
    "CANTERA_SHORT_VERSION": '#define CANTERA_SHORT_VERSION "3.2"',
    "FTN_TRAILING_UNDERSCORE": "#define FTN_TRAILING_UNDERSCORE 1",
    "LAPACK_FTN_STRING_LEN_AT_END": "#define LAPACK_FTN_STRING_LEN_AT_END 1",
    "LAPACK_FTN_TRAILING_UNDERSCORE": "#define LAPACK_FTN_TRAILING_UNDERSCORE 1",
    "CT_USE_LAPACK": "#define CT_USE_LAPACK 1",
    "CT_USE_SYSTEM_EIGEN": "#define CT_USE_SYSTEM_EIGEN 1",
    "CT_USE_SYSTEM_EIGEN_PREFIXED": "#define CT_USE_SYSTEM_EIGEN_PREFIXED 1",
    "CT_USE_SYSTEM_FMT": "#define CT_USE_SYSTEM_FMT 1",
    "CT_USE_SYSTEM_YAMLCPP": "#define CT_USE_SYSTEM_YAMLCPP 1",
    "CT_SUNDIALS_USE_LAPACK": "#define CT_SUNDIALS_USE_LAPACK 0",
}


def put(dst: Path, data: bytes):
    if dst.is_file() and dst.read_bytes() == data:
        return False
    dst.parent.mkdir(parents=True, exist_ok=True)
    tmp = dst.with_name(dst.name + ".tmp~")
    tmp.write_bytes(data)
    tmp.replace(dst)
    return True


def mirror(sub, dst, exts, skip=()):
    """Copy by content; delete what is no longer there."""
    root = REPO / sub
    want = set()
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        dirs[:] = [x for x in dirs if x not in ("__pycache__", "ext") and
                   os.path.normpath(os.path.join(rel, x)) not in skip]
        for f in files:
            if exts and not f.endswith(exts):
                continue
            r = os.path.normpath(os.path.join(rel, f))
            if r in skip:
                continue
            want.add(r)
            put(dst / r, Path(d, f).read_bytes())
    return want


def prune(dst, want, exts):
    for d, dirs, files in os.walk(dst):
        for f in files:
            r = os.path.relpath(os.path.join(d, f), dst)
            if f.endswith(exts) and r not in want:
                os.unlink(os.path.join(d, f))


def sync():
    w = mirror("src", SRC / "src", (".cpp", ".h", ".c"),
               skip=("fortran", "clib_experimental", "extensions/delegator.h"))
    prune(SRC / "src", w | {"extensions/delegator.h"}, (".cpp", ".h", ".c"))
    w = mirror("include", SRC / "include", (".h", ".in"),
               skip=("cantera/base/config.h",))
    prune(SRC / "include", w | {"cantera/base/config.h"}, (".h",))
    txt = (REPO / "include/cantera/base/config.h.in").read_text()
    txt = re.sub(r"\{(\w+)!s\}",
                 lambda m: CONFIG.get(m[1], f"/* #undef {m[1]} */"), txt)
    put(SRC / "include/cantera/base/config.h", txt.encode())
    py = B / "py/cantera"
    exts = (".py", ".pyx", ".pxd", ".in", "_utils.h")
    w = mirror("interfaces/cython/cantera", py, exts)
    # the with_units layer, from its template
    sys.dont_write_bytecode = True
    ns = {"__name__": "uib"}
    code = (REPO / "site_scons/site_tools/UnitsInterfaceBuilder.py").read_text()
    exec(compile(code, "UnitsInterfaceBuilder.py", "exec"), ns)
    common, thermo, pure = ns["get_property_definition_strings"]()
    t = (REPO / "interfaces/cython/cantera/with_units/solution.py.in").read_text()
    for k, v in (("common", common), ("thermophase", thermo), ("purefluid", pure)):
        t = t.replace(f"@{k}_properties@", indent(v.strip(), " " * 4))
    put(py / "with_units/solution.py", t.encode())
    prune(py, w | {"with_units/solution.py"}, (".py", ".pyx", ".pxd"))
    w = mirror("data", py / "data", (".yaml", ".dat", ".inp"))
    prune(py / "data", w, (".yaml",))


def pyinfo():
    return subprocess.run(
        [VENV, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);"
         "print(numpy.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"],
        capture_output=True, text=True, check=True).stdout.split()


def ninja(san=False):
    cc = shutil.which("ccache") or ""
    n = []
    w = n.append
    if san:
        cxx = "clang++"
        # function-type and vptr checks need RTTI of other libraries; enough without
        flags = ("-std=c++17 -pthread -O1 -g1 -fno-omit-frame-pointer -w -fPIC -DNDEBUG "
                 "-fsanitize=address,undefined,fuzzer-no-link "
                 "-fno-sanitize=vptr,function,float-divide-by-zero "
                 "-fno-sanitize-recover=undefined")
        ld = "-fsanitize=address,undefined -shared-libasan"
    else:
        cxx = "g++"
        flags = "-std=c++17 -pthread -O2 -w -fPIC -DNDEBUG"
        ld = ""
    od = "osan" if san else "obj"
    inc = f"-Isrc/include -Isrc/src -I/usr/include/eigen3"
    w("ninja_required_version = 1.5")
    w(f"builddir = d{'san' if san else 'py'}")
    w(f"cxx = {cc} {cxx}")
    w(f"flags = {flags} {inc}")
    w("rule cxx\n  command = $cxx -MMD -MF $out.d $flags $extra -c $in -o $out\n"
      "  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    w(f"rule link\n  command = {cxx} -shared -pthread {ld} -o $out $in $libs\n"
      "  description = LINK $out")
    w(f"rule cy\n  command = cd py && {VENV} -c \"import Cython.Build; "
      "Cython.Build.cythonize(r'$pyx', compiler_directives={'binding': True}, "
      "force=True, quiet=True)\" && touch $touch\n  description = CYTHON $pyx")
    objs = []
    for p in sorted((SRC / "src").rglob("*.cpp")):
        r = p.relative_to(SRC / "src")
        if r.parts[0] in ("pch", "extensions", "fortran"):
            continue
        o = f"{od}/{r.with_suffix('.o')}"
        w(f"build {o}: cxx src/src/{r}")
        ex = "-include src/src/pch/system.h "
        if r.name == "application.cpp":
            ex += '-DCANTERA_DATA=\\"/verif-no-such-dir\\"'
        if r.name == "global.cpp":
            ex += '-DGIT_COMMIT=\\"x\\"'
        w(f"  extra = {ex}")
        objs.append(o)
    libs = ("-lsundials_cvodes -lsundials_idas -lsundials_nvecserial -ldl -lfmt "
            "-lyaml-cpp -lopenblas")
    o = f"{od}/extensions/canteraShared.o"
    w(f"build {o}: cxx src/src/extensions/canteraShared.cpp")
    objs.append(o)
    so = "san/libcantera_shared.so" if san else "py/cantera/libcantera_shared.so"
    w(f"build {so}: link {' '.join(objs)}")
    w(f"  libs = {libs} -Wl,-soname,libcantera_shared.so")
    if san:
        w(f"default {so}")
        return "\n".join(n) + "\n"
    pinc, npinc, suffix = pyinfo()
    py = B / "py/cantera"
    pxd = " ".join(f"py/cantera/{p.name}" for p in sorted(py.glob("*.pxd")))
    cy = []
    for p in sorted(py.glob("*.pyx")):
        outs = f"py/cantera/{p.stem}.cpp"
        touch = f"cantera/{p.stem}.cpp"
        if p.stem == "delegator":
            outs += " | py/cantera/delegator.h"
            touch += " cantera/delegator.h"
        w(f"build {outs}: cy py/cantera/{p.name} | {pxd}\n  pyx = cantera/{p.name}\n  touch = {touch}")
        ob = f"obj/cy/{p.stem}.o"
        w(f"build {ob}: cxx py/cantera/{p.stem}.cpp")
        opt = "-O1"
        if p.stem == "_utils":
            opt += ' -DGIT_COMMIT=\\"x\\"'
        w(f"  extra = {opt} -isystem {pinc} -isystem {npinc} -Ipy/cantera")
        cy.append(ob)
    w("rule cp\n  command = cp $in $out")
    w("build src/src/extensions/delegator.h: cp py/cantera/delegator.h")
    w("build obj/cy/PythonExtensionManager.o: cxx src/src/extensions/PythonExtensionManager.cpp"
      " | src/src/extensions/delegator.h")
    w(f"  extra = -isystem {pinc} -isystem {npinc}")
    cy.append("obj/cy/PythonExtensionManager.o")
    w(f"build py/cantera/_cantera{suffix}: link {' '.join(cy)} | {so}")
    w("  libs = -Lpy/cantera -lcantera_shared -lfmt '-Wl,-rpath,$$ORIGIN'")
    # entry points for what the Python interface does not expose
    for p in sorted((VERIF / "cxx").glob("helper*.cpp")):
        w(f"build obj/vp/{p.stem}.o: cxx {p}")
        w("  extra = -O1")
    hs = " ".join(f"obj/vp/{p.stem}.o" for p in sorted((VERIF / "cxx").glob("helper*.cpp")))
    w(f"build py/libvp.so: link {hs} | {so}")
    w("  libs = -Lpy/cantera -lcantera_shared -lfmt -lyaml-cpp '-Wl,-rpath,$$ORIGIN/cantera'")
    return "\n".join(n) + "\n"


def main():
    kind = sys.argv[1] if len(sys.argv) > 1 else "py"
    B.mkdir(parents=True, exist_ok=True)
    t0 = time.time()
    with open(B / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync()
        f = B / f"{kind}.ninja"
        put(f, ninja(kind == "san").encode())
        env = dict(os.environ, CCACHE_DIR=str(os.environ.get("CT_CCACHE", VERIF / ".ccache")),
                   CCACHE_BASEDIR=str(B), CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="3G",
                   CCACHE_COMPRESS="1", CCACHE_SLOPPINESS="time_macros,include_file_mtime,include_file_ctime")
        (B / f"d{kind}").mkdir(exist_ok=True)
        put(B / f"d{kind}" / "x", b"")
        r = subprocess.run(["ninja", "-f", f.name, "-j", os.environ.get("CT_JOBS", "8")],
                           cwd=B, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
            print("BUILD FAILED")
            sys.exit(3)
    if os.environ.get("CT_VERBOSE"):
        print(f"build {kind}: {time.time()-t0:.1f} s; {r.stdout.count('CXX')} objects")


if __name__ == "__main__":
    main()
