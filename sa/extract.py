"""Builds mcx when needed, then extracts the facts of the requested parts of /repo's current tree."""
import os, re, subprocess, sys, time, glob, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor
from sa.core import VERIF, REPO, SRC, Program, AnalysisBroken

BUILD = VERIF + "/build"
RES = "/usr/lib/llvm-18/lib/clang/18"
CORE = ["INTERP_KERNEL", "MEDCoupling", "ICoCo", "RENUMBER", "ShapeRecogn"]
INC_CORE = [
    "INTERP_KERNEL", "INTERP_KERNEL/Bases", "INTERP_KERNEL/Geometric2D", "INTERP_KERNEL/ExprEval",
    "INTERP_KERNEL/GaussPoints", "INTERP_KERNEL/LinearAlgebra", "MEDCoupling", "ICoCo", "RENUMBER", "ShapeRecogn",
]
PARTS = {
    "interp": ["INTERP_KERNEL"],
    "medcoupling": ["MEDCoupling"],
    "icoco": ["ICoCo"],
    "renumber": ["RENUMBER"],
    "shape": ["ShapeRecogn"],
    "loader": ["MEDLoader"],
    "partitioner": ["MEDPartitioner"],
    "para": ["ParaMEDMEM", "ParaMEDLoader"],
    "python": [],                      # the Python module's wrapper, generated from the interface files
}
PY_INC = ["MEDCoupling_Swig", "RENUMBER", "RENUMBER_Swig", "ICoCo", "ICoCo/Swig", "ShapeRecogn", "ShapeRecogn/Swig"]
PY_DEF = ["-DWITH_NUMPY", "-DWITH_SCIPY", "-DMEDCOUPLING_USE_64BIT_IDS", "-DMEDCOUPLING_SWIG4_COMPAT", "-DWITH_SHAPE_RECOGN",
          "-DWITH_RENUMBER", "-DWITH_ITERATIVE_STATISTICS"]
# units outside the project's build, or needing a library that is not here
NOT_UNITS = {
    "ParaMEDMEM/NonCoincidentDEC.cxx": "needs the fvm library (guarded MED_ENABLE_FVM, absent)",
    "MEDPartitioner/MEDPARTITIONER_PTScotchGraph.cxx": "needs ptscotch, optional",
    "MEDPartitioner/MEDPARTITIONER_ParMetisGraph.cxx": "needs parmetis, optional",
    "MEDPartitioner/MEDPARTITIONER_ScotchGraph.cxx": "needs scotch, optional",
}
# a base MEDLoader / optional unit not in a CMake list is not analysed (dead file); listed by the evidence
EXTRA_INC = {
    "MEDLoader": ["/usr/include/hdf5/serial", "/usr/include/libxml2"],
    "MEDPartitioner": ["/usr/include/hdf5/serial", "/usr/include/libxml2",
                       "/usr/lib/x86_64-linux-gnu/openmpi/include"],
    "ParaMEDMEM": ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/include/hdf5/serial"],
    "ParaMEDLoader": ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/include/hdf5/serial"],
}
HEAVY = {"MEDCouplingRemapper.cxx": 40, "MEDCouplingMemArray.cxx": 30, "MEDCouplingUMesh.cxx": 20,
         "MEDCouplingFieldDouble.cxx": 12, "MEDCouplingUMesh_intersection.cxx": 14, "MEDCouplingUMesh_internal.cxx": 12}


def build_tool(verbose=False):
    src = VERIF + "/tool/mcx.cxx"
    out = BUILD + "/mcx"
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(
        ["g++", "-O1", "-std=c++17", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", src, "-o", tmp,
         "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("mcx does not build: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def scratch():
    d = tempfile.mkdtemp(prefix="mcsa.")
    atexit.register(shutil.rmtree, d, True)
    return d


def version_header(d):
    top = open(REPO + "/CMakeLists.txt").read()
    m = re.search(r"salome_setup_version\((\d+)\.(\d+)\.(\d+)\)", top)
    if not m:
        m = re.search(r"(\d+)\.(\d+)\.(\d+)", "9.15.0")
    a, b, c = (int(x) for x in m.groups())
    t = open(REPO + "/MEDCoupling_version.h.in").read()
    rep = {"MEDCOUPLING_MAJOR_VERSION": a, "MEDCOUPLING_MINOR_VERSION": b, "MEDCOUPLING_PATCH_VERSION": c,
           "MEDCOUPLING_VERSION": "%d.%d.%d" % (a, b, c), "MEDCOUPLING_XVERSION": hex((a << 16) + (b << 8) + c)}
    for k, v in rep.items():
        t = t.replace("@%s@" % k, str(v)).replace("${%s}" % k, str(v))
    t = re.sub(r"#cmakedefine\s+(\S+).*", r"#define \1", t)
    open(d + "/MEDCoupling_version.h", "w").write(t)


def wrapper(d):
    """the C++ source of the Python module, generated in d"""
    out = d + "/python_wrap.cxx"
    r = subprocess.run(["swig4.0" if shutil.which("swig4.0") else "swig", "-python"] +
                       ["-I%s/%s" % (SRC, x) for x in PY_INC + INC_CORE] + ["-I" + d] + PY_DEF +
                       ["-outdir", d, "-c++", "-module", "medcoupling", "-interface", "_medcoupling", "-o", out,
                        SRC + "/PyWrapping/medcoupling.i"], capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise AnalysisBroken("the interface files do not generate: " + r.stderr[-1500:])
    return out


def sources(parts):
    """the units of the parts: every source file a set(... .cxx) of the project's CMake lists names"""
    res = []
    for p in parts:
        for d in PARTS[p]:
            txt = re.sub(r"#.*", "", open("%s/%s/CMakeLists.txt" % (SRC, d)).read())
            names = set(re.findall(r"[\w./]+\.(?:cxx|cpp)\b", txt))
            for n in sorted(names):
                f = "%s/%s/%s" % (SRC, d, n)
                if not os.path.exists(f) or "%s/%s" % (d, n) in NOT_UNITS:
                    continue
                if re.search(r"Test|(^|/)(renumbering|medpartitioner|medpartitioner_para)\.cxx$", n):
                    continue
                res.append(f)
    return sorted(set(res))


def flags(d, parts):
    inc = [SRC + "/" + x for x in INC_CORE]
    ex = []
    for p in parts:
        for dd in PARTS[p]:
            ex += EXTRA_INC.get(dd, [])
            if dd not in CORE:
                inc += [SRC + "/" + dd]
    if any(p in ("para", "partitioner") for p in parts):
        inc += [SRC + "/MEDLoader"]
    if "para" in parts:
        inc += [SRC + "/ParaMEDMEM/MPIAccess"]
    fl = ["-std=c++17", "-w", "-O0", "-resource-dir", RES, "-I" + d]
    for i in inc + ex:
        if "-I" + i not in fl:
            fl.append("-I" + i)
    fl += ["-DMEDCOUPLING_USE_64BIT_IDS", "-D_POSIX_MAPPED_FILES", "-DENABLE_BOOST", "-DMED_ENABLE_METIS"]
    if "python" in parts:
        fl += ["-I%s/%s" % (SRC, x) for x in PY_INC] + PY_DEF
        fl += ["-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/numpy/core/include",
               '-DMEDCOUPLING_GIT_SHA1="x"', '-DMEDCOUPLING_CONFIG_DT="x"']
    if "partitioner" in parts:
        fl += ["-DHAVE_MPI"]
    if any(p in ("loader", "partitioner", "para") for p in parts):
        fl += ["-include", VERIF + "/tool/med_shim.h"]
    return fl


def extract(parts, extra_units=(), extra_flags=(), roots=None, only=None, allow_errors=False, P=None):
    """parts: names of PARTS; only: predicate on source paths. Returns Program (finish() called)."""
    t0 = time.time()
    tool = build_tool()
    d = scratch()
    version_header(d)
    new = P is None
    if P is None:
        P = Program()
        P.units = []
    files = [f for f in sources(parts) if only is None or only(f)] + list(extra_units)
    if "python" in parts:
        files.append(wrapper(d))
    if not files:
        raise AnalysisBroken("no unit to analyse for %s" % (parts,))
    fl = flags(d, parts) + list(extra_flags)
    roots = (roots or [SRC + "/"]) + ([d + "/"] if "python" in parts else [])

    def weight(f):
        b = os.path.basename(f)
        return HEAVY.get(b, 4 + (6 if b.startswith("Interpolation") else 0)) + os.path.getsize(f) / 40000.0

    files.sort(key=lambda f: -weight(f))
    n = min(len(files), 24)
    groups = [[] for _ in range(n)]
    w = [0.0] * n
    for f in files:
        i = w.index(min(w))
        groups[i].append(f)
        w[i] += weight(f)

    def go(i):
        out = "%s/f%d.json" % (d, i)
        r = subprocess.run([tool, out] + ["--root=" + x for x in roots] + groups[i] + ["--"] + fl,
                           capture_output=True, text=True)
        errs = [l for l in r.stderr.splitlines() if "error:" in l]
        return out, r.returncode, errs, r.stderr[-500:]

    with ThreadPoolExecutor(max(1, os.cpu_count() or 4)) as pool:
        outs = list(pool.map(go, range(n)))
    for out, rc, errs, tail in outs:
        if (rc or errs) and not allow_errors:
            raise AnalysisBroken("a unit does not parse: " + "\n".join(errs[:5]) + tail)
        if "python" in parts:
            t = open(out).read()
            if d + "/" in t:
                open(out, "w").write(t.replace(d + "/", "python/"))
        P.load(out)
        os.unlink(out)
    P.units += files
    P.finish()
    P.t_extract = time.time() - t0
    return P


def tree_files():
    r = [REPO + "/CMakeLists.txt", REPO + "/MEDCoupling_version.h.in"]
    for dp, dn, fn in os.walk(SRC):
        for n in fn:
            if n.endswith((".cxx", ".hxx", ".txx", ".h", ".i", ".cpp", ".hpp", ".c", "CMakeLists.txt")):
                r.append(dp + "/" + n)
    return r
