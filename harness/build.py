#!/usr/bin/env python3
"""Compiles NimbleSM's sources from the current tree of /repo, and the harnesses, into /verif/build.

usage: build.py HARNESS...      (names from targets.py)
A harness names the source files it needs; if that subset does not link (say, because a helper moved
to another file) the harness is linked against every source file instead."""
import os, sys, glob, subprocess, zlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, HERE)
from targets import HARNESSES

L = "/usr/lib/x86_64-linux-gnu"
TRILINOS = ["tpetraext", "tpetrainout", "tpetra", "kokkostsqr", "tpetraclassiclinalg", "tpetraclassicnodeapi", "tpetraclassic",
            "epetra", "kokkoskernels", "teuchoskokkoscomm", "teuchoskokkoscompat", "teuchosremainder", "teuchosnumerics",
            "teuchoscomm", "teuchosparameterlist", "teuchosparser", "teuchoscore", "kokkosalgorithms", "kokkoscontainers", "kokkoscore"]
LIBS_ALL = " ".join([f"{L}/openmpi/lib/libmpi_cxx.so", f"{L}/openmpi/lib/libmpi.so"] +
                    [f"{L}/libtrilinos_{t}.so.13.2" for t in TRILINOS] + ["-llapack", "-lblas", f"{L}/libexoIIv2c.so", "-ldl", "-lpthread"])
DEFS = "-DNIMBLE_HAVE_EXODUS -DNIMBLE_HAVE_KOKKOS -DNIMBLE_HAVE_MPI -DNIMBLE_HAVE_TRILINOS"
INC = (f"-I{REPO}/src -I{REPO}/tpl -I{HERE} -isystem {L}/openmpi/include -isystem {L}/openmpi/include/openmpi "
       "-isystem /usr/include/trilinos")
BASE = "-std=c++14 -w -DNDEBUG -pipe"
FLAVORS = {
    "opt": "-O1",
    "fast": "-O2",
    "asan": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=alignment,vptr,null -fno-omit-frame-pointer",
    "safe": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=alignment,vptr,null -fno-omit-frame-pointer -D_GLIBCXX_SANITIZE_VECTOR=1 -DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK -ftrivial-auto-var-init=pattern",
}

def sources():
    out = []
    for pat in ("src/*.cc", "src/integrators/*.cc", "src/contact/*.cc", "src/contact/serial/*.cc", "src/contact/parallel/*.cc"):
        out += glob.glob(os.path.join(REPO, pat))
    bad = ("nimble_main.cc", "arborx_", "bvh_")
    return sorted(os.path.relpath(p, REPO) for p in out if not any(b in p for b in bad))

def generate(names, force_all=False):
    n = ["ninja_required_version = 1.5", f"builddir = {BUILD}"]
    for f, fl in FLAVORS.items():
        n.append(f"rule cc_{f}\n  command = g++ {DEFS} $extra {INC} {BASE} {fl} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC {f} $in")
        n.append(f"rule ld_{f}\n  command = g++ {fl} $in $ldx -o $out {LIBS_ALL} -Wl,--as-needed\n  description = LD $out")
    objs = set()
    # the slowest files first: ninja starts edges in file order
    heavy = ["src/nimble_kokkos_model_data.cc", "src/nimble_cli.cc", "src/nimble_contact_manager.cc", "src/nimble_model_data.cc"]
    def obj(src, flavor, extra=""):
        base = src.replace("/", "_")
        tag = flavor + ("" if not extra else "_x%x" % zlib.crc32(extra.encode()))
        o = f"{BUILD}/obj/{tag}/{base}.o"
        if (o,) not in objs:
            objs.add((o,))
            path = src if os.path.isabs(src) else os.path.join(REPO, src)
            n.append(f"build {o}: cc_{flavor} {path}\n  extra = {extra}")
        return o
    for name in names:
        h = HARNESSES[name]
        fl = h.get("flavor", "opt")
        mine = [os.path.join(HERE, s) for s in h["src"]]
        sut = h["sut"]
        if sut == "ALL" or force_all:
            sut = sources()
            sut = [s for s in heavy if s in sut] + [s for s in sut if s not in heavy]
        elif sut == "NONE":
            sut = []
        o = [obj(s, fl, h.get("defs", "")) for s in mine]
        o += [obj(s, fl) for s in sut if s != "src/nimble_main.cc" and os.path.exists(os.path.join(REPO, s))]
        if h.get("main_from_repo"):
            o = [obj("src/nimble_main.cc", fl)] + o
        n.append(f"build {BUILD}/bin/{name}: ld_{fl} {' '.join(o)}\n  ldx = {h.get('link', '')}")
        n.append(f"build {name}: phony {BUILD}/bin/{name}")
    return "\n".join(n) + "\n"

def build(names, jobs=8):
    os.makedirs(BUILD, exist_ok=True)
    nf = os.path.join(BUILD, "build-%s.ninja" % "-".join(names))
    last = ""
    for force in (False, True):
        open(nf, "w").write(generate(names, force))
        r = subprocess.run(["ninja", "-f", nf, "-j", str(jobs)] + names, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = r.stdout
        if r.returncode == 0:
            return True, last
    return False, last

if __name__ == "__main__":
    ok, out = build(sys.argv[1:] or list(HARNESSES))
    print("\n".join(out.splitlines()[-60:]))
    sys.exit(0 if ok else 2)
