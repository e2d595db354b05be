"""Builds the harnesses from /repo's working tree with ninja (build files under /verif/_build)."""
import hashlib, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(V, "_build", "obj")

class BuildError(Exception):
    pass

BASE = "-std=c++17 -O1 -g1 -DNDEBUG -Wno-everything -w -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer"
INC = ["/usr/include/eigen3"]
PCL_INC = ["/usr/include/pcl-1.14", "/usr/include/eigen3"]
PCL_LIB = "-lpcl_common -lpcl_kdtree -lpcl_search -lpcl_features -lpcl_filters -lpcl_octree -lpcl_sample_consensus -lpcl_segmentation -lpcl_surface -lpcl_ml -lpcl_io"
COMPAT = "-include /verif/harness/compat.hpp -include functional -include stdexcept"

def inc(*dirs): return " ".join("-isystem " + d for d in dirs)

from config import HARNESSES, GROUPS
KNOWN = set(open(os.path.join(V, "bin", "sources.txt")).read().split())

def sources(G):
    """The group's files, as far as they exist, and files that were added beside them since (sources.txt)."""
    r = [s for s in G["src"] if os.path.exists(os.path.join(REPO, s))]
    for d in sorted({os.path.dirname(s) for s in G["src"]}):
        if os.path.isdir(os.path.join(REPO, d)):
            r += [s for s in sorted(d + "/" + f for f in os.listdir(os.path.join(REPO, d)) if f.endswith(".cpp")) if s not in KNOWN]
    return r

def build(names):
    """Builds these harnesses together; returns {harness: executable}."""
    rules, exes, pres = {}, {}, []
    for name in names:
        h = HARNESSES[name]
        objs, extra = [], set()
        cxx = h.get("cxx", "g++")
        san = h.get("san", "")
        def obj(src, flags, tag):
            tag += "_" + hashlib.sha1((cxx + flags).encode()).hexdigest()[:8]
            o = os.path.join(OUT, tag, src.strip("/").replace("/", "_") + ".o")
            rules[o] = "build %s: cxx %s\n  flags = %s\n  cc = %s\n" % (o, src, flags, cxx)
            objs.append(o)
        for s in h["src"]: obj(V + "/harness/" + s, " ".join([BASE, san, h.get("flags", "")] + ["-I" + REPO + "/" + i for i in h.get("inc", [])] + ["-I" + V + "/harness", inc(*h.get("sys", []))]), name)
        for g in h.get("groups", []):
            G = GROUPS[g]
            flags = " ".join([BASE, san, G.get("flags", "")] + ["-I" + REPO + "/" + i for i in G.get("inc", [])] + [inc(*G.get("sys", []))])
            for s in sources(G):
                if s not in KNOWN:
                    if s in extra: continue
                    extra.add(s)
                obj(REPO + "/" + s, flags, g)
        pres += [c for c in h.get("pre", []) if c not in pres]
        exe = exes[name] = os.path.join(OUT, name, name)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        rules[exe] = "build %s: link %s\n  libs = %s\n  ld = %s\n" % (exe, " ".join(objs), h.get("libs", ""), cxx + " " + san)
    for cmd in pres:
        r = subprocess.run(cmd, shell=True, cwd=V, capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stdout + r.stderr)
    nf = os.path.join(OUT, "-".join(names) + ".ninja")
    with open(nf, "w") as f:
        f.write("builddir = %s\n" % os.path.join(OUT, "nj"))
        f.write("rule cxx\n  command = $cc $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n")
        f.write("rule link\n  command = $ld $in -o $out $libs\n")
        f.write("\n".join(rules.values()))
        f.write("default %s\n" % " ".join(exes.values()))
    r = subprocess.run(["ninja", "-f", nf], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stdout + r.stderr)
    return exes

if __name__ == "__main__":
    for exe in build(sys.argv[1:] or list(HARNESSES)).values(): print(exe)
