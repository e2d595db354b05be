#!/usr/bin/env python3
"""Generates C++ message headers (as roscpp's genmsg would) from shim/msg/all.txt and the .msg/.srv files of /repo."""
import os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(V, "_build", "shim", "include")
PRIM = dict(bool="uint8_t", int8="int8_t", uint8="uint8_t", int16="int16_t", uint16="uint16_t", int32="int32_t", uint32="uint32_t",
            int64="int64_t", uint64="uint64_t", float32="float", float64="double", string="std::string", time="ros::Time", duration="ros::Duration",
            byte="int8_t", char="uint8_t")

def parse(pkg, text):
    fields, consts = [], []
    for ln in text.splitlines():
        ln = ln.split("#")[0].strip()
        if not ln: continue
        m = re.match(r"(\w+)\s+(\w+)\s*=\s*(.+)", ln)
        if m: consts.append(m.groups()); continue
        m = re.match(r"([\w/]+)(\[(\d*)\])?\s+(\w+)$", ln)
        t, arr, n, name = m.groups()
        if t == "Header": t = "std_msgs/Header"
        if t not in PRIM and "/" not in t: t = pkg + "/" + t
        fields.append((t, arr, n, name))
    return fields, consts

def struct(pkg, name, text):
    fields, consts = parse(pkg, text)
    deps = sorted({t for t, *_ in fields if t not in PRIM} - {pkg + "/" + name})
    b = []
    for t, n, v in consts:
        b.append("  enum { %s = %s };" % (n, v))
    inits = []
    for t, arr, n, f in fields:
        c = PRIM.get(t) or "::" + t.replace("/", "::")
        if arr is None:
            zero = t in PRIM and t not in ("string", "time", "duration")
            b.append("  %s %s%s;" % (c, f, "{}" if zero else ""))
        elif n: 
            b.append("  ::boost::array<%s, %s> %s;" % (c, n, f))
            if t in PRIM and t != "string": inits.append("%s.assign(0);" % f)
        else: b.append("  std::vector<%s> %s;" % (c, f))
    b.append("  %s() { %s }" % (name, " ".join(inits)))
    b.append("  typedef ::boost::shared_ptr<%s> Ptr;\n  typedef ::boost::shared_ptr<%s const> ConstPtr;" % (name, name))
    same = " && ".join(["true"] + ["shim::same(a.%s, b.%s)" % (f, f) for *_, f in fields])
    b.append("  friend bool shim_same(const %s& a, const %s& b) { (void)a; (void)b; return %s; }" % (name, name, same))
    s = "struct %s {\n%s\n};\ntypedef ::boost::shared_ptr<%s> %sPtr;\ntypedef ::boost::shared_ptr<%s const> %sConstPtr;\n" % (name, "\n".join(b), name, name, name, name)
    return deps, s

HEAD = "#pragma once\n#include <string>\n#include <vector>\n#include <cstdint>\n#include <boost/array.hpp>\n#include <boost/shared_ptr.hpp>\n#include <ros/time.h>\n#include <shim_same.h>\n"
def write(pkg, name, deps, body):
    d = os.path.join(OUT, pkg); os.makedirs(d, exist_ok=True)
    s = HEAD + "".join("#include <%s.h>\n" % x for x in deps) + "namespace %s {\n%s}\n" % (pkg, body)
    p = os.path.join(d, name + ".h")
    if not os.path.exists(p) or open(p).read() != s: open(p, "w").write(s)

def main():
    for blk in open(os.path.join(V, "shim/msg/all.txt")).read().split("== ")[1:]:
        full, text = blk.split("\n", 1)
        pkg, name = full.strip().split("/")
        deps, s = struct(pkg, name, text); write(pkg, name, deps, s)
    for f in sorted(glob.glob(REPO + "/*/msg/*.msg")):
        pkg, name = f.split("/")[-3], os.path.basename(f)[:-4]
        deps, s = struct(pkg, name, open(f).read()); write(pkg, name, deps, s)
    for f in sorted(glob.glob(REPO + "/*/srv/*.srv")):
        pkg, name = f.split("/")[-3], os.path.basename(f)[:-4]
        a, b = open(f).read().split("---")
        d1, s1 = struct(pkg, name + "Request", a); d2, s2 = struct(pkg, name + "Response", b)
        write(pkg, name, sorted(set(d1 + d2)), s1 + s2 + "struct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };\n" % (name, name, name))
    write("std_srvs", "Empty", [], "struct EmptyRequest {}; struct EmptyResponse {}; struct Empty { typedef EmptyRequest Request; typedef EmptyResponse Response; };\n")
if __name__ == "__main__": main()
