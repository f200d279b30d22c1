#!/usr/bin/env python3
"""Build and run the check of one property against the current working tree of /repo.

usage: check.py <ID> [quick|thorough] [--seed N] [--scale F] [--only PREFIX] [--replay FILE]
Exit 0: held on everything explored; 1 and a VIOLATION line: broken; anything else: the check gave no answer.
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from specs import SPECS, KNOWN_SOURCES  # noqa: E402

PACKAGES = ["camera_tools", "eigen_ext", "eigen_gtsam", "eigen_ros", "imu_tools", "navigation_tools",
            "pointcloud_tools", "serpent"]

SAN = ["-fsanitize=address",
       "-fsanitize=signed-integer-overflow,bool,enum,integer-divide-by-zero,bounds,return,unreachable",
       "-fno-sanitize-recover=all",
       "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-fsanitize=thread", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
LIBS = {
    "pcl": ["-lpcl_common", "-lpcl_kdtree", "-lpcl_search", "-lpcl_octree", "-lpcl_features", "-lpcl_filters",
            "-lpcl_sample_consensus", "-lpcl_registration", "-lpcl_io", "-lpcl_io_ply", "-lflann_cpp", "-llz4"],
    "gtsam": ["-lgtsam", "-lboost_serialization", "-lboost_timer", "-ltbb", "-ltbbmalloc"],
    "opencv": ["-lopencv_core", "-lopencv_features2d", "-lopencv_imgproc", "-lopencv_video", "-lopencv_calib3d"],
}


def package_sources(package):
    """Every library source of a package in the tree as it is now (nodes' main files excluded)."""
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, package, "src", "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(f, REPO)
        base = os.path.basename(f)
        if base.endswith("_main.cpp") or base.endswith("_node.cpp") or "/nodes/" in rel or "open3d" in base or \
                base == "integrate_imu_graph_test.cpp":
            continue
        out.append(rel)
    return out


def sources_of(spec):
    """The listed sources, plus sources added to those packages since this framework was written."""
    srcs, packages = [], []
    for s in spec.get("sources", []):
        package = s.split("/")[0]
        if package not in packages:
            packages.append(package)
        if s.endswith("/*"):
            srcs += [x for x in package_sources(package) if x.startswith(s[:-1])]
        elif os.path.exists(os.path.join(REPO, s)):
            srcs.append(s)
    for package in packages:
        srcs += [x for x in package_sources(package) if x not in KNOWN_SOURCES]
    seen, out = set(), []
    for s in srcs:
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out


def build(pid, spec, bdir):
    os.makedirs(bdir, exist_ok=True)
    gen = os.path.join(bdir, "gen")
    ros = spec.get("ros", False)
    inc = []
    if ros:
        r = subprocess.run([sys.executable, os.path.join(VERIF, "lib", "gen_msgs.py"), REPO, gen],
                           capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stdout + r.stderr)
            return None
        inc += ["-I" + os.path.join(VERIF, "shim"), "-I" + gen]
    inc += ["-I" + os.path.join(VERIF, "lib")]
    inc += ["-I" + os.path.join(REPO, p, "include") for p in PACKAGES]
    inc += ["-isystem", "/usr/include/pcl-1.14", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opencv4"]
    flags = ["-std=c++17", spec.get("opt", "-O1"), "-g1", "-w", "-pipe", "-DNDEBUG", "-DPCL_NO_PRECOMPILE", "-pthread",
             "-DEIGEN_MALLOC_ALREADY_ALIGNED=1"]  # as in the installed libraries: Eigen objects cross their boundary
    thread = spec.get("sanitizer") == "thread"
    flags += [f for f in (TSAN if thread else SAN) if f not in spec.get("no_flags", [])]
    flags += ["-include", os.path.join(VERIF, "lib", "prelude.hpp")]
    if ros:
        flags += ["-include", "ros/ros.h"]
    elif "pcl" in spec.get("libs", []):
        flags += ["-include", os.path.join(VERIF, "lib", "pcl_ptr.hpp")]
    flags += spec.get("flags", [])
    libs = []
    for l in spec.get("libs", []):
        libs += LIBS.get(l, [l])
    libs += ["-lboost_system", "-lboost_filesystem"] if ros or spec.get("libs") else []
    harness = spec.get("harness", [pid.lower() + ".cpp"])
    lines = ["ninja_required_version = 1.3", "builddir = " + bdir,
             "cxx = g++", "cflags = " + " ".join(flags + inc),
             "rule cc", "  command = $cxx $cflags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule link", "  command = $cxx -fsanitize=" + ("thread" if thread else "address,undefined") + " -pthread -o $out $in " +
             " ".join(spec.get("link_flags", []) + libs)]
    objs = []
    for h in harness:
        o = os.path.join(bdir, "h_" + os.path.basename(h) + ".o")
        lines.append("build %s: cc %s" % (o, os.path.join(VERIF, "harness", h)))
        objs.append(o)
    for s in sources_of(spec):
        o = os.path.join(bdir, s.replace("/", "_") + ".o")
        lines.append("build %s: cc %s" % (o, os.path.join(REPO, s)))
        objs.append(o)
    for s, symbol in spec.get("mains", []):  # programs linked in as functions
        o = os.path.join(bdir, s.replace("/", "_") + ".o")
        lines.append("build %s: cc %s" % (o, os.path.join(REPO, s)))
        lines.append("  cflags = " + " ".join(flags + inc + ["-Dmain=" + symbol]))
        objs.append(o)
    exe = os.path.join(bdir, "run")
    lines.append("build %s: link %s" % (exe, " ".join(objs)))
    lines.append("default " + exe)
    path = os.path.join(bdir, "build.ninja")
    text = "\n".join(lines) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    r = subprocess.run(["ninja", "-C", bdir, "-f", path], capture_output=True, text=True)
    if r.returncode != 0:
        out = r.stdout + r.stderr
        errs = [l for l in out.splitlines() if "error" in l or "undefined reference" in l]
        print("\n".join(errs[:20]) or out[-3000:])
        return None
    return exe


def known_findings(pid):
    """check name -> description, for the findings listed for this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                name, _, what = rest.partition(" ")
                out[name.split("=", 1)[1]] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--scale", default="1")
    ap.add_argument("--only", default="")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    pid = a.id
    spec = SPECS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(a.seed) if a.seed.lstrip("-").isdigit() else 1
    seed = abs(seed)
    t0 = time.time()
    bdir = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_build")), pid)
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:max_malloc_fill_size=1073741824:malloc_fill_byte=190:" \
                          "allocator_may_return_null=0:detect_stack_use_after_return=0:max_free_fill_size=4096:" \
                          "disable_coredump=1:handle_abort=0:detect_odr_violation=0:hard_rss_limit_mb=3000"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1"
    env["OMP_NUM_THREADS"] = "1"
    env["VERIF_REPO"] = REPO
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    out = os.path.join(bdir, "out.json")
    if spec.get("kind") == "python":
        os.makedirs(bdir, exist_ok=True)
        cmd = ["/opt/veriftools/pyvenv/bin/python", os.path.join(VERIF, "harness", spec["harness"])]
        if not os.path.exists(cmd[0]):
            cmd[0] = shutil.which("python3-vt") or sys.executable
    else:
        exe = build(pid, spec, bdir)
        if exe is None:
            print("check %s: build failed, no verdict" % pid)
            return 2
        if a.build_only:
            return 0
        cmd = [exe]
    t_build = time.time() - t0
    if os.path.exists(out):
        os.unlink(out)
    if a.replay:
        return subprocess.call(cmd + ["--property", pid, "--replay", a.replay], env=env)
    budget = (780 - t_build) if tier == "thorough" else min(420, 700 - t_build)
    cmd += ["--property", pid, "--tier", tier, "--seed", str(seed), "--out", out, "--replay-dir", rdir,
            "--budget", str(budget), "--scale", str(float(a.scale) * spec.get("scale", 1.0))]
    if a.only:
        cmd += ["--only", a.only]
    if a.verbose:
        cmd += ["--verbose"]
    if "case_timeout" in spec:
        cmd += ["--case-timeout", str(spec["case_timeout"])]
    rc = subprocess.call(cmd, env=env)
    for d in os.listdir(bdir):  # left by cases that crashed
        if d.startswith("scratch-"):
            shutil.rmtree(os.path.join(bdir, d), ignore_errors=True)
    if rc not in (0, 1) or not os.path.exists(out):
        print("check %s: runner ended with %d, no verdict" % (pid, rc))
        return 2
    res = json.load(open(out))
    findings = known_findings(pid)
    fired = {v["check"]: v for v in res["violations"]}
    bad = []
    for v in res["violations"]:
        if v["finding"] and v["check"] in findings:
            print("KNOWN-FINDING: property=%s %s" % (pid, findings[v["check"]]))
        else:
            bad.append(v)
    samples = []
    for c in res["checks"]:
        samples += [{"check": c["name"], "case": s} for s in c["samples"][:2]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(c["evaluations"] for c in res["checks"]),
            "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in res["checks"]),
            "rule": "; ".join("%s: %s" % (c["name"], c["rule"]) for c in res["checks"]),
            "samples": samples[:40],
            "checks": [{k: c[k] for k in ("name", "evaluations", "distinct_nontrivial", "discarded", "labels")}
                       for c in res["checks"]],
            "truncated_by_time": res["truncated"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("check %s (%s, seed %d): %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" % (
        pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], t_build, ev["wall_s"]))
    for v in bad:
        print("  %s: %s" % (v["check"], v["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
