#!/usr/bin/env python3
"""Driver of the checks:  run.py C01            run the check of property C01
                          run.py setup          build everything once
                          run.py C01 --replay F run one stored failing case

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
Builds /repo's current working tree with the address and undefined-behaviour
sanitizers in /verif/build, compiles the property's harness against it, runs the
generated-input search, and writes evidence/<id>.json.
Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = os.environ.get("VERIF_JOBS") or str(os.cpu_count() or 8)
CC = next((c for c in ("/usr/bin/clang-18", "/usr/bin/clang", "clang") if shutil.which(c)), "clang")
CXX = next((c for c in ("/usr/bin/clang++-18", "/usr/bin/clang++", "clang++") if shutil.which(c)), "clang++")
SAN = ("-O1 -g1 -DNDEBUG -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -fsanitize=address,undefined "
       "-fno-sanitize=nonnull-attribute,vptr,function -fno-sanitize-recover=all -Wno-everything")
TSAN = "-O1 -g1 -DNDEBUG -fno-omit-frame-pointer -fsanitize=thread -Wno-everything"

TREES = {
    "vital": {
        "source": ".",
        "args": ["-DVITAL_ENABLE_TESTS=OFF", "-DVITAL_ENABLE_TOOLS=ON", "-DVITAL_ENABLE_C_LIB=ON",
                 "-DVITAL_ENABLE_PYTHON=OFF", "-DVITAL_ENABLE_LOG4CXX=OFF"],
        "inc": ["{repo}", "{b}", "{b}/vital/kwiversys", "{b}/vital/bindings/c", "/usr/include/eigen3"],
        "lib": "{b}/lib",
    },
    "tsan": {   # the same with the thread sanitizer
        "source": ".", "san": TSAN,
        "args": ["-DVITAL_ENABLE_TESTS=OFF", "-DVITAL_ENABLE_TOOLS=OFF", "-DVITAL_ENABLE_C_LIB=ON",
                 "-DVITAL_ENABLE_PYTHON=OFF", "-DVITAL_ENABLE_LOG4CXX=OFF"],
        "inc": ["{repo}", "{b}", "{b}/vital/kwiversys", "{b}/vital/bindings/c", "/usr/include/eigen3"],
        "lib": "{b}/lib",
    },
    "kwsys": {
        "source": "vital/kwiversys",
        "args": ["-DBUILD_TESTING=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DBUILD_SHARED_LIBS=ON"],
        "inc": ["{b}"],
        "lib": "{b}",
    },
}


def env():
    e = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS", "VERBOSE", "NINJA_STATUS"):
        e.pop(k, None)
    e["LC_ALL"] = "C.UTF-8"
    return e


class CheckError(Exception):
    pass


def must(cmd, log):
    with open(log, "ab") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env())
    if r.returncode:
        tail = open(log, "rb").read()[-3000:].decode("utf-8", "replace")
        raise CheckError(f"{' '.join(cmd[:6])} ... exited with {r.returncode}\n{tail}")


def tree_dir(tree):
    return os.path.join(BUILD, tree)


def configure(tree):
    b, t = tree_dir(tree), TREES[tree]
    os.makedirs(b, exist_ok=True)
    log = os.path.join(BUILD, tree + ".log")
    open(log, "wb").close()
    must(["cmake", "-S", os.path.join(REPO, t["source"]), "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=VERIF",
          f"-DCMAKE_C_COMPILER={CC}", f"-DCMAKE_CXX_COMPILER={CXX}",
          f"-DCMAKE_CXX_FLAGS_VERIF={t.get('san', SAN)}", f"-DCMAKE_C_FLAGS_VERIF={t.get('san', SAN)}",
          f"-DCMAKE_INSTALL_PREFIX={b}/prefix", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"] + t["args"], log)


def write_harness_ninja(pid):
    c = CHECKS[pid]
    t = TREES[c["tree"]]
    b = tree_dir(c["tree"])
    d = os.path.join(BUILD, "h_" + pid)
    os.makedirs(d, exist_ok=True)
    fmt = lambda s: s.format(repo=REPO, b=b, here=HERE, d=d)
    san = t.get("san", SAN)
    inc = " ".join("-isystem " + fmt(i) for i in t["inc"])
    extra = fmt(c.get("cxxflags", ""))
    lib = fmt(t["lib"])
    objs, text = [], []
    text.append(f"cxx = {CXX}\nflags = -std=c++14 {san} -I{HERE}/harness {inc} {extra}")
    text.append("rule cc\n  command = $cxx $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    libs = " ".join("-l" + x for x in c["libs"])
    rp = f"-Wl,--disable-new-dtags -Wl,-rpath,{lib} -Wl,-rpath-link,{lib}"
    text.append(f"rule link\n  command = $cxx $flags $in -L{lib} {rp} {libs} {fmt(c.get('ldflags', ''))} -lpthread -ldl -rdynamic -o $out")
    text.append(f"rule so\n  command = $cxx $flags -fPIC -shared $sodef $in -L{lib} {rp} {libs} -o $out\n  depfile = $out.d\n  deps = gcc")
    text.append("rule prog\n  command = $cxx $flags $in -lpthread -ldl -rdynamic -o $out")
    for s in ["pbt.cpp"] + c["src"]:
        o = s.replace("/", "_") + ".o"
        text.append(f"build {o}: cc {HERE}/harness/{s}")
        objs.append(o)
    outs = ["harness"]
    text.append(f"build harness: link {' '.join(objs)}")
    for name, (s, defs) in c.get("plugins", {}).items():
        text.append(f"build {name}: so {HERE}/harness/{s}\n  sodef = -MD -MF {name}.d {defs}")
        outs.append(name)
    for name, src in c.get("programs", {}).items():
        src, more = src if isinstance(src, tuple) else (src, "")
        fl = f"\n  flags = -std=c++14 {san} -I{HERE}/harness {inc} {extra} {more}" if more else ""
        text.append(f"build {name}.o: cc {HERE}/harness/{src}{fl}\nbuild {name}: prog {name}.o{fl}")
        outs.append(name)
    text.append("build all: phony " + " ".join(outs) + "\nbuild objects: phony " + " ".join(objs) + "\ndefault all")
    text = "\n".join(text) + "\n"
    f = os.path.join(d, "build.ninja")
    if not os.path.exists(f) or open(f).read() != text:
        open(f, "w").write(text)
    return d


def build(pid):
    c = CHECKS[pid]
    configure(c["tree"])
    d = write_harness_ninja(pid)
    hlog = os.path.join(d, "log")
    with open(hlog, "wb") as f:   # harness objects need only headers: compile them alongside the libraries
        p = subprocess.Popen(["ninja", "-C", d, "-j", JOBS, "objects"], stdout=f, stderr=subprocess.STDOUT, env=env())
    try:
        must(["ninja", "-C", tree_dir(c["tree"]), "-j", JOBS] + c["targets"], os.path.join(BUILD, c["tree"] + ".log"))
    finally:
        p.wait()
    must(["ninja", "-C", d, "-j", JOBS, "all"], hlog)
    return os.path.join(d, "harness"), d


def known_findings(pid):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def run(pid, extra):
    t0 = time.time()
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    exe, d = build(pid)
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    result = os.path.join(tmp, "result.json")
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    replay = os.path.join(HERE, "out", f"{pid}.replay.txt")
    if os.path.exists(replay) and not extra:
        os.unlink(replay)
    e = env()
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_odr_violation=0:malloc_context_size=6:hard_rss_limit_mb=6000:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["VERIF_HDIR"] = d
    e["VERIF_LIB"] = TREES[c["tree"]]["lib"].format(b=tree_dir(c["tree"]))
    e["VERIF_PREFIX"] = tree_dir(c["tree"]) + "/prefix"
    e["TZ"] = "UTC"
    e.update({k: v.format(repo=REPO, b=tree_dir(c["tree"]), here=HERE, d=d) for k, v in c.get("env", {}).items()})
    cmd = [exe, "--property", pid, "--seed", str(seed), "--tmp", tmp, "--out", result, "--replay-out", replay,
           "--budget", "500" if tier == "quick" else "5400", "--workers", JOBS]
    if tier == "thorough":
        cmd.append("--thorough")
    elif c.get("scale"):
        cmd += ["--scale", str(c["scale"])]
    cmd += extra
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode("utf-8", "replace")
        # never let harness output look like a verdict line
        sys.stdout.write("".join("  | " + l + "\n" for l in out.splitlines()))
        if extra and ("--replay" in extra or "--show" in extra or "--list" in extra):
            return r.returncode
        if not os.path.exists(result):
            raise CheckError(f"harness ended with {r.returncode} and no result")
        res = json.load(open(result))
    finally:
        subprocess.call(["rm", "-rf", tmp])
    subs = res["subs"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": "generated per sub-property from a choice tape seeded by (VERIF_SEED, property, sub-property, index); "
                    "distinct = different choice tapes; non-trivial per sub-property: "
                    + "; ".join(f"{s['name']}: {s['rule']}" for s in subs),
            "samples": [s["name"] + " " + x for s in subs for x in s["samples"]],
            "discarded": res["discarded"],
            "sub_properties": [{k: s[k] for k in ("name", "evaluations", "discarded", "nontrivial", "distinct_nontrivial", "classes")} for s in subs],
            "build_s": round(t_build, 1), "search_s": round(res["wall_s"], 1),
            "shrink_attempts": res["shrink_attempts"],
        },
        "assumptions": c.get("assumptions", []) + ["built with clang, -O1, address and undefined-behaviour sanitizers, NDEBUG"],
        "wall_s": round(time.time() - t0, 1),
        "violations": res["verdict"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k}")
    print(f"{pid}: {res['evaluations']} cases, {res['distinct_nontrivial']} distinct non-trivial, build {t_build:.0f} s, search {res['wall_s']:.0f} s")
    if res["verdict"]:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if res["evaluations"] == 0:
        raise CheckError("no case was run")
    return 0


def setup():
    for tree in sorted({c["tree"] for c in CHECKS.values()}):
        configure(tree)
        targets = sorted({t for c in CHECKS.values() if c["tree"] == tree for t in c["targets"]})
        must(["ninja", "-C", tree_dir(tree), "-j", JOBS] + targets, os.path.join(BUILD, tree + ".log"))
    print("setup: repository builds with the sanitizers")
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "setup":
            return setup()
        return run(a[0], a[1:])
    except CheckError as e:
        print(f"CHECK-ERROR {a[0]}: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
