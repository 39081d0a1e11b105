#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

    run.py ID [--tier quick|thorough] [--case K]

exit 0: the property held on everything explored
exit 1: VIOLATION lines on stdout
exit 2: the check could not be built or run (no answer)
"""
import argparse, array, glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CXX = "g++-12" if shutil.which("g++-12") else "g++"
NCPU = max(1, min(8, os.cpu_count() or 1))

COMMON = ("-std=gnu++23 -fcoroutines -DNDEBUG -DSTD -DFMT_CONSTEVAL= "
          "-DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize -D_GLIBCXX_ASSERTIONS "
          "-fno-strict-aliasing -w -pthread "
          f"-include {HERE}/shim/prelude.h -I{REPO}/include -I{HERE}/shim -I{HERE}/harness")
FLAVOUR = {
    "opt": "-O1",
    "san": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
           "-fno-sanitize=vptr,alignment,object-size,null,nonnull-attribute "
           "-fno-sanitize-recover=all",
    "trace": "-O1 -g1 -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 "
             "-mmemcpy-strategy=libcall:-1:noalign -mmemset-strategy=libcall:-1:noalign",
}
LIBS = "-lpugixml -lfmt -ldate-tz -lpthread"


def lib_sources(spec):
    if spec == "all":
        return sorted(glob.glob(f"{REPO}/src/**/*.cc", recursive=True))
    out = []
    for p in spec:
        g = sorted(glob.glob(f"{REPO}/{p}", recursive=True))
        out += g
    return out


def obj_name(src):
    rel = src
    for base, tag in ((REPO, "r"), (HERE, "v")):
        if src.startswith(base + "/"):
            rel = tag + "/" + os.path.relpath(src, base)
            break
    return rel.replace("/", "_") + ".o"


GO_STANDINS = {"github.com/pkg/errors": ("v0.9.1", "errors"), "github.com/urfave/cli/v2": ("v2.24.4", "cli"),
               "golang.org/x/net": ("v0.8.0", "net")}


def build_go(check):
    """The Go sources of /repo (without tests) and one driver, with stand-ins
    for the libraries that are not in this sandbox."""
    name = check["go"]
    bdir = f"{HERE}/build/go-{hashlib.sha1(REPO.encode()).hexdigest()[:8]}"
    src, dst = f"{REPO}/tools/generate-osm", f"{bdir}/transform-osm"
    shutil.rmtree(dst, ignore_errors=True)
    for d, _, files in os.walk(src):
        for f in files:
            if f.endswith(".go") and not f.endswith("_test.go"):
                to = os.path.join(dst, os.path.relpath(d, src))
                os.makedirs(to, exist_ok=True)
                shutil.copy(os.path.join(d, f), to)
    req = "\n".join(f"require {m} {v}" for m, (v, _) in GO_STANDINS.items())
    rep = "\n".join(f"replace {m} => {HERE}/gomc/standin/{d}" for m, (_, d) in GO_STANDINS.items())
    with open(f"{dst}/go.mod", "w") as f:
        f.write(f"module transform-osm\n\ngo 1.19\n\n{req}\n\n{rep}\n")
    drv = f"{bdir}/drivers"
    shutil.rmtree(drv, ignore_errors=True)
    shutil.copytree(f"{HERE}/gomc/drivers", drv)
    shutil.copytree(f"{HERE}/gomc/mc", f"{drv}/mc")
    with open(f"{drv}/go.mod", "w") as f:
        f.write(f"module verif\n\ngo 1.21\n\nrequire transform-osm v0.0.0\n{req}\n\nreplace transform-osm => {dst}\n{rep}\n")
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO"))}
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="0",
               GOCACHE=f"{HERE}/build/go-cache", GOENV="off", HOME=os.environ.get("HOME", "/root"))
    jobs = [(drv, f"{bdir}/{name}", f"./{name}")]
    if check.get("tool"):
        jobs += [(dst, f"{bdir}/transform-osm.exe", "."), (drv, f"{bdir}/osmium", "./osmium")]
    for cwd, exe, pkg in jobs:
        r = subprocess.run(["go", "build", "-o", exe, pkg], cwd=cwd, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("BUILD FAILED")
            sys.exit(2)
    return f"{bdir}/{name}"


def build_node(check):
    """The client of /repo as one file, with stand-ins for its libraries, and
    one driver."""
    name = check["node"]
    bdir = f"{HERE}/build/node-{hashlib.sha1(REPO.encode()).hexdigest()[:8]}"
    os.makedirs(bdir, exist_ok=True)
    client = f"{bdir}/{name}-client.js"
    r = subprocess.run(["node", f"{HERE}/clientmc/build.mjs", REPO, client],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("BUILD FAILED")
        sys.exit(2)
    exe = f"{bdir}/{name}"
    with open(exe, "w") as f:
        f.write(f'#!/bin/sh\nMC_CLIENT="{client}" exec node "{HERE}/clientmc/{name}.mjs" "$@"\n')
    os.chmod(exe, 0o755)
    return exe


def build(check):
    if "go" in check:
        return build_go(check)
    if "node" in check:
        return build_node(check)
    flavour = check.get("flavour", "opt")
    extra = check.get("cflags", "").replace("{REPO}", REPO).replace("{HERE}", HERE)
    key = hashlib.sha1((REPO + flavour + extra).encode()).hexdigest()[:8]
    bdir = f"{HERE}/build/{flavour}-{key}"
    os.makedirs(bdir, exist_ok=True)
    srcs = [f"{HERE}/{s}" for s in check["src"]] + lib_sources(check.get("lib", []))
    name = check["src"][0].split("/")[-1].rsplit(".", 1)[0]
    ninja = f"{bdir}/{name}.ninja"
    flags = f"{COMMON} {FLAVOUR[flavour]} {extra}"
    link = FLAVOUR[flavour]
    if flavour == "trace":
        link = "-O1 -g1 " + " ".join(
            f"-Wl,--wrap={f}" for f in
            ("memcpy", "memmove", "memset", "memcmp", "strlen", "pthread_mutex_lock",
             "pthread_mutex_trylock", "pthread_mutex_unlock", "__cxa_guard_acquire",
             "__cxa_guard_release", "__cxa_guard_abort"))
    lines = [
        "ninja_required_version = 1.5",
        f"builddir = {bdir}/{name}.d",
        "rule cc", f"  command = {CXX} {flags} $xf -MMD -MF $out.d -c $in -o $out",
        "  depfile = $out.d", "  deps = gcc", "  description = CC $in",
        "rule ln", f"  command = {CXX} {link} $in -o $out {LIBS}", "  description = LINK $out",
    ]
    objs = []
    for s in srcs:
        o = f"{bdir}/{obj_name(s)}"
        objs.append(o)
        lines.append(f"build {o}: cc {s}")
        xf = ""
        if flavour == "trace" and os.path.basename(s).startswith("nt_"):
            xf = "-fno-sanitize=thread"
        lines.append(f"  xf = {xf}")
    exe = f"{bdir}/{name}"
    lines.append(f"build {exe}: ln {' '.join(objs)}")
    lines.append(f"default {exe}")
    text = "\n".join(lines) + "\n"
    if not os.path.exists(ninja) or open(ninja).read() != text:
        with open(ninja, "w") as f:
            f.write(text)
    env = dict(os.environ, LC_ALL="C.UTF-8")
    for v in ("CXXFLAGS", "CPPFLAGS", "CFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH"):
        env.pop(v, None)
    r = subprocess.run(["ninja", "-f", ninja, "-C", bdir, f"-j{NCPU}", "-k", "0"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("BUILD FAILED")
        sys.exit(2)
    return exe


def run_env(scratch):
    env = dict(os.environ)
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:"
                           "hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    env["MC_SCRATCH"] = scratch
    env["MC_REPO"] = REPO
    env["MC_VERIF"] = HERE
    env["GOMAXPROCS"] = "2"
    env.pop("SORO_SHIM_LOG", None)
    return env


def progress_case(out, shard):
    try:
        with open(f"{out}/progress.{shard}", "rb") as f:
            b = f.read()
        return int.from_bytes(b[:8], "little"), int.from_bytes(b[8:16], "little")
    except OSError:
        return None, 0


def run_one(exe, prop, tier, shard, case, scratch, env, timeout):
    out = tempfile.mkdtemp(prefix="one", dir=scratch)
    cmd = [exe, "--prop", prop, "--tier", tier, "--out", out]
    if shard:
        cmd += ["--shard", shard]
    if case is not None:
        cmd += ["--case", str(case)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env, cwd=out)
        return r.returncode, r.stdout.decode("utf-8", "replace"), out
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf-8", "replace"), out


def crash_sig(rc, text):
    for line in text.splitlines():
        if "ERROR: AddressSanitizer:" in line:
            return "asan:" + line.split("AddressSanitizer:")[1].split()[0]
        if "runtime error:" in line:
            return "ubsan"
        if line.startswith("fatal error: "):
            return "go:" + line[13:].strip()
        if "MC-HANG" in line:
            return "hang"
        if "Assertion" in line:
            return "stl-assertion"
    if rc == -signal.SIGABRT:
        return "abort"
    return f"crash:{rc}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", type=int)
    ap.add_argument("--shards", type=int)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    check = CHECKS[prop]
    t0 = time.time()
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    if "runner" in check:  # a check with a driver of its own
        os.environ["VERIF_TIER"] = tier
        sys.exit(check["runner"](prop, tier))
    exe = build(check)
    t_build = time.time() - t0

    scratch = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    try:
        code = explore(a, prop, tier, check, exe, scratch, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def load_known():
    p = f"{HERE}/known_findings.json"
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def explore(a, prop, tier, check, exe, scratch, t0, t_build):
    env = run_env(scratch)
    if a.case is not None:
        rc, text, _ = run_one(exe, prop, tier, None, a.case, scratch, env, 300)
        print(text)
        return 0 if rc == 0 else 1
    shards = a.shards or check.get("shards", NCPU)
    out = f"{scratch}/out"
    os.makedirs(out)
    procs = []
    for s in range(shards):
        log = open(f"{scratch}/log.{s}", "wb")
        wd = f"{scratch}/wd{s}"
        os.makedirs(wd)
        e = dict(env, MC_SCRATCH=wd)
        procs.append((s, subprocess.Popen(
            [exe, "--prop", prop, "--tier", tier, "--out", out, "--shard", f"{s}/{shards}"],
            stdout=log, stderr=subprocess.STDOUT, env=e, cwd=wd)))
    limit = check.get("limit", {}).get(tier, 780 if tier == "quick" else 6 * 3600)
    violations, errors, crashed = [], [], []
    for s, p in procs:
        try:
            rc = p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for _, q in procs:
                q.kill()
            errors.append(f"shard {s} exceeded the time limit of {limit} s")
            break
        if rc not in (0, 1):
            text = open(f"{scratch}/log.{s}", "rb").read().decode("utf-8", "replace")
            crashed.append((s, rc, text))
    if errors:
        print("\n".join(errors))
        return 2

    agg = {"cases": 0, "executed": 0, "transitions": 0, "traces": 0, "checks": 0}
    exhaustive, capped = True, False
    bounds, counters, groups, samples, states = {}, {}, {}, [], set()
    for s in range(shards):
        p = f"{out}/result.{s}.json"
        if not os.path.exists(p):
            exhaustive = False
            continue
        r = json.load(open(p))
        agg["cases"] = max(agg["cases"], r["cases"])
        for k in ("executed", "transitions", "traces", "checks"):
            agg[k] += r[k]
        exhaustive &= r["exhaustive"]
        capped |= r["capped"]
        bounds.update(r["bounds"])
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["groups"].items():
            groups[k] = groups.get(k, 0) + v
        samples += r["samples"]
        violations += r["violations"]
        st = array.array("Q")
        with open(f"{out}/result.{s}.states", "rb") as f:
            st.frombytes(f.read())
        states.update(st)

    # crashes and hangs: replay the case that was running
    for s, rc, text in crashed[:4]:
        case, _ = progress_case(out, s)
        sig = crash_sig(rc, text)
        if case is None or case == 2**64 - 1:
            print(text[-3000:])
            print(f"harness of {prop} ended with {rc} before its first case")
            return 2
        rc2, text2, _ = run_one(exe, prop, tier, None, case, scratch, env, 240)
        if rc2 not in (0,):
            desc = next((l for l in text2.splitlines() if l.startswith("case ")), "")
            violations.append({"sig": crash_sig(rc2, text2) if rc2 != 1 else sig, "msg": tail(text2), "desc": desc, "group": "crash",
                               "case": case, "confirmed": True})
        else:
            # only fails with what ran before it: replay the whole shard
            rc3, text3, _ = run_one(exe, prop, tier, f"{s}/{shards}", None, scratch, env, limit)
            if rc3 not in (0, 1):
                violations.append({"sig": crash_sig(rc3, text3), "msg": tail(text3),
                                   "desc": f"case {case} after the cases before it in shard {s}/{shards}",
                                   "group": "crash", "case": case, "confirmed": True})
            else:
                print(tail(text))
                print(f"a crash of {prop} did not reproduce (rc {rc}); memory or time limit?")
                return 2

    # one replay per signature
    bysig = {}
    for v in violations:
        bysig.setdefault(v["sig"], v)
        if v["case"] < bysig[v["sig"]]["case"]:
            bysig[v["sig"]] = v
    known = [k for k in load_known() if k["property"] == prop]
    reported, n_known = [], 0
    for sig, v in sorted(bysig.items()):
        if not v.get("confirmed"):
            rc, text, _ = run_one(exe, prop, tier, None, v["case"], scratch, env, 240)
            v["confirmed"] = rc != 0
            if rc == 0:
                v["note"] = "fails only after the preceding cases of its shard"
        k = next((k for k in known if k["sig"] == sig), None)
        if k is not None:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
            n_known += 1
        else:
            reported.append(v)

    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": len(states), "transitions": agg["transitions"],
            "traces_validated_against_impl": agg["traces"],
            "cases_enumerated": agg["cases"], "cases_executed": agg["executed"],
            "comparisons": agg["checks"],
            "cases_per_group": groups, "bounds": bounds, "counters": counters,
            "exhaustive": bool(exhaustive and not violations and agg["executed"] == agg["cases"]),
            "states_capped": capped,
            "samples": samples[:20],
            "build_s": round(t_build, 1),
            "rule": check.get("rule", ""),
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(reported),
    }
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}] cases={agg['executed']}/{agg['cases']} states={len(states)} transitions={agg['transitions']} "
          f"traces={agg['traces']} checks={agg['checks']} known={n_known} violations={len(reported)} "
          f"build={t_build:.1f}s wall={wall:.1f}s")
    if reported:
        rd = f"{HERE}/evidence/replay"
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(reported[:10]):
            path = f"{rd}/{prop}-{i}.json"
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "case": v["case"], "signature": v["sig"],
                           "description": v["desc"], "message": v["msg"], "note": v.get("note", ""),
                           "replay": f"python3 {HERE}/run.py {prop} --tier {tier} --case {v['case']}"}, f, indent=1)
            print(f"  [{v['sig']}] {v['desc'][:1500]}\n      {v['msg'][:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if agg["executed"] == 0:
        print("no case was executed")
        return 2
    return 0


def tail(t):
    return "\n".join(t.splitlines()[-60:])[:4000]


if __name__ == "__main__":
    main()
