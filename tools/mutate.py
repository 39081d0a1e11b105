#!/usr/bin/env python3
"""mutate.py OUT [-n N] [-s SEED] [PROPERTY...]: small changes to the files a property is anchored in, one at a
time in a scratch clone; says which the property's check lets pass.  Survivors are read by hand: either the
change alters nothing the property speaks of, or the check has a gap.  A tool of development, used by no check."""
import json, os, random, re, subprocess, sys, time
args = sys.argv[1:]; out = args.pop(0); n, seed = 12, 1
if "-n" in args: k = args.index("-n"); n = int(args[k + 1]); del args[k:k + 2]
if "-s" in args: k = args.index("-s"); seed = int(args[k + 1]); del args[k:k + 2]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_CLONE", "/tmp/mut/repo")
def sh(c, t=900, **k):
    try: return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c, 124, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""))
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b)", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
       (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bfront\(\)", ["back()"]), (r"\bback\(\)", ["front()"]),
       (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"\brising\b", ["falling"]), (r"\bfalling\b", ["rising"]), (r"\bstart_", ["end_"]), (r"\bend_", ["start_"]),
       (r"\bif \((?!const)", ["if (!("]), (r"^(\s*(?:\} else )?if )([^;(]*[^;]*) \{$", [None]), (r"\bfirst\b", ["second"]), (r"\bsecond\b", ["first"]), (r"\bfrom_", ["to_"]), (r"\bto_\b", ["from_"]), (r"\+\+", ["--"]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
       (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\bany_of\b", ["all_of"]), (r"\ball_of\b", ["any_of"]), (r"\blower_bound\b", ["upper_bound"]), (r"\bupper_bound\b", ["lower_bound"])]
SKIP = re.compile(r"^\s*(//|#|\*|/\*)|uLOG|sassert|assert\(|expect|ensure|static_assert|<<|template|using |namespace|scoped_timer|case .*:$|operator|^\s*\"|throw |constexpr static|include")
def mutants(f):
    lines = open(f).read().split("\n"); r = []
    depth_skip = 0
    for k, l in enumerate(lines):
        if re.search(r"utls::(ensure|expect)s?\(", l): depth_skip = 1
        if depth_skip:
            if re.match(r"^\s*\}?\)+;", l) or l.rstrip().endswith(");"): depth_skip = 0
            continue
        if SKIP.search(l) or not l.strip(): continue
        for p, subs in OPS:
            for m in re.finditer(p, l):
                for s in subs:
                    if s is None:
                        if f.endswith(".go"): r.append((f, k, l, f"{m.group(1)}!({m.group(2)}) {{"))
                        continue
                    new = l[:m.start()] + s + l[m.end():]
                    if p.startswith(r"\bif \("):
                        # negate the whole condition when it ends on this line
                        d, e = 1, m.end()
                        while e < len(l) and d:
                            d += {"(": 1, ")": -1}.get(l[e], 0); e += 1
                        if d: continue
                        new = l[:m.start()] + "if (!(" + l[m.end():e] + ")" + l[e:]
                    r.append((f, k, l, new))
        if f.endswith(".go") and re.match(r"^\t+[\w\.\*\[\]]+(\(.*\)| [-+]?= .*[^{(]|\+\+|--)$", l): r.append((f, k, l, ""))
        if re.match(r"^\s+[\w\.\->\[\]:\(\)\*]+.*;$", l) and not re.match(r"^\s*(return|auto|const|using|break|continue|std::\w+<|[\w:<>]+ (const )?[\w]+( =|\{|;|\())", l):
            r.append((f, k, l, re.match(r"^\s*", l).group(0) + ";"))
    return r
props = {}
exec(open(f"{HERE}/tools/props_data.py").read(), {"P": lambda i, t, s, q, b, w, files, *a: props.__setitem__(i, files)})
os.makedirs("/tmp/mut", exist_ok=True)
if not os.path.exists(W): sh(f"git clone -q {os.environ.get('MUT_FROM', '/repo')} {W}")
sh(f"git -C {W} fetch -q origin; git -C {W} reset -q --hard FETCH_HEAD")
env = dict(os.environ, VERIF_REPO=W)
for pid in args or list(props):
    rng = random.Random(f"{seed}{pid}")
    ms = []
    for f in props[pid]:
        if os.path.isfile(f"{W}/{f}"): ms += [(f, k, a, b) for _, k, a, b in mutants(f"{W}/{f}")]
    rng.shuffle(ms)
    # spread over lines
    seen, pick = set(), []
    for m in ms:
        if (m[0], m[1]) in seen: continue
        seen.add((m[0], m[1])); pick.append(m)
    for f, k, a, b in pick[:n]:
        p = f"{W}/{f}"; lines = open(p).read().split("\n"); assert lines[k] == a
        lines[k] = b; open(p, "w").write("\n".join(lines))
        t = time.time(); r = sh(f"nice python3 {HERE}/run.py {pid} --tier quick", env=env)
        o = r.stdout
        res = "uncompiled" if "BUILD FAILED" in o else "caught" if r.returncode == 1 and f"VIOLATION property={pid}" in o else "SURVIVED" if r.returncode == 0 else f"odd {r.returncode}"
        with open(out, "a") as g: g.write(json.dumps(dict(p=pid, r=res, f=f, line=k + 1, a=a.strip(), b=b.strip(), s=round(time.time() - t))) + "\n")
        sh(f"git -C {W} checkout -q -- .")
