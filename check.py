#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working
tree, explores, confirms any violation by replaying it in a fresh process, and
writes evidence/<id>.json.

usage: check.py P09            (tier from VERIF_TIER, seed from VERIF_SEED)
       check.py --build [ids]  (build only)
       check.py --replay FILE  (re-execute one recorded violation)
"""
import json, os, subprocess, sys, time, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from units import UNITS, PROPS, LEVEL  # noqa: E402

COMMON = ("-std=gnu++17 -g -w -DMC_HARNESS "
          "-Dnew_table_reader_for_compaction_inputs=is_fd_close_on_exec")
MODES = {
    # instrumented for the controlled scheduler and the race detector
    "sched": "-O1 -fno-inline -fsanitize=thread -DMC_SCHED",
    "asan": "-O1 -fno-omit-frame-pointer -fsanitize=address -fno-sanitize-recover=all -DMC_ASAN_BUILD",
    "plain": "-O1",
}
LINK = {"sched": "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -rdynamic -lpthread -ldl", "asan": "-fsanitize=address -rdynamic -lpthread -ldl",
        "plain": "-rdynamic -lpthread -ldl"}


def includes(unit):
    inc = [os.path.join(HERE, "mc"), os.path.join(HERE, "harness")]
    inc += [os.path.join(HERE, i) for i in unit.get("inc", [])]
    inc += [os.path.join(REPO, "lib/include"), os.path.join(BUILD, "include"),
            os.path.join(REPO, "lib"), os.path.join(BUILD, "include/sse"),
            os.path.join(REPO, "lib/include/sse/schemes")]
    return " ".join("-I" + i for i in inc)


def obj(path, tag):
    n = path.replace("/", "_").lstrip("_")
    return f"obj/{tag}/{n}.o"


def gen_ninja():
    os.makedirs(os.path.join(BUILD, "include/sse"), exist_ok=True)
    conf = open(os.path.join(REPO, "lib/include/sse/configure.hpp.in")).read()
    conf = conf.replace("#cmakedefine HAS_LIBAIO", "#ifndef MC_NO_LIBAIO\n#define HAS_LIBAIO\n#endif")
    cp = os.path.join(BUILD, "include/sse/configure.hpp")
    if not os.path.exists(cp) or open(cp).read() != conf:
        open(cp, "w").write(conf)
    out = ["ninja_required_version = 1.3", "builddir = .",
           "rule cc", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out",
           "  depfile = $out.d", "  deps = gcc", "  description = CC $out",
           # the explorer's own copies are not accesses of the code under test
           "rule rtcc", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out && objcopy"
           " --redefine-sym memcpy=__real_memcpy --redefine-sym memmove=__real_memmove"
           " --redefine-sym memset=__real_memset $out",
           "  depfile = $out.d", "  deps = gcc", "  description = CC $out",
           "rule protoc", "  command = mkdir -p include/protos && protoc -I$dir --cpp_out=include/protos $in",
           "rule ld", "  command = g++ -o $out $in $flags", "  description = LD $out"]
    # the messages of the runners, from the schemes' own definitions
    protos = []
    for n in ("sophos", "diana"):
        src = os.path.join(REPO, f"lib/protos/{n}.proto")
        if os.path.exists(src):
            protos += [f"include/protos/{n}.pb.h", f"include/protos/{n}.pb.cc"]
            out.append(f"build {protos[-2]} {protos[-1]}: protoc {src}\n  dir = {os.path.dirname(src)}")
    done = set()

    def cc(src, tag, flags, deps="", rule="cc"):
        o = obj(src, tag)
        if o not in done:
            done.add(o)
            out.append(f"build {o}: {rule} {src}{deps}\n  flags = {flags}")
        return o

    mcdir = os.path.join(HERE, "mc")
    for name, u in UNITS.items():
        mode = u["mode"]
        tag = mode + u.get("tag", "")
        flags = f"{COMMON} {MODES[mode]} {u.get('flags', '').format(repo=REPO, here=HERE)} {includes(u)}"
        deps = " || " + " ".join(protos) if u.get("protos") and protos else ""
        objs = [cc(os.path.join(HERE, "harness", s), tag, flags, deps) for s in u["harness"]]
        objs += [cc(os.path.join(REPO, s), tag, flags, deps) for s in u.get("repo", [])]
        objs += [cc(os.path.join(HERE, s), tag, flags, deps) for s in u.get("extra", [])]
        objs += [cc(f"include/protos/{n}.pb.cc", tag, flags) for n in u.get("protos", [])]
        rtf = f"-std=gnu++17 -g -w -O1 -I{mcdir}"
        if mode == "asan":
            objs.append(cc(mcdir + "/explore.cpp", "rt-asan", rtf + " -fsanitize=address"))
            objs.append(cc(mcdir + "/nosched.cpp", "rt-asan", rtf + " -fsanitize=address"))
        elif mode == "plain":
            objs.append(cc(mcdir + "/explore.cpp", "rt", rtf))
            objs.append(cc(mcdir + "/nosched.cpp", "rt", rtf))
        else:
            objs.append(cc(mcdir + "/explore.cpp", "rt-sched", rtf, rule="rtcc"))
            objs.append(cc(mcdir + "/sched.cpp", "rt-sched", rtf + " -O2 -fno-threadsafe-statics", rule="rtcc"))
        out.append(f"build bin/{name}: ld {' '.join(objs)}\n  flags = {u.get('libs', '')} {LINK[mode]}")
    txt = "\n".join(out) + "\n"
    p = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)


def build(names):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen_ninja()
        r = subprocess.run(["ninja", "-C", BUILD] + ["bin/" + n for n in names],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("check.py: the harness does not build against this tree")
        sys.exit(2)


def known_findings(pid):
    """keys of recorded (unrepaired) findings of this property"""
    keys = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            if e["property"] == pid and e["status"] == "known":
                keys.append((e["key"], e["what"]))
    return keys


def run_unit(pid, name, tier, seed, known):
    part = os.path.join(BUILD, f"part-{pid}-{name}.json")
    kf = os.path.join(BUILD, f"known-{pid}.txt")
    with open(kf, "w") as f:
        f.write("\n".join(k for k, _ in known) + "\n")
    rd = os.path.join(HERE, "replay")
    os.makedirs(rd, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0:"
                           "detect_stack_use_after_return=0")
    if os.path.exists(part):
        os.remove(part)
    cmd = [os.path.join(BUILD, "bin", name), "--property", pid, "--tier", tier, "--seed", str(seed),
           "--part", part, "--replay-dir", rd, "--known", kf, "--jobs", str(os.cpu_count() or 8)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                       errors="replace")
    return r, part, env


def replay(pid, name, tier, path, env, kf):
    cmd = [os.path.join(BUILD, "bin", name), "--property", pid, "--tier", tier, "--replay", path,
           "--known", kf]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                           errors="replace", timeout=200)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 66, "replay timed out (hang)"


def main():
    if sys.argv[1] == "--build":
        ids = sys.argv[2:] or sorted(PROPS)
        build(sorted({u for i in ids for u in PROPS[i]["units"]}))
        return 0
    if sys.argv[1] == "--replay":
        d = {}
        for line in open(sys.argv[2], errors="replace"):
            k, _, v = line.rstrip("\n").partition(" ")
            d.setdefault(k, v)
        pid = d["property"]
        build(PROPS[pid]["units"])
        for n in PROPS[pid]["units"]:
            code, out = replay(pid, n, d["tier"], sys.argv[2], dict(os.environ), "/dev/null")
            if code != 5:
                sys.stdout.write(out)
                print(f"replay exit code {code} (66: the violation reproduces)")
                return 1 if code == 66 else 0
        return 2

    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    names = PROPS[pid]["units"]
    ev = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    build(names)
    tb = time.time() - t0
    known = known_findings(pid)
    parts, code, seen = [], 0, set()
    for n in names:
        # A report counts when its replay shows it again.  One which does not
        # (a starved machine, or native threads) is looked for anew; a report
        # in each of three runs is believed unless it is a time limit.
        for attempt in (1, 2, 3):
            r, part, env = run_unit(pid, n, tier, seed, known)
            for line in r.stdout.splitlines():
                if line.startswith("KNOWN "):
                    seen.add(line[6:])
                elif line.startswith("[mc]"):
                    print(line)
            if r.returncode != 66:
                break
            path = [l[9:] for l in r.stdout.splitlines() if l.startswith("VIOLATED ")][-1]
            kf = os.path.join(BUILD, f"known-{pid}.txt")
            if any(replay(pid, n, tier, path, env, kf)[0] == 66 for _ in range(3)) or (
                    attempt == 3 and "time limit (hang)" not in r.stdout):
                sys.stdout.write(r.stdout[-3000:])
                print(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}")
                code = 1
                break
            print("check.py: a reported violation did not reproduce on replay")
            if time.time() - t0 > 500:
                break
        if r.returncode not in (0, 66):
            print(f"check.py: {n} ended with {r.returncode}")
        if r.returncode != 0 and code != 1:
            sys.stdout.write(r.stdout[-4000:])
            code = code or 2
        if os.path.exists(part):
            parts.append((n, json.load(open(part))))
        if code == 1:
            break
    for k, what in known:
        if k in seen:
            print(f"KNOWN-FINDING: property={pid} {what} [{k}]")

    def tot(f):
        return sum(p[f] for _, p in parts)
    samples = [s for _, p in parts for s in p["samples"]][:14]
    cov = {
        "states": sum((p["distinct_states"] or p["choice_nodes"]) for _, p in parts),
        "states_are": "distinct abstract states where a scenario reports them, else nodes of the explored choice tree",
        "transitions": tot("schedule_steps") + tot("op_transitions"),
        "traces_validated_against_impl": tot("executions"),
        "evaluations": tot("executions"),
        "distinct_nontrivial": tot("distinct_outcomes") or tot("choice_nodes"),
        "rule": PROPS[pid]["rule"],
        "choice_tree_nodes": tot("choice_nodes"),
        "max_choice_depth": max([p["max_choice_depth"] for _, p in parts] or [0]),
        "model_comparisons": tot("comparisons"),
        "distinct_outcomes": tot("distinct_outcomes"),
        "pruned": tot("pruned"),
        "exhaustive": bool(parts) and all(p["complete"] for _, p in parts) and code == 0,
        "samples": samples or ["(none)"],
        "counters": {k: v for _, p in parts for k, v in p["counters"].items()},
        "scenarios": [dict(unit=n, **s) for n, p in parts for s in p["scenarios"]],
    }
    json.dump({
        "property": pid, "tier": tier, "seed": seed, "level": PROPS[pid].get("level", LEVEL),
        "coverage": cov, "assumptions": PROPS[pid].get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2),
        "violations": 1 if code == 1 else 0,
    }, open(ev, "w"), indent=1)
    print(f"check {pid} tier={tier}: executions={tot('executions')} exhaustive={cov['exhaustive']} "
          f"build={tb:.1f}s wall={time.time() - t0:.1f}s exit={code}")
    return code


if __name__ == "__main__":
    sys.exit(main())
