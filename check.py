#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] [--scale X] [--facet F]
Builds the harness of PROPERTY together with /repo's current sources (ASan+UBSan)
and runs the generated-case search.  Tier and seed come from VERIF_TIER and
VERIF_SEED.  Exit 0 = held, exit 1 + VIOLATION line = broken, 2 = error."""
import fcntl, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PLAIN = {"P24"}     # run without sanitizers, under helgrind
KIND = "plain" if set(sys.argv[1:2]) & PLAIN else "asan"
BUILD = os.path.join(VERIF, "build", KIND if REPO == "/repo" else KIND + "-" + REPO.strip("/").replace("/", "_"))
FLAGS = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr "
         "-fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS -w")
if KIND == "plain":
    FLAGS = "-O0 -g1 -w"
HARNESS = json.load(open(os.path.join(VERIF, "harness", "map.json")))
QUICK_CAP, THOROUGH_CAP = 400.0, 3000.0
# factor on the case counts of the facets (cheap properties get more cases)
SCALE = {"P02": 2, "P03": 2, "P06": 2, "P07": 4, "P09": 2, "P10": 5, "P11": 20, "P12": 15, "P13": 20, "P14": 4, "P15": 4,
         "P16": 10, "P17": 4, "P18": 16, "P19": 12, "P20": 4, "P21": 3, "P22": 20, "P23": 3, "P24": 3, "P25": 4, "P26": 1}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(target):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(BUILD, "build.ninja")):
            env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
            r = sh(["cmake", "-S", VERIF, "-B", BUILD, "-G", "Ninja", "-DREPO=" + REPO,
                    "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + FLAGS], env=env)
            if r.returncode:
                print(r.stdout)
                sys.exit(2)
        r = sh(["ninja", "-C", BUILD, target])
        if r.returncode:
            print(r.stdout[-6000:])
            print("BUILD FAILED")
            sys.exit(2)
    return os.path.join(BUILD, target)


def main():
    args = sys.argv[1:]
    prop = args[0]
    extra, replay, i = [], None, 1
    while i < len(args):
        if args[i] == "--replay":
            replay = args[i + 1]
        else:
            extra += [args[i], args[i + 1]]
        i += 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    cmd = [build(HARNESS[prop])]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1000000000:malloc_fill_byte=190:"
                           "allocator_may_return_null=0:hard_rss_limit_mb=1800:detect_stack_use_after_return=0:handle_abort=1:"
                           "print_summary=1:fast_unwind_on_malloc=1:malloc_context_size=5")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    env["OMP_NUM_THREADS"] = "4"
    env["TZ"] = "UTC"
    env["LC_ALL"] = "C"
    if KIND == "plain":
        hg = os.path.join(BUILD, "hg")
        shutil.rmtree(hg, ignore_errors=True)
        os.makedirs(hg)
        env["PBT_HG_LOG"] = os.path.join(hg, "log")
        env["LD_BIND_NOW"] = "1"
        cmd = ["valgrind", "--tool=helgrind", "--error-limit=no", "--child-silent-after-fork=no", "--num-callers=8",
               "--log-file=" + env["PBT_HG_LOG"] + ".%p"] + cmd
    if replay:
        sys.exit(subprocess.call(cmd + [prop, "--replay", replay], env=env))
    OUT = VERIF if REPO == "/repo" else os.path.join(BUILD, "out")   # another tree never touches the real evidence
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    stats = os.path.join(BUILD, "stats-%s.json" % prop)
    rep = os.path.join(OUT, "replays", "%s-%s-%d.txt" % (prop, tier, seed))
    cap = QUICK_CAP if tier == "quick" else THOROUGH_CAP
    t1 = time.time()

    def run():
        for p in (stats, rep):
            if os.path.exists(p):
                os.remove(p)
        return subprocess.run(cmd + [prop, "--seed", str(seed), "--tier", tier, "--stats", stats, "--replay-out", rep,
                               "--workers", "8", "--cap-s", str(cap), "--scale", str(SCALE.get(prop, 1))] + extra, env=env,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    r = run()
    if r.returncode == 4:
        print(r.stdout)
        first = r.stdout
        r = run()
        if r.returncode == 4:   # fails again in a fresh process, though not in isolation
            with open(rep, "w") as f:
                f.write("property %s\nsearch seed %d tier %s fails in two fresh processes\n%s\n%s\n" % (prop, seed, tier, first, r.stdout))
            r.returncode = 1
    if r.returncode not in (0, 1):
        print(r.stdout[-4000:])
        print("HARNESS ERROR %d" % r.returncode)
        sys.exit(2)
    st = json.load(open(stats))
    nviol = 1 if r.returncode == 1 else 0
    samples = []
    for f in st["facets"]:
        for s in f["samples"][:2]:
            samples.append({"facet": f["name"], "case": s})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(f["evaluations"] for f in st["facets"]),
            "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in st["facets"]),
            "rule": " || ".join("%s: %s" % (f["name"], f["rule"]) for f in st["facets"]),
            "samples": samples,
            "facets": [{k: f[k] for k in ("name", "evaluations", "nontrivial", "distinct_nontrivial", "discarded", "max_choices", "labels")} for f in st["facets"]],
            "shrink_attempts": st["shrink_attempts"],
            "build_s": round(t1 - t0, 2),
        },
        "assumptions": ["sanitizer build (ASan+UBSan, pattern-initialised memory) of /repo's current tree with g++" if KIND == "asan" else
                        "plain build of /repo's current tree run under valgrind/helgrind; HDF5 files are not used from several threads",
                        "distinct = distinct choice sequences of non-trivial cases"],
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    known = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(known):
        for line in open(known):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                print(line.strip())
    if nviol:
        print(r.stdout[-4000:])
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        sys.exit(1)
    print("OK %s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    sys.exit(0)


if __name__ == "__main__":
    main()
