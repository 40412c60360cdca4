#!/usr/bin/env python3
"""Driver of the checks: run.py <PROPERTY> [quick|thorough], or run.py setup.

Builds git-who from /repo's working tree, runs the property's generated-input
search (harness/, Go with pgregory.net/rapid) in several processes, merges what
they covered into evidence/<PROPERTY>.json and reports.

Exit 0: held on everything explored; 1: violated (with a VIOLATION line);
2: the check itself could not run.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.27.3/bin"

# Generated cases per process: quick, thorough.
CASES = {
    "C01": (260, 12000), "C02": (260, 10000), "C03": (260, 12000), "C04": (260, 10000), "C05": (260, 10000),
    "C06": (220, 9000), "C07": (260, 10000), "C08": (240, 10000), "C09": (60, 3000), "C10": (120, 9000),
    "C11": (120, 9000), "C12": (120, 9000), "C13": (260, 10000), "C14": (260, 12000), "C15": (300, 14000),
    "C16": (240, 10000), "C17": (240, 10000), "C18": (160, 10000), "C19": (240, 10000), "C20": (240, 16000),
    "C21": (400, 40000), "C22": (120, 8000), "C23": (300, 20000), "C24": (240, 14000), "C25": (120, 8000),
    "C26": (240, 12000), "C27": (200, 10000), "C28": (20, 1500), "C29": (100, 7000), "C30": (240, 12000), "C31": (240, 10000), "C32": (240, 16000), "C33": (240, 9000), "C34": (200, 9000), "C35": (240, 14000),
}
SHARDS = 8
BUDGET = {"quick": 400, "thorough": 5400}  # seconds after which no new case is begun


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def go_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "VERIF_"))}
    e.update(
        HOME=os.environ.get("HOME", "/root"), PATH=GOROOT + ":" + os.environ.get("PATH", "/usr/bin:/bin"),
        GOTOOLCHAIN="local", GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOSUMDB="off",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
        GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOWORK="off",
    )
    return e


def go(args, cwd):
    p = subprocess.run(["go"] + args, cwd=cwd, env=go_env(), capture_output=True, text=True)
    if p.returncode:
        die("go %s in %s failed:\n%s%s" % (" ".join(args), cwd, p.stdout, p.stderr))


def build_harness(out):
    go(["test", "-c", "-o", os.path.join(out, "harness.test"), "."], os.path.join(VERIF, "harness"))
    go(["build", "-o", os.path.join(out, "gitshim", "git"), "./gitshim"], os.path.join(VERIF, "harness"))


def scratch():
    for base in ("/dev/shm", None):
        try:
            if base and shutil.disk_usage(base).free < 4 << 30:
                continue
            d = tempfile.mkdtemp(prefix="verif-", dir=base)
            os.chmod(d, 0o755)
            return d
        except OSError:
            pass
    die("no scratch directory")


def main():
    if len(sys.argv) < 2:
        die("usage: run.py PROPERTY [quick|thorough]")
    if sys.argv[1] == "setup":
        d = scratch()
        try:
            build_harness(d)  # fills the build cache
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return 0
    pid = sys.argv[1]
    if pid not in CASES:
        die("no check for " + pid)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        die("unknown tier " + tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    n = int(os.environ.get("VERIF_CASES", "0")) or CASES[pid][tier == "thorough"]
    start = time.time()
    d = scratch()
    try:
        return run(pid, tier, seed, n, d, start)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", d], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)


def run(pid, tier, seed, n, d, start):
    who = os.path.join(d, "bin", "git-who")
    os.makedirs(os.path.join(d, "bin"))
    go(["build", "-o", who, "."], REPO)
    build_harness(os.path.join(d, "bin"))
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(replays, f))
    procs = []
    for i in range(SHARDS):
        work = os.path.join(d, "s%d" % i)
        os.makedirs(work)
        env = {
            "PATH": GOROOT + ":/usr/local/bin:/usr/bin:/bin", "HOME": work, "TMPDIR": work, "TZ": "UTC", "LC_ALL": "C.UTF-8",
            "VERIF_CHECK": pid, "VERIF_TIER": tier, "VERIF_SHARD": str(i), "VERIF_WHO": who, "VERIF_WORK": work,
            "VERIF_REPLAYS": replays, "VERIF_STATS": os.path.join(d, "stats%d.json" % i), "VERIF_REPO": REPO,
            "VERIF_SHIM": os.path.join(d, "bin", "gitshim"), "VERIF_BUDGET": str(BUDGET[tier]), "VERIF_DIR": VERIF,
        }
        log = open(os.path.join(d, "log%d" % i), "w")
        rs = (seed * 1000003 + i * 7919 + 1) & 0x7FFFFFFFFFFFFFFF
        cmd = [os.path.join(d, "bin", "harness.test"), "-test.run", "^TestCheck$", "-test.timeout", "0",
               "-rapid.checks=%d" % n, "-rapid.seed=%d" % (rs or 1), "-rapid.nofailfile",
               "-rapid.shrinktime=%ds" % (20 if tier == "quick" else 60)]
        procs.append((i, subprocess.Popen(cmd, cwd=work, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True), log))
    # A failing process has found a violation: the others need not go on for long.
    failed_at = None
    try:
        while True:
            states = [p.poll() for _, p, _ in procs]
            if all(s is not None for s in states):
                break
            if failed_at is None and any(s not in (None, 0) for s in states):
                failed_at = time.time()
            if failed_at and time.time() - failed_at > 45:
                for _, p, _ in procs:
                    if p.poll() is None:
                        kill(p)
            time.sleep(0.05)
    finally:
        for _, p, log in procs:
            if p.poll() is None:
                kill(p)
            log.close()

    total = {"cases": 0, "runs": 0, "nontrivial": 0}
    classes, samples, rule = {}, [], ""
    for i in range(SHARDS):
        f = os.path.join(d, "stats%d.json" % i)
        if not os.path.exists(f):
            continue
        s = json.load(open(f))
        for k in total:
            total[k] += s[k]
        for k, v in (s["classes"] or {}).items():
            classes[k] = classes.get(k, 0) + v
        samples += (s["samples"] or [])[: 2 if i == 0 else 1]
        rule = s.get("rule") or rule
    violations, errors = [], []
    for i, p, _ in procs:
        text = open(os.path.join(d, "log%d" % i), errors="replace").read()
        if p.returncode == 0:
            continue
        replay = os.path.join(replays, "%s-%d.sh" % (pid, i))
        if p.returncode == 1 and "--- FAIL" in text:
            if not os.path.exists(replay):
                open(replay, "w").write("#!/bin/bash\n# The check failed without recording its steps:\n" + "".join("# %s\n" % l for l in text[-6000:].split("\n")))
            violations.append((replay, text))
        elif p.returncode in (-9, -15) and failed_at:
            pass  # stopped above
        else:
            errors.append("process %d ended with %s:\n%s" % (i, p.returncode, text[-3000:]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level(pid),
        "coverage": {
            "evaluations": total["runs"], "cases": total["cases"], "distinct_nontrivial": total["nontrivial"],
            "rule": rule, "samples": samples[:8], "classes": dict(sorted(classes.items())),
        },
        "wall_s": round(time.time() - start, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print("%s %s seed %d: %d cases, %d judged runs, %d distinct non-trivial, %.0f s" % (
        pid, tier, seed, total["cases"], total["runs"], total["nontrivial"], time.time() - start))
    for text in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if violations:
        replay, text = violations[0]
        msg = [l for l in text.split("\n") if l.strip() and "[rapid] draw" not in l]
        print("\n".join(msg[:60]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if errors:
        die("\n".join(errors))
    if not total["runs"]:
        die("nothing was checked")
    return 0


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def level(pid):
    for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
        if c["property"] == pid:
            return c["level"]
    return "exploration"


def known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except OSError:
        pass
    return out


if __name__ == "__main__":
    sys.exit(main())
