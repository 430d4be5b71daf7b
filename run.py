#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  run.py C09                 run the check (VERIF_SEED, VERIF_TIER)
  run.py C09 --replay FILE   run again the failing case saved in FILE

Exit 0: the property held on everything generated. Exit 1 and a VIOLATION line:
it did not. Exit 2: the check could not give an answer.
"""
import array, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
MEM = 4 << 30


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def environment(scratch):
    env = dict(os.environ)
    for k in ("GOFLAGS", "GOWORK", "GOENV", "GOROOT", "VERIF_REPLAY"):
        env.pop(k, None)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOENV="off", GOFLAGS="-mod=mod", CGO_ENABLED=env.get("CGO_ENABLED", "1"))
    env.setdefault("HOME", "/root")
    env.setdefault("GOCACHE", os.path.join(env["HOME"], ".cache", "go-build"))
    try:
        os.makedirs(env["GOCACHE"], exist_ok=True)
        probe = os.path.join(env["GOCACHE"], ".verif-probe-%d" % os.getpid())
        open(probe, "w").close()
        os.unlink(probe)
    except OSError:
        env["GOCACHE"] = os.path.join(scratch, "gocache")
    return env


def packages(check):
    return check["pkg"] if isinstance(check["pkg"], list) else [check["pkg"]]


def build(check, pkg, scratch, env, race=False):
    """Builds the test binary; returns its path or None (output is printed)."""
    mod = os.path.join(scratch, "go.mod")
    text = open(os.path.join(HERE, "harness", "go.mod")).read()
    text = text.replace("=> /repo", "=> " + REPO).replace("=> ../shims", "=> " + os.path.join(HERE, "shims"))
    open(mod, "w").write(text)
    shutil.copy(os.path.join(HERE, "harness", "go.sum"), os.path.join(scratch, "go.sum"))
    attempts = [[]]
    if check.get("overlay"):
        ov = {}
        for rel, src in check["overlay"].items():
            ov[os.path.join(REPO, rel)] = os.path.join(HERE, "harness", src)
        path = os.path.join(scratch, "overlay.json")
        json.dump({"Replace": ov}, open(path, "w"))
        # With the internal adapter visible if that compiles, else without.
        attempts = [["-overlay", path, "-tags", "verifinternal", "-vet=off"], []]
    out = os.path.join(scratch, pkg.replace("/", "-") + ".test" + ("-race" if race else ""))
    for extra in attempts:
        cmd = ["go", "test", "-c", "-modfile", mod, "-o", out] + (["-race"] if race else []) + extra + ["./" + pkg]
        r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            return out
        print("build failed: %s\n%s" % (" ".join(cmd), r.stdout))
    return None


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Shard:
    def __init__(self, binary, pkg, check, scratch, env, n, total, run=None, extra_env=None, args=(), race=False):
        self.n = n
        self.pkg = pkg
        self.total = total
        self.race = race
        self.known_kind = None
        self.dir = os.path.join(scratch, "shard-%s-%d%s" % (pkg.replace("/", "-"), n, "-race" if race else ""))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        e = dict(env, VERIF_SEED=str(seed()), VERIF_TIER=TIER, VERIF_OUT=self.dir, VERIF_SHARD=str(n), VERIF_SHARDS=str(total),
                 VERIF_KNOWN=os.path.join(HERE, "KNOWN_FINDINGS"), VERIF_CORPUS=os.path.join(HERE, "harness", "corpus"),
                 TMPDIR=self.dir, GOTRACEBACK="all")
        # The shards are the parallelism; more threads each only make the
        # garbage collectors fall behind when the machine is busy.
        e["GOMAXPROCS"] = str(check.get("procs", 8 if check.get("race") else 2))
        e.update(check.get("env", {}))
        scale = check.get(TIER + "_scale", 1)
        e["VERIF_SCALE"] = str(scale)
        if race:  # fewer cases, and others
            e.update(VERIF_SCALE=str(scale * check.get("race_scale", 0.05)), VERIF_SEED=str(seed() + 7919))
        e.update(extra_env or {})
        self.log = os.path.join(self.dir, "log")
        timeout = "3h" if TIER == "thorough" else "760s"
        self.proc = subprocess.Popen([binary, "-test.run", run or check["run"], "-test.timeout", timeout, "-test.count", "1"] + list(args),
                                     cwd=self.dir, env=e, stdin=subprocess.DEVNULL, stdout=open(self.log, "wb"), stderr=subprocess.STDOUT,
                                     preexec_fn=None if race else limits, start_new_session=True)

    def text(self):
        return open(self.log, "rb").read().decode("utf-8", "replace")

    def kind(self):
        if self.known_kind is None:
            self.known_kind = classify(self)
        return self.known_kind

    def starved(self):
        """The machine, and not necessarily the code under test, did not give what the process needed."""
        return self.proc.returncode == 2 and bool(STARVED.search(self.text()))

    def kill(self):
        try:
            os.killpg(self.proc.pid, 9)
        except OSError:
            pass
        self.proc.wait()


def wait_all(shards, budget):
    start = time.time()
    failed_at = None
    while True:
        left = [s for s in shards if s.proc.poll() is None]
        if not left:
            return True
        if failed_at is None and any(s.proc.poll() not in (None, 0) and (s.kind() not in ("hang", "error") and not s.starved()) for s in shards):
            failed_at = time.time()
        if failed_at is not None and time.time() - failed_at > 40:
            for s in left:
                s.kill()
            return True
        if time.time() - start > budget:
            for s in left:
                s.kill()
            return False
        time.sleep(0.05)


STARVED = re.compile(r"^(fatal error: .*out of memory|runtime: out of memory|fatal error: (runtime: )?cannot allocate memory|runtime: failed to create new OS thread)", re.M)

FAIL = re.compile(r"^\s*--- FAIL: (Test[^\s/]+)", re.M)


def classify(s):
    """ok, fail (a property check failed), crash (the process died of the code under test), hang or error"""
    rc = s.proc.returncode
    text = s.text()
    if rc == 0:
        return "ok"
    if "VERIF-HANG" in text:
        return "hang"
    if "panic: test timed out" in text:
        return "error"
    if rc == 1 and FAIL.search(text):
        if "VERIF-HARNESS" in text:
            return "error"
        return "fail"
    if rc == 2 and re.search(r"^(panic:|fatal error:|runtime: out of memory|runtime: goroutine stack exceeds)", text, re.M):
        # The process itself died: in a goroutine the test cannot recover from.
        if "vimagination.zapto.org/limage" in text or REPO + "/" in text:
            return "crash"
    return "error"


def save_replay(prop, check, s, kind):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    text = s.text()
    m = FAIL.search(text)
    test = m.group(1) if m else None
    rec = {"property": prop, "kind": kind, "pkg": s.pkg, "test": test, "seed": seed(), "tier": TIER, "shard": s.n, "shards": s.total, "race": s.race, "log": text[-60000:]}
    if test:
        fd = os.path.join(s.dir, "testdata", "rapid", test)
        if os.path.isdir(fd):
            files = sorted(f for f in os.listdir(fd) if f.endswith(".fail"))
            if files:
                rec["failfile"] = open(os.path.join(fd, files[-1])).read()
    j = os.path.join(s.dir, "journal-%d" % s.n)
    if os.path.exists(j):
        rec["journal_hex"] = open(j, "rb").read(1 << 20).hex()
    path = os.path.join(d, "%s-%s-seed%d-%s-shard%d%s.json" % (prop, TIER, seed(), s.pkg.replace("/", "-"), s.n, "-race" if s.race else ""))
    json.dump(rec, open(path, "w"), indent=1)
    return path


def replay(prop, path):
    check = CHECKS[prop]
    rec = json.load(open(path))
    global TIER
    TIER = rec["tier"]
    os.environ["VERIF_SEED"] = str(rec["seed"])
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        env = environment(scratch)
        race = rec.get("race", False)
        binary = build(check, rec["pkg"], scratch, env, race)
        if binary is None:
            return 2
        args, extra = [], {}
        if rec.get("failfile"):
            ff = os.path.join(scratch, "replay.fail")
            open(ff, "w").write(rec["failfile"])
            args = ["-rapid.failfile=" + ff]
            extra["VERIF_REPLAY"] = "1"
        s = Shard(binary, rec["pkg"], check, scratch, env, rec["shard"], rec["shards"], run="^%s$" % rec["test"] if rec.get("test") else None, extra_env=extra, args=args + ["-test.v"], race=race)
        s.proc.wait()
        print(s.text()[-20000:])
        kind = classify(s)
        if kind == "ok":
            print("replay: the case passes")
            return 0
        if kind == "error":
            return 2
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def merge(prop, check, shards, wall, violations):
    ev, labels, samples, known, tests, hashes = 0, {}, [], {}, {}, set()
    for s in shards:
        p = os.path.join(s.dir, "stats-%d.json" % s.n)
        if not os.path.exists(p):
            continue
        st = json.load(open(p))
        ev += st["evaluations"]
        for k, v in (st["labels"] or {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in (st["tests"] or {}).items():
            tests[k] = tests.get(k, 0) + v
        known.update(st["known"] or {})
        for x in st["samples"] or []:
            if len(samples) < 10 and x not in samples:
                samples.append(x)
        h = os.path.join(s.dir, "hashes-%d" % s.n)
        if os.path.exists(h):
            a = array.array("Q")
            a.frombytes(open(h, "rb").read())
            hashes.update(a)
    doc = {
        "property": prop, "tier": TIER, "seed": seed(), "level": check.get("level", "exploration"),
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": check["rule"], "samples": samples,
                     "cases_per_test": tests, "labels": dict(sorted(labels.items()))},
        "assumptions": check.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations,
    }
    if check.get("exhaustive_note"):
        doc["coverage"]["enumerated"] = check["exhaustive_note"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(doc, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    return ev, len(hashes), known


def main():
    if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
        return replay(sys.argv[1], sys.argv[3])
    prop = sys.argv[1]
    check = CHECKS[prop]
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        env = environment(scratch)
        pkgs = packages(check)
        binaries = {p: build(check, p, scratch, env) for p in pkgs}
        if None in binaries.values():
            print("the check does not build; no answer")
            return 2
        total = max(1, check.get("shards", SHARDS) // len(pkgs))
        shards = [Shard(binaries[p], p, check, scratch, env, n, total) for n in range(total) for p in pkgs]
        if check.get("race"):
            # A part of the cases with Go's race detector, if it can be built.
            for p, run in check["race"].items():
                b = build(check, p, scratch, env, race=True)
                if b is not None:
                    binaries[p, "race"] = b
                    shards += [Shard(b, p, check, scratch, env, n, 2, run=run, race=True) for n in range(2)]
                else:
                    print("no race detector here: the race part is left out")
        finished = wait_all(shards, 3 * 3600 if TIER == "thorough" else 760)
        kinds = {s: classify(s) for s in shards}
        bad = [(s, k) for s, k in kinds.items() if k in ("fail", "hang", "crash")]
        # A check that failed has its reproduction; a dead or stuck process is
        # run once more, alone, to be sure that it was the code's doing. If it
        # had been short of memory or time and is not now, then the second run
        # is the one that counts.
        confirmed = None
        bad += [(s, k) for s, k in kinds.items() if k == "error" and s.starved()]
        for s, k in sorted(bad, key=lambda sk: (sk[1] != "fail", sk[0].n)):
            if k == "fail":
                confirmed = (s, k)
                break
            again = Shard(binaries[(s.pkg, "race") if s.race else s.pkg], s.pkg, check, os.path.join(scratch, "again"), env, s.n, s.total,
                          run=check["race"][s.pkg] if s.race else None, race=s.race)
            wait_all([again], 800 if TIER == "thorough" else max(30, 860 - (time.time() - start)))
            k2 = classify(again)
            if k2 in ("fail", "hang", "crash"):
                confirmed = (again, k2)
                break
            if k == "crash" and not s.starved():
                confirmed = (s, k)  # seldom, but it died in the code under test
                break
            if k2 == "ok":
                shards[shards.index(s)] = again
                del kinds[s]
                kinds[again] = k2
        ev, distinct, known = merge(prop, check, shards, time.time() - start, 1 if confirmed else 0)
        for key, what in sorted(known.items()):
            p, _, key = key.partition(" ")
            if p == prop:
                print("KNOWN-FINDING: property=%s %s (%s)" % (p, what, key))
        if confirmed:
            s, k = confirmed
            path = save_replay(prop, check, s, k)
            text = s.text()
            print(text[:6000])
            if k != "fail":
                print("the process %s" % ("did not end" if k == "hang" else "died"))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        errors = [s for s, k in kinds.items() if k != "ok"]
        if errors or not finished:
            for s in errors[:2]:
                text = s.text()
                print("shard %d: exit %s\n%s" % (s.n, s.proc.returncode, text if len(text) < 8000 else text[:4000] + "\n[...]\n" + text[-4000:]))
            print("no answer" + ("" if finished else ": time ran out"))
            return 2
        if ev == 0 or distinct == 0:
            print("nothing was generated; no answer")
            return 2
        print("%s held: %d cases, %d distinct and non-trivial, %.1f s" % (prop, ev, distinct, time.time() - start))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
