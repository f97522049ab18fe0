#!/usr/bin/env python3
"""Supervisor: builds the harness against /repo's working tree, runs one
property in both builds, writes the evidence file and prints VIOLATION lines.

  check.py ID                  run a property (VERIF_TIER, VERIF_SEED)
  check.py --setup             build only
  check.py --replay FILE       run a replay file again
  check.py --all               run every property, summary at the end
"""
import glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.environ.get("FLV_TARGET", os.path.join(HARNESS, "target"))
REPO = os.path.normpath(os.path.join(ROOT, "..", "repo"))
PROFILES = ["checked", "plain"]
QUICK_TIMEOUT = 600      # seconds for one build of the worker, quick tier
THOROUGH_TIMEOUT = 6 * 3600

# The coverage-guided search, thorough tier only: its build has edge counters.
GUIDED = "guided"
TRIPLE = "x86_64-unknown-linux-gnu"
GUIDED_FLAGS = ("-Awarnings -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
                "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters")


class CheckError(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for base in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, _, names in os.walk(base):
            files += [os.path.join(d, n) for n in names]
    files.append(os.path.join(HARNESS, "Cargo.toml"))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(profiles=PROFILES):
    os.makedirs(TARGET, exist_ok=True)
    want = source_hash()
    todo = []
    for p in profiles:
        stamp = os.path.join(TARGET, p + ".sha256")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want or not os.path.exists(binary(p)):
            todo.append(p)
    if not todo:
        return
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC"):
        env.pop(k, None)
    procs = []
    for p in todo:
        # Cargo decides by modification time; we decide by contents.
        stamp = os.path.join(TARGET, p + ".sha256")
        if os.path.exists(stamp):
            os.remove(stamp)
        for pat in ("fourleaf-*", "flverif-*"):
            for d in glob.glob(os.path.join(os.path.dirname(binary(p)), ".fingerprint", pat)):
                shutil.rmtree(d, ignore_errors=True)
        # separate directories so that they can build at once
        cmd = ["cargo", "build", "--offline", "--quiet", "--profile", p,
               "--target-dir", os.path.join(TARGET, p)]
        penv = dict(env, RUSTFLAGS="-Awarnings")
        if p == GUIDED:
            cmd += ["--target", TRIPLE]
            penv["RUSTFLAGS"] = GUIDED_FLAGS
        procs.append((p, subprocess.Popen(cmd, cwd=HARNESS, env=penv, stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)))
    outs = [(p, pr.communicate()[0], pr.returncode) for p, pr in procs]
    for p, out, rc in outs:
        if rc != 0:
            raise CheckError("build of profile %s failed:\n%s" % (p, out[-4000:]))
        with open(os.path.join(TARGET, p + ".sha256"), "w") as f:
            f.write(want)


def binary(profile):
    if profile == GUIDED:
        return os.path.join(TARGET, profile, TRIPLE, profile, "flverif")
    return os.path.join(TARGET, profile, profile, "flverif")


def seed_arg():
    s = os.environ.get("VERIF_SEED", "1")
    try:
        return str(int(s) % (1 << 63))
    except ValueError:
        return str(int(hashlib.sha256(s.encode()).hexdigest()[:15], 16))


def known_findings():
    out = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=ID match=<exact message prefix> :: description
                body = line[len("finding: "):]
                head, _, text = body.partition(" :: ")
                prop, _, match = head.partition(" match=")
                out.append((prop[len("property="):], match, text))
    return out


def write_replay(pid, profile, facet, lines):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.replay" % (pid, facet, profile))
    with open(path, "w") as f:
        f.write("property=%s\nprofile=%s\nfacet=%s\n" % (pid, profile, facet))
        for l in lines:
            f.write(l + "\n")
    return path


def run_worker(profile, args, timeout):
    p = subprocess.Popen([binary(profile)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, cwd=ROOT)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, out
    return p.returncode, out


def check(pid, tier, threads=8, scale="1"):
    """Returns (violations, report lines)."""
    start = time.time()
    build()
    seed = seed_arg()
    violations = []
    total = {"evaluations": 0, "distinct": 0}
    labels, samples, facets_out, rule = {}, [], [], ""
    timeout = QUICK_TIMEOUT if tier == "quick" else THOROUGH_TIMEOUT
    tmp = tempfile.mkdtemp(prefix="flverif-")
    try:
        for profile in PROFILES:
            slots = os.path.join(tmp, "slots-" + profile)
            out = os.path.join(tmp, "out-" + profile)
            rc, log = run_worker(profile, ["run", pid, "--tier", tier, "--seed", seed, "--threads", str(threads),
                                           "--out", out, "--slots", slots, "--scale", scale], timeout)
            sys.stderr.write(log)
            if rc is None:
                raise CheckError("%s (%s): timed out" % (pid, profile))
            if rc < 0 or rc == 3:
                violations += crashed(pid, profile, seed, slots, rc, log)
                continue
            if rc not in (0, 1) or not os.path.exists(out):
                raise CheckError("%s (%s): worker ended with %s\n%s" % (pid, profile, rc, log[-3000:]))
            r = json.load(open(out))
            rule = r["rule"]
            for f in r["facets"]:
                total["evaluations"] += f["evaluations"]
                total["distinct"] += f["distinct"]
                for k, v in f["labels"].items():
                    k = f["facet"] + ": " + k
                    labels[k] = labels.get(k, 0) + v
                samples += [f["facet"] + ": " + s for s in f["samples"][:1]]
                facets_out.append({"build": profile, "facet": f["facet"], "evaluations": f["evaluations"],
                                   "distinct_nontrivial": f["distinct"], "wall_s": f["wall"]})
                if "failure" in f:
                    x = f["failure"]
                    path = write_replay(pid, profile, f["facet"], [
                        "message=" + x["message"].replace("\n", " "),
                        "tape=" + ",".join(map(str, x["tape"]))])
                    violations.append((path, x["message"]))
        if tier == "thorough":
            build(PROFILES + [GUIDED])
            violations += guided(pid, seed, threads, float(scale), tmp, total, labels, facets_out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = [k for k in known_findings() if k[0] == pid]
    reported, listed = [], []
    for path, msg in violations:
        hit = [k for k in known if msg.startswith(k[1])]
        (listed if hit else reported).append((path, msg))
    for _, match, text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"], "distinct_nontrivial": total["distinct"],
            "rule": "Cases are generated from a choice tape by the facets listed; " + rule,
            "samples": samples, "classes": labels, "facets": facets_out,
        },
        "assumptions": ["the reference model in harness/src/refm.rs states the documented format correctly",
                        "both builds (debug assertions and overflow checks on / off) are compiled by the installed stable rustc"],
        "wall_s": round(time.time() - start, 2), "violations": len(reported),
    }
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for path, msg in reported:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  " + msg.replace("\n", " ")[:1500])
    sys.stdout.flush()
    return len(reported)


def crashed(pid, profile, seed, slots, rc, log):
    """The worker died by a signal (rc < 0) or a case hung (rc 3): find the case and confirm it."""
    facet = open(slots + ".facet").read() if os.path.exists(slots + ".facet") else ""
    data = open(slots, "rb").read() if os.path.exists(slots) else b""
    idx = sorted({int.from_bytes(data[i:i + 8], "little") - 1 for i in range(0, len(data) - 7, 8)} - {-1})
    if rc == -signal.SIGKILL:
        raise CheckError("%s (%s): worker was killed" % (pid, profile))
    # all at once: a hung case takes its whole time limit
    procs = [(i, subprocess.Popen([binary(profile), "one", pid, "--facet", facet, "--seed", seed, "--index", str(i)],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=ROOT)) for i in idx]
    found = None
    for i, p in procs:
        out = p.communicate()[0]      # ends: the worker watches itself
        rc = p.returncode
        out = out.strip()[-600:].replace("\n", " ")
        if found or rc == 0 or rc == -signal.SIGKILL:
            continue
        if rc < 0:
            msg = "process died by signal %d (%s)" % (-rc, out)
        elif rc == 3:
            msg = "the case does not finish (%s)" % out
        elif rc == 1:
            msg = "case fails: " + out
        else:
            continue
        found = (write_replay(pid, profile, facet, ["message=" + msg, "seed=" + seed, "index=%d" % i]), msg)
    if found:
        return [found]
    raise CheckError("%s (%s): worker ended with %d, not reproduced by %s\n%s" % (pid, profile, rc, idx, log[-2000:]))


def guided(pid, seed, threads, scale, tmp, total, labels, facets_out):
    """Coverage-guided search of every facet, one process each."""
    jobs = []
    for line in subprocess.check_output([binary(GUIDED), "facets", pid], text=True).splitlines():
        name, n = line.split()
        # few large cases: nothing to guide
        if name.startswith("big") or name.startswith("arrays") or name == "wide" and pid in ("C15", "C22"):
            continue
        jobs.append((name, max(200, int(min(int(n) // 40, 600000) * scale))))
    running, found = {}, []

    def take(name, p, base, began):
        rc = p.returncode
        log = open(base + ".log").read()
        if rc in (0, 1) and os.path.exists(base + ".out"):
            r = json.load(open(base + ".out"))
            sys.stderr.write("%s guided %s: %d evaluations, corpus %d, %d edges\n" % (
                pid, name, r["evaluations"], r["corpus"], r["edges"]))
            total["evaluations"] += r["evaluations"]
            total["distinct"] += r["distinct"]
            for k, v in r["labels"].items():
                labels[name + ": " + k] = labels.get(name + ": " + k, 0) + v
            facets_out.append({"build": GUIDED, "facet": name, "evaluations": r["evaluations"],
                               "distinct_nontrivial": r["distinct"], "corpus": r["corpus"], "edges": r["edges"],
                               "wall_s": round(time.time() - began, 2)})
            x = r.get("failure")
            if x:
                found.append((write_replay(pid, GUIDED, name, ["message=" + x["message"].replace("\n", " "),
                                           "tape=" + ",".join(map(str, x["tape"]))]), x["message"]))
            return
        if rc == -signal.SIGKILL or not (rc < 0 or rc == 3):
            raise CheckError("%s (guided): worker ended with %s\n%s" % (pid, rc, log[-3000:]))
        b = open(base + ".case", "rb").read()
        w = [int.from_bytes(b[i:i + 8], "little") for i in range(0, len(b) - 7, 8)]
        lines = ["extend=%d" % w[2]] if w[1] else []
        path = write_replay(pid, GUIDED, name, lines + ["tape=" + ",".join(map(str, w[3:3 + w[0]]))])
        rc, out = run_worker(GUIDED, ["replay", path], 600)
        if rc == 0 or rc is None or rc == -signal.SIGKILL:
            raise CheckError("%s (guided): worker ended with %s, not reproduced\n%s" % (pid, rc, log[-3000:]))
        out = out.strip()[-600:].replace("\n", " ")
        found.append((path, ("process died by signal %d (%s)" % (-rc, out)) if rc < 0 else
                      ("the case does not finish (%s)" % out) if rc == 3 else "case fails: " + out))

    try:
        while jobs or running:
            while jobs and len(running) < threads:
                name, n = jobs.pop(0)
                base = os.path.join(tmp, "guided-" + name)
                with open(base + ".log", "w") as log:
                    p = subprocess.Popen([binary(GUIDED), "fuzz", pid, "--facet", name, "--seed", seed, "--execs", str(n),
                                          "--out", base + ".out", "--current", base + ".case"],
                                         stdout=log, stderr=subprocess.STDOUT, cwd=ROOT)
                running[name] = (p, base, time.time())
            time.sleep(0.05)
            for name in [k for k in running if running[k][0].poll() is not None]:
                p, base, began = running.pop(name)
                take(name, p, base, began)
    finally:
        for p, _, _ in running.values():
            p.kill()
            p.wait()
    return found


def replay(path):
    f = dict(l.rstrip("\n").split("=", 1) for l in open(path) if "=" in l)
    build([f["profile"]])
    profile = f["profile"]
    if "tape" in f:
        rc, out = run_worker(profile, ["replay", path], 300)
    else:
        rc, out = run_worker(profile, ["one", f["property"], "--facet", f["facet"], "--seed", f["seed"], "--index", f["index"]], 300)
    print(out.strip())
    if rc == 0:
        print("replay: the property held")
        return 0
    if rc is None:
        raise CheckError("timed out")
    print("VIOLATION property=%s replay=%s" % (f["property"], path))
    return 1


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    scale = "1"
    if "--scale" in argv:
        i = argv.index("--scale")
        scale = argv[i + 1]
        del argv[i:i + 2]
    if not argv:
        sys.stderr.write(__doc__)
        return 2
    if argv[0] == "--setup":
        build()
        return 0
    if argv[0] == "--replay":
        return replay(os.path.abspath(argv[1]))
    if argv[0] == "--all":
        build()
        ids = subprocess.check_output([binary("checked"), "list"], text=True).split()
        bad = []
        for i in ids:
            try:
                if check(i, tier, scale=scale):
                    bad.append(i)
            except CheckError as e:
                sys.stderr.write("check error: %s\n" % e)
                bad.append(i + "(error)")
        print("all: " + ("all held" if not bad else "FAILED " + " ".join(bad)))
        return 1 if bad else 0
    return 1 if check(argv[0], tier, scale=scale) else 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except CheckError as e:
        sys.stderr.write("check error: %s\n" % e)
        sys.exit(2)
