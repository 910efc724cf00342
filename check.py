#!/usr/bin/env python3
"""Runs one check: builds the harness against /repo's working tree, runs it in both profiles,
writes the evidence file, prints VIOLATION / KNOWN-FINDING lines.

  check.py ID                 VERIF_SEED, VERIF_TIER from the environment
  check.py --replay FILE      re-runs one recorded failure
  check.py --build            builds everything (setup)

Exit 0: held. 1: violated (VIOLATION line printed). 2: the check itself could not be carried out.
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
WORK = os.path.join(HERE, "work")
REPLAY = os.path.join(HERE, "replay")
REPO = "/repo"
EVID = os.path.join(HERE, "evidence")
# (profile, share of the cases, seed offset)
PROFILES = [("checked", 1.0, 0), ("plain", 0.5, 7_777_777)]
# These are decided by generated programs, built around the same engine.
GENERATED = {"C12": "derive", "C20": "macro"}

DICT = None  # the dictionary of the tree under test, see tools/srcdict.py

ASSUMPTIONS = [
    "the reference model in harness/src/model.rs is a right reading of FORMAT.txt",
    "64-bit little-endian Linux; the machine's memory and a 1 GiB stack bound nesting",
]


class Broken(Exception):
    """The check could not be carried out."""


def dictionary():
    global DICT
    if DICT is None:
        import srcdict
        DICT = srcdict.build(REPO)
    return DICT


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e["BSV_DICT"] = dictionary()
    e.pop("CARGO_TARGET_DIR", None)
    return e


def sh(cmd, timeout, cwd=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise Broken("timed out: " + " ".join(cmd))
    return p.returncode, out


def build(profile):
    rc, out = sh(["cargo", "build", "--offline", "--locked", "-q", "--profile", profile, "--bin", "bsv", "--target-dir", TARGET], 800, HARNESS)
    if rc != 0:
        raise Broken("the harness does not build (%s):\n%s" % (profile, out[-3000:]))
    return os.path.join(TARGET, profile, "bsv")


def binary(pid, profile, seed, tier, state):
    """The program that decides property pid. For generated programs the property may already be
    found broken while building; then state['violation'] is set."""
    if pid in GENERATED:
        import genprog
        return genprog.prepare(sys.modules[__name__], GENERATED[pid], profile, seed, tier, state)
    return build(profile)


def known(pid):
    """Known findings of this property: (pattern, text). Lines: 'finding: property=ID pattern=RE what'."""
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) pattern=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), m.group(3).strip()))
    return res


def save_replay(pid, profile, seed, tier, r):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, "%s-%s-%s-%s.txt" % (pid, profile, tier, seed))
    with open(path, "w") as f:
        f.write("# property=%s profile=%s seed=%s tier=%s idx=%s\n" % (pid, profile, seed, tier, r.get("idx", 0)))
        for line in r.get("message", "").split("\n"):
            f.write("# " + line + "\n")
        f.write("# dict %s\n" % dictionary())
        f.write("# replay: python3 check.py --replay %s\n" % os.path.relpath(path, HERE))
        for x in r.get("tape", []):
            f.write("%d\n" % x)
    return path


def replay(path):
    head = open(path).readline()
    kv = dict(re.findall(r"(\w+)=(\S+)", head))
    global DICT
    for line in open(path):
        if line.startswith("# dict "): DICT = line[len("# dict "):].strip()
    state = {}
    b = binary(kv["property"], kv["profile"], int(kv["seed"]), kv["tier"], state)
    if "violation" in state:
        print(state["violation"]["message"])
        return 1
    rc, out = sh([b, "case", kv["property"], "--idx", kv["idx"], "--tape", path, "--tier", kv["tier"]], 600)
    print(out)
    return 0 if rc == 0 else 1


def run(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    level = {c["property"]: c["level"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}.get(pid, "exploration")
    outdir = os.path.join(WORK, pid)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    evaluations = discarded = 0
    hashes = []
    labels, samples, runs = {}, [], []
    violations = []
    rule = ""
    extra, b = {}, None
    for profile, share, off in PROFILES:
        state = {}
        b = binary(pid, profile, seed + off, tier, state) or b
        if pid in GENERATED: extra.setdefault("programs", []).append(state.pop("programs", {}))
        if "violation" in state:
            r = state["violation"]
            r.setdefault("status", "fail")
        else:
            out = os.path.join(outdir, profile + ".json")
            cmd = [b, "run", pid, "--seed", str(seed + off), "--tier", tier, "--share", str(share), "--out", out]
            rc, text = sh(cmd, 420 if tier == "quick" else 8 * 3600)
            if rc not in (0, 1) or not os.path.exists(out):
                raise Broken("%s (%s): exit %s\n%s\n%s" % (pid, profile, rc, text[-2000:], open(out).read()[-2000:] if os.path.exists(out) else ""))
            r = json.load(open(out))
            if os.path.exists(out + ".hashes"): hashes.append(out + ".hashes")
        evaluations += r.get("evaluations", 0)
        discarded += r.get("discarded", 0)
        rule = r.get("rule", rule)
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        samples += ["[%s] %s" % (profile, s) for s in r.get("samples", [])]
        runs.append({"profile": profile, "seed": seed + off, "evaluations": r.get("evaluations", 0), "wall_s": r.get("wall_s", 0)})
        if r["status"] == "fail":
            path = save_replay(pid, profile, seed + off, tier, r)
            violations.append((path, r.get("message", "")))
            break
    hit = []
    for path, msg in list(violations):
        for pat, text in known(pid):
            if pat.search(msg):
                hit.append(text)
                violations.remove((path, msg))
                break
    for _, text in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    distinct = 0
    if hashes:
        rc, text = sh([b, "distinct"] + hashes, 600)
        if rc != 0: raise Broken("counting distinct cases: " + text[-500:])
        distinct = int(text.split()[-1])
    for f in hashes: os.remove(f)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": dict({
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": rule,
            "samples": samples[:6] or ["none: the run ended at its first case"],
            "discarded": discarded, "classes": labels, "runs": runs,
        }, **extra),
        "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for path, msg in violations:
        print(msg[:4000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if violations:
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, evaluations, distinct, time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--build":
            for p, _, off in PROFILES:
                build(p)
                for pid in GENERATED: binary(pid, p, 1 + off, "quick", {})
            return 0
        if a and a[0] == "--replay":
            return replay(a[1])
        return run(a[0])
    except Broken as e:
        print("ERROR: %s" % e)
        return 2


sys.exit(main())
