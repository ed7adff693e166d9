#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

usage: run.py ID [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored
exit 1: a violation was found (VIOLATION line, replay file under /verif/replays)
exit 3: the check could not be carried out (build error, time or memory ran out)
"""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

GOENV = {
    "HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod",
    "CGO_ENABLED": "0", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
    "GONOSUMDB": "*", "GONOSUMCHECK": "1", "GOFLAGS": "-mod=mod", "GOSUMDB": "off", "GODEBUG": "",
}


def err(msg):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()


def seed_from_env():
    raw = os.environ.get("VERIF_SEED", "1")
    try:
        v = int(raw)
    except ValueError:
        v = int(hashlib.sha256(raw.encode()).hexdigest()[:8], 16)
    return v


def shard_seed(seed, i):
    # never 0 (rapid and hypothesis treat 0 specially), below 2**31
    return (abs(seed) * 1000003 + i * 7919 + 1) % (2**31 - 2) + 1


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Proc:
    def __init__(self, cmd, cwd, env, log):
        self.log = log
        self.f = open(log, "wb")
        self.p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=self.f, stderr=subprocess.STDOUT,
                                  stdin=subprocess.DEVNULL, start_new_session=True)

    def wait(self, deadline):
        try:
            rc = self.p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.f.close()
        return rc


def build_go(chk, tmp):
    env = dict(os.environ, **GOENV)
    if chk.get("race"):
        env["CGO_ENABLED"] = "1"
    src = os.path.join(VERIF, "gocheck")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(src, f), os.path.join(tmp, f))
    bins = []
    for n, pkg in enumerate([chk["pkg"]] + [x["pkg"] for x in chk.get("more", [])]):
        binp = os.path.join(tmp, "check%d.test" % n)
        cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + os.path.join(tmp, "go.mod"), "-o", binp, pkg]
        if chk.get("race"):
            cmd.insert(2, "-race")
        p = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            err("build failed:\n" + p.stdout.decode(errors="replace")[-6000:])
            return None
        bins.append(binp)
    for name, pkg in chk.get("bins", {}).items():
        p = subprocess.run(["go", "build", "-o", os.path.join(tmp, name), pkg], cwd=REPO,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            err("build failed:\n" + p.stdout.decode(errors="replace")[-6000:])
            return None
    return bins


def race_in_repo(text):
    """A data race with at least one of the two accesses made by code of the repository."""
    for rep in re.split(r"^WARNING: DATA RACE$", text, flags=re.M)[1:]:
        rep = rep.split("==================")[0]
        for stack in re.split(r"\n\n", rep):
            if not re.match(r"\s*(Previous )?(atomic )?(Read|Write|read|write) (at|of)", stack.strip()):
                continue
            for loc in re.findall(r"^\s+(/\S+\.go):\d+", stack, re.M):
                if not loc.startswith((REPO + "/", VERIF + "/")):
                    continue
                if loc.startswith(REPO + "/"):
                    return True
                break
    return False


def classify(rc, text, kind):
    """-> ok | violation | error"""
    if rc == 0:
        return "ok"
    if rc is None:
        return "error"
    if kind in ("go", "race"):
        if "panic: test timed out" in text:
            return "error"
        oom = re.search(r"cannot allocate (\d+)-byte block", text)
        if oom:
            # a single absurd request is the code's doing, not the machine's
            return "violation" if int(oom.group(1)) > 1 << 40 and "/repo/" in text else "error"
        if "fatal error: out of memory" in text or "cannot allocate memory" in text or "too many open files" in text:
            return "error"
        if "VERIF-INCONCLUSIVE" in text:
            return "error"
        if "WARNING: DATA RACE" in text:
            return "violation" if race_in_repo(text) else "error"
        if kind == "race":
            # only unsynchronised access counts here; other failures are reported by the checks the tests belong to
            if re.search(r"^fatal error: concurrent map", text, re.M) and "/repo/" in text:
                return "violation"
            return "ok" if re.search(r"^--- FAIL", text, re.M) and "[rapid]" in text else "error"
        if re.search(r"^--- FAIL", text, re.M) and "[rapid]" in text:
            return "violation"
        if re.search(r"^(panic: |fatal error: )", text, re.M) and "/repo/" in text:
            return "violation"
        return "error"
    if "VERIF-INCONCLUSIVE" in text:
        return "error"
    if rc == 1 and "PROPERTY-VIOLATED" in text:
        return "violation"
    return "error"


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = os.path.abspath(args.pop(0))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    chk = CHECKS[pid]
    seed = seed_from_env()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        rc = run(pid, chk, tier, seed, tmp, t0, replay)
    finally:
        subprocess.run(["chmod", "-R", "u+w", tmp], stderr=subprocess.DEVNULL)
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(pid, chk, tier, seed, tmp, t0, replay):
    kind = chk["kind"]
    bins = None
    if kind == "go":
        bins = build_go(chk, tmp)
        if bins is None:
            return 3
    if chk.get("java"):
        p = subprocess.run(["bash", os.path.join(VERIF, "jscore", "build.sh"), os.path.join(tmp, "java")] + chk["java"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            err("java build failed:\n" + p.stdout.decode(errors="replace")[-6000:])
            return 3
    programs = [dict(run=chk["run"], qscale=chk.get("qscale", 3), scale=chk.get("scale", 60))] if kind == "go" else [{}]
    for x in chk.get("more", []):
        programs.append(dict(run=x["run"], qscale=x.get("qscale", 3), scale=x.get("scale", 60)))
    shards = (chk.get("shards", 4) if tier == "quick" else chk.get("tshards", 8)) * len(programs)
    limit = 780 if tier == "quick" else chk.get("tlimit", 3600)
    deadline = time.time() + limit
    rj = json.load(open(replay)) if replay else None
    if replay:
        shards = 1
    rounds = []

    def launch():
        procs = []
        rounds.append(1)
        for i in range(shards):
            n = rj.get("program", 0) if replay else i % len(programs)
            prog = programs[n]
            cwd = os.path.join(tmp, "s%d.%d" % (i, len(rounds)))
            os.mkdir(cwd)
            env = dict(os.environ, VERIF_TIER=tier, VERIF_STATS=os.path.join(cwd, "stats"), VERIF_SHARD=str(i),
                       VERIF_KNOWN=os.path.join(cwd, "known"), VERIF_TMP=cwd, VERIF_BUILD=tmp, TMPDIR=cwd,
                       VERIF_SCALE=str(prog.get("qscale", 3) if tier == "quick" else prog.get("scale", 60)),
                       VERIF_SEED=str(shard_seed(seed, i)))
            env["VERIF_JAVA"] = os.path.join(tmp, "java")
            env["GORACE"] = "halt_on_error=1"
            if kind == "go":
                env.update(GOENV)
                env["GOTRACEBACK"] = "all"
                cmd = [bins[n], "-test.run", prog["run"], "-test.timeout", "%ds" % max(60, deadline - time.time()), "-test.count=1",
                       "-rapid.seed=%d" % shard_seed(seed, i), "-rapid.shrinktime=%s" % chk.get("shrink", "20s")]
                if replay:
                    if rj.get("rapid_failfile"):
                        ff = os.path.join(cwd, "replay.fail")
                        open(ff, "w").write(rj["rapid_failfile"])
                        cmd += ["-rapid.failfile=" + ff, "-test.run", "^%s$" % rj["test"], "-test.v"]
                    else:
                        cmd[-2] = "-rapid.seed=%d" % rj["seed"]
            else:
                py = "/opt/veriftools/pyvenv/bin/python3"
                if not os.path.exists(py):
                    py = "python3-vt"
                env["PYTHONPATH"] = os.path.join(VERIF, "pycheck")
                env["PYTHONDONTWRITEBYTECODE"] = "1"
                env["PYTHONHASHSEED"] = "0"
                cmd = [py, os.path.join(VERIF, "pycheck", chk["script"]), chk.get("arg", pid)]
                if replay:
                    cmd += ["--replay", replay]
            procs.append((i, cwd, Proc(cmd, cwd, env, os.path.join(cwd, "log"))))
        results = []
        for i, cwd, p in procs:
            rc = p.wait(deadline)
            text = open(p.log, errors="replace").read()
            results.append((i, cwd, classify(rc, text, "race" if chk.get("race") else kind), text, rc))
        return results

    results = launch()
    # A failure that rapid itself cannot repeat may come from the machine (a deadline missed under load): it counts if it
    # comes back when the same shards run again.
    unrepeated = []
    while not replay and len(rounds) < 3 and time.time() + 1.5 * (time.time() - t0) < deadline:
        bad = [r for r in results if r[2] == "violation"]
        if not bad or not all("flaky test, can not reproduce" in r[3] for r in bad):
            break
        unrepeated += [r[3][:2000] for r in bad]
        print("not repeated by rapid, running again:\n" + bad[0][3][:1500])
        results = launch()
    if replay:
        print(results[0][3][-8000:])
        return 1 if results[0][2] == "violation" else (0 if results[0][2] == "ok" else 3)

    # evidence
    ev, nontrivial, samples, rules, labels = 0, set(), [], [], {}
    for i, cwd, st, text, rc in results:
        sp = os.path.join(cwd, "stats")
        if not os.path.exists(sp):
            continue
        for line in open(sp):
            s = json.loads(line)
            ev += s["evaluations"]
            nontrivial.update((s["test"], k) for k in s["nontrivial"] or [])
            if i == 0:
                samples += [s["test"] + ": " + x for x in (s["samples"] or [])[:3]]
            r = s["test"] + ": " + s["rule"]
            if r not in rules:
                rules.append(r)
            for k, v in (s.get("labels") or {}).items():
                labels[s["test"] + ":" + k] = labels.get(s["test"] + ":" + k, 0) + v
    known, listed = set(), known_findings(pid)
    for i, cwd, st, text, rc in results:
        kp = os.path.join(cwd, "known")
        if os.path.exists(kp) and not chk.get("race"):  # findings of other properties
            known.update(x.strip() for x in open(kp) if x.strip())
    bad = [r for r in results if r[2] == "violation"]
    errors = [r for r in results if r[2] == "error"]
    unlisted = sorted(k for k in known if k not in listed)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(nontrivial), "rule": "; ".join(rules),
                     "samples": samples[:12], "classes": labels, "shards": shards, "unrepeated_failures": len(unrepeated)},
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad) + len(unlisted),
    }
    if chk.get("assumptions"):
        evidence["assumptions"] = chk["assumptions"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in sorted(listed):
        # a listed finding is only announced while the code still shows it
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]))
    if bad or unlisted:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        if bad:
            i, cwd, st, text, rc = bad[0]
            rj = {"property": pid, "tier": tier, "seed": shard_seed(seed, i), "program": i % len(programs),
                  "log": text[-20000:] if kind == "py" else text[:30000]}
            m = re.search(r'-rapid\.failfile="([^"]+)"', text)
            mt = re.search(r'To reproduce, specify -run="([^"]+)"', text)
            if m and os.path.exists(os.path.join(cwd, m.group(1))):
                rj["rapid_failfile"] = open(os.path.join(cwd, m.group(1))).read()
                rj["test"] = mt.group(1) if mt else ""
            rp = os.path.join(cwd, "replay.json")
            if os.path.exists(rp):
                rj["case"] = json.load(open(rp))
            print(text[:6000] if kind == "go" else text[-6000:])
        else:
            rj = {"property": pid, "tier": tier, "seed": seed, "log": "finding not listed: %s" % unlisted}
        h = hashlib.sha256(json.dumps(rj, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.json" % (pid, h))
        with open(path, "w") as f:
            json.dump(rj, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for i, cwd, st, text, rc in errors[:1]:
            err("shard %d ended with %s:\n%s" % (i, rc, text[-5000:]))
        return 3
    if ev == 0:
        err("no case was generated")
        return 3
    print("OK property=%s tier=%s cases=%d distinct_nontrivial=%d wall=%.1fs" % (pid, tier, ev, len(nontrivial), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
