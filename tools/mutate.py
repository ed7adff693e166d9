#!/usr/bin/env python3
"""Mutation sweep, to find what a check misses: applies small edits to copies of /repo and runs a Go check of
/verif/gocheck (black box) on each; prints the edits that survive. Not used by any registered check.

usage: mutate.py --files a.go,b.go --pkg ./codec --run '^TestK01' [--n 60] [--workers 4] [--scale 1] [--seed 1] [--timeout 120] [--java mod,mod]
"""
import argparse, hashlib, os, random, re, shutil, subprocess, sys, threading, queue, time

ap = argparse.ArgumentParser()
ap.add_argument("--files", required=True)
ap.add_argument("--pkg", required=True)
ap.add_argument("--run", required=True)
ap.add_argument("--n", type=int, default=60)
ap.add_argument("--workers", type=int, default=4)
ap.add_argument("--scale", default="1")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--timeout", type=int, default=150)
ap.add_argument("--lines", default="")
ap.add_argument("--java", default="")
a = ap.parse_args()
BASE = "/tmp/mut"

OPS = [
    (r"==", "!="), (r"!=", "=="), (r"(?<![<\-=])<(?![<\-=])", "<="), (r"<=", "<"), (r"(?<![>\-=])>(?![>=])", ">="), (r">=", ">"),
    (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r"\+ 1\b", ""), (r"- 1\b", ""), (r"\+1\b", ""), (r"-1\b", ""),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\breturn err$", "return nil"), (r", err$", ", nil"), (r"\bbreak$", "continue"), (r"\bcontinue$", "break"),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b(\d{2,})\b", "PLUS1"), (r"^(\s*)if (.*) \{$", "IFNOT"), (r"^(\s*)[\w.\[\]]+(\(.*\)|\+\+|--| [-+|&]?= .*)$", "DEL"),
    (r"\+=", "-="), (r"append\(", "APPEND"), (r"\[1:\]", "[0:]"), (r"\[:n\]", "[:]"), (r"<<", ">>"), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
]
JOPS = [
    (r"==", "!="), (r"!=", "=="), (r"(?<![<\-=\w>])<(?![<\-=?\w])", "<="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|", "&&"),
    (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.add\(", ".subtract("), (r"\.subtract\(", ".add("),
    (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"BigInteger\.ONE", "BigInteger.ZERO"), (r"BigInteger\.ZERO", "BigInteger.ONE"),
    (r"^(\s*)if \((.*)\) \{$", "JIFNOT"), (r"^(\s*)[\w.\[\]]+(\(.*\)|\+\+|--| [-+]?= .*);$", "DEL"), (r"\.negate\(\)", ""), (r"!(\w)", r"\1"), (r"\.isEmpty\(\)", ".isBlank()"),
]


def mutants():
    out = []
    for f in a.files.split(","):
        lines = open("/repo/" + f).read().split("\n")
        java = f.endswith(".java")
        lo, hi = 0, len(lines)
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
        block = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("/*"):
                block = True
            if block:
                if "*/" in s:
                    block = False
                continue
            if i + 1 < lo or i + 1 > hi or s.startswith(("//", "import", "package", "*", "@", '"')) or "log" in s.lower() and "(" in s and "if" not in s:
                continue
            if re.match(r"^(func|type|var|const|\)|public class|private final)", s):
                continue
            for rx, rep in (JOPS if java else OPS):
                ms = list(re.finditer(rx, l))
                for m in ms[:2]:
                    if rep in ("IFNOT",):
                        if ";" in m.group(2):
                            h, t = m.group(2).rsplit(";", 1)
                            new = m.group(1) + "if " + h + "; !(" + t.strip() + ") {"
                        else:
                            new = m.group(1) + "if !(" + m.group(2) + ") {"
                    elif rep == "JIFNOT":
                        new = m.group(1) + "if (!(" + m.group(2) + ")) {"
                    elif rep == "DEL":
                        new = m.group(1) + (";" if java else "")
                    elif rep == "PLUS1":
                        new = l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]
                    elif rep == "APPEND":
                        continue
                    else:
                        new = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if new != l:
                        out.append((f, i, l, new))
    return out


def prep(w):
    d = "%s/%d" % (BASE, w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["rsync", "-a", "--exclude", ".git", "/repo/", d + "/repo/"]) if shutil.which("rsync") else subprocess.check_call("mkdir -p %s/repo && cd /repo && git ls-files -z | xargs -0 cp --parents -t %s/repo" % (d, d), shell=True)
    shutil.copytree("/verif/gocheck", d + "/gocheck", ignore=shutil.ignore_patterns("testdata"))
    shutil.copytree("/verif/jscore", d + "/jscore")
    p = d + "/gocheck/go.mod"
    s = open(p).read().replace("=> /repo", "=> %s/repo" % d)
    open(p, "w").write(s)
    return d


env = dict(os.environ, GOFLAGS="-mod=mod", CGO_ENABLED="0", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", VERIF_SCALE=a.scale)


def run(cmd, cwd, t, e=env):
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace")
    try:
        o, _ = p.communicate(timeout=t)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, _ = p.communicate()
        rc = 99
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    return rc, o


ms = mutants()
random.Random(a.seed).shuffle(ms)
q = queue.Queue()
for m in ms[:a.n]:
    q.put(m)
res = {"killed": 0, "nobuild": 0, "survived": 0, "tests": 0, "timeout": 0}
lock = threading.Lock()


def work(w):
    d = prep(w)
    e = dict(env, VERIF_REPO=d + "/repo", VERIF_TMP=d)
    while True:
        try:
            f, i, old, new = q.get_nowait()
        except queue.Empty:
            break
        p = d + "/repo/" + f
        src = open(p).read()
        ls = src.split("\n")
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        kind = None
        if f.endswith(".go"):
            rc, o = run(["go", "build", "./" + os.path.dirname(f)], d + "/repo", 120, e)
            if rc:
                kind = "nobuild"
        if kind is None:
            rc, o = run(["go", "test", a.pkg, "-run", a.run, "-count=1", "-rapid.shrinktime=1s", "-timeout", "%ds" % a.timeout], d + "/gocheck", a.timeout + 30, e)
            if rc == 0:
                kind = "survived"
            elif rc == 99 or "test timed out" in o:
                kind = "timeout"
            elif "build failed" in o or "error: " in o and "javac" in o or "cannot find symbol" in o:
                kind = "nobuild"
            elif "VERIF-INCONCLUSIVE" in o or "javac" in o:
                kind = "nobuild"
            else:
                kind = "killed"
        if kind == "survived" and f.endswith(".go"):
            rc, o = run(["go", "test", "./" + os.path.dirname(f)], d + "/repo", 120, e)
            if rc and "no test files" not in o and "setup failed" not in o:
                kind = "tests"
        with lock:
            res[kind] += 1
            if kind in ("survived", "timeout"):
                print("%s %s:%d\n   - %s\n   + %s" % (kind.upper(), f.split("/")[-1], i + 1, old.strip(), new.strip()), flush=True)
        open(p, "w").write(src)


ts = [threading.Thread(target=work, args=(w,)) for w in range(a.workers)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(BASE, ignore_errors=True)
print(res)
