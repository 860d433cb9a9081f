#!/usr/bin/env python3
"""Builds and runs the explorers of one property against /repo's working tree.

  run.py C01 --tier quick|thorough
  run.py C01 --replay replays/C01-xxxx.json
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
FRONT = ["g++", "-std=c++17", "-O1", "-D_GLIBCXX_ASSERTIONS", "-fno-lifetime-dse"]
REST = ["-w",
       "-include", "cstdint", "-include", "stdexcept",
       "-I" + REPO + "/include", "-I" + REPO + "/common", "-I" + REPO + "/bench", "-I" + REPO + "/test", "-I" + HERE + "/mc",
       "-DBENCH_COMMON_HPP=\"%s/bench/common.hpp\"" % REPO]
CXX = FRONT + REST
HOOK = "-DBOOST_SEGMENTED_TREE_VERIFY"
LIMIT = {"quick": 420, "thorough": 6000}          # seconds per explorer process
COMPILE_LIMIT = 240


def sh(cmd, limit, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace") + "\n[time limit]"


class Prop:
    def __init__(self, pid):
        self.id = pid
        self.src = os.path.join(HERE, "mc", "props", pid.lower() + ".cpp")
        head = open(self.src).read()
        m = re.search(r"^// parts: (\d+)", head, re.M)
        self.parts = int(m.group(1)) if m else 1
        m = re.search(r"^// link: (.+)$", head, re.M)
        self.link = m.group(1).split() if m else []
        m = re.search(r"^// needs: (.+)$", head, re.M)
        self.needs = [os.path.join(HERE, "mc", f) for f in m.group(1).split()] if m else []
        m = re.search(r"^// minimal: (.+)$", head, re.M)
        self.minimal = m.group(1).split() if m else []
        m = re.search(r"^// variants: (.+)$", head, re.M)
        self.variants = [v.split() for v in m.group(1).split(";")] if m else []
        m = re.search(r"^// assume: (.+)$", head, re.M)
        self.assume = [x.strip() for x in m.group(1).split(";")] if m else []
        m = re.search(r"^// rule: (.+)$", head, re.M)
        self.rule = m.group(1) if m else ""
        m = re.search(r"^// asan: (.+)$", head, re.M)
        self.asan = [int(x) for x in m.group(1).split()] if m else []
        self.builds = {int(k): v.split() for k, v in re.findall(r"^// build (\d+): (.+)$", head, re.M)}
        self.dir = os.path.join(HERE, "build", pid)
        os.makedirs(self.dir, exist_ok=True)

    def compile(self, part):
        out = os.path.join(self.dir, "part%d" % part)
        src, cxx = self.src, CXX
        if part in self.builds:                    # "// build N: [source.cpp] compiler flags..."
            words = self.builds[part]
            if words[0].endswith(".cpp"):
                src, words = os.path.join(HERE, "mc", "builds", words[0]), words[1:]
            cxx = words + REST
        base = cxx + ["-DPART=%d" % part, src] + (["-fsanitize=address"] if part in self.asan else []) + self.needs + self.link + ["-o", out]
        rc, log = sh(base + [HOOK], COMPILE_LIMIT)
        if rc:                                     # the hook may not fit a changed tree: states from raw memory
            rc2, log2 = sh(base, COMPILE_LIMIT)
            if rc2 == 0:
                return out, "raw", ""
            return None, "", log
        return out, "hook", ""

    def run(self, exe, part, tier, known, extra=(), limit=None):
        res = os.path.join(self.dir, "part%d.json" % part)
        if os.path.exists(res):
            os.unlink(res)
        cmd = [exe, "--prop", self.id, "--tier", tier, "--out", res]
        for k in known:
            cmd += ["--known", k]
        rc, log = sh(cmd + list(extra), limit or LIMIT[tier], cwd=self.dir)
        try:
            d = json.load(open(res))
        except Exception:
            d = None
        return rc, log, d


def known_keys(pid):
    keys, texts = [], {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                keys.append(m.group(2)); texts[m.group(2)] = m.group(3).strip()
    return keys, texts


def minimal_check(p):
    """Programs that use the container with element types that offer only what the used operations
    need, or that use one part of its interface.  A program that no longer compiles, while the base
    program does, shows a new requirement (a part that is gone)."""
    def one(what):
        name, flags = what
        src = os.path.join(HERE, "mc", "minimal", name.split("@")[0] + ".cpp")
        exe = os.path.join(p.dir, name)
        rc, log = sh(flags + [src, "-o", exe], COMPILE_LIMIT)
        if rc:
            return name, "compile", log
        rc, log = sh([exe], 60)
        return name, ("" if rc == 0 else "run"), log
    todo = [(n, CXX) for n in p.minimal]
    if p.variants:                                 # "// variants: g++ -std=c++11; ...": each program in each, nothing included for it
        plain = [w for w in REST if w.startswith("-I") or w == "-w"]
        todo = [("%s@%s" % (n, "".join(v[:2])), v + plain) for v in p.variants for n in p.minimal]
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, todo))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--part", type=int)
    a = ap.parse_args()
    t0 = time.time()
    p = Prop(a.prop)
    keys, texts = known_keys(p.id)

    if a.replay:
        r = json.load(open(a.replay))
        if r.get("minimal"):
            bad = [x for x in minimal_check(p) if x[1] and x[0] == r["minimal"]]
            for n, k, log in bad:
                print("replayed: program %s: %s\n%s" % (n, k, log[-3000:]))
            return 1 if bad else 0
        if r.get("by") == "differs":
            got = []
            for k in (r["than"], r["part"]):
                exe, mode, log = p.compile(k)
                if not exe:
                    print(log[-3000:]); return 2
                got.append((p.run(exe, k, r["tier"], keys)[2] or {}).get("digests", {}).get(r["cfg"]))
            print("replayed: configuration %s, digests %s" % (r["cfg"], got))
            return 1 if got[0] != got[1] else 0
        exe, mode, log = p.compile(r["part"])
        if not exe:
            print(log[-3000:]); return 2
        extra = ["--cfg", r["cfg"], "--hist", r["hist"]] if r["cfg"] and r.get("by") != "full" else []
        rc, log, d = p.run(exe, r["part"], r["tier"], keys, extra)
        print(log)
        return 1 if d and d["status"] == "violation" else rc

    def job(part):
        exe, mode, log = p.compile(part)
        if not exe:
            return part, None, "compile", log, None, None
        rc, log, d = p.run(exe, part, a.tier, keys)
        return part, exe, mode, log, d, rc

    violations, broken, results = [], [], []
    mins = []
    with cf.ThreadPoolExecutor(8) as ex:
        parts = [a.part] if a.part else range(1, p.parts + 1)
        jobs = [ex.submit(job, k) for k in parts]
        for j in cf.as_completed(jobs):
            part, exe, mode, log, d, rc = j.result()
            if exe is None:
                broken.append((part, "does not compile", log)); continue
            results.append((part, mode, d, log))
            if d is None or d["status"] not in ("ok", "violation"):
                broken.append((part, "exit %s" % rc, log)); continue
            if d["status"] == "violation":
                violations.append((part, exe, d, log))
    # What different builds observed must agree.
    seen = {}
    for part, mode, d, log in sorted(results, key=lambda x: x[0]):
        for c, v in ((d or {}).get("digests") or {}).items():
            first = seen.setdefault((c, mode), (part, v))
            if d["status"] == "ok" and first[1] != v:
                msg = "builds %d (%s) and %d (%s) observe different results" % (first[0], " ".join(p.builds.get(first[0], [])), part, " ".join(p.builds.get(part, [])))
                violations.append((part, os.path.join(p.dir, "part%d" % part), {"key": "differs", "msg": msg, "cfg": c, "hist": "", "op": "all", "status": "violation", "digest": v, "than": first}, log))
                break
    if p.minimal:
        mins = minimal_check(p)
        base_bad = {n.partition("@")[2] for n, k, _ in mins if k and n.split("@")[0] == p.minimal[0]}
        for n, k, log in mins:
            if not k:
                continue
            if n.partition("@")[2] not in base_bad or k == "run":
                violations.append((0, n, {"key": "minimal-" + k, "msg": "program %s: %s" % (n, log[-1500:]), "cfg": "", "hist": "", "op": n, "status": "violation"}, log))
            else:
                broken.append((n, "does not compile", log))

    # A violation counts once it has been reproduced.
    confirmed = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for part, exe, d, log in sorted(violations, key=lambda v: v[0]):
        by = "hist"
        if d["key"] == "differs":
            by = "differs"
            again = [(p.run(os.path.join(p.dir, "part%d" % k), k, a.tier, keys)[2] or {}).get("digests", {}).get(d["cfg"]) for k in (d["than"][0], part)]
            if again != [d["than"][1], d["digest"]]:
                broken.append((part, "a difference was not reproduced: %s" % d["msg"], log)); continue
        elif part:
            ok = False
            if d["cfg"]:
                rc, log2, d2 = p.run(exe, part, a.tier, keys, ["--cfg", d["cfg"], "--hist", d["hist"]], 180)
                ok = bool(d2 and d2["status"] == "violation")
            if not ok:
                by = "full"
                rc, log2, d2 = p.run(exe, part, a.tier, keys)
                ok = bool(d2 and d2["status"] == "violation")
            if not ok:
                broken.append((part, "a violation was not reproduced: %s %s" % (d["key"], d["msg"]), log)); continue
        else:
            by = "minimal"
        rec = {"property": p.id, "part": part, "tier": a.tier, "cfg": d["cfg"], "hist": d["hist"], "op": d["op"],
               "key": d["key"], "msg": d["msg"], "by": by}
        if not part:
            rec["minimal"] = d["op"]
        if by == "differs":
            rec["than"] = d["than"][0]
        name = "%s-%s.json" % (p.id, hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(HERE, "replays", name)
        json.dump(rec, open(path, "w"), indent=1)
        confirmed.append((path, rec))

    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "comparisons": 0,
           "operations_judged": 0, "exploration_edges": 0, "replays_that_differed": 0,
           "exhaustive": True, "configurations": {}, "outcomes": {}, "state_source": {}}
    knowns = {}
    for part, mode, d, log in sorted(results, key=lambda x: x[0]):
        cov["state_source"][mode] = cov["state_source"].get(mode, 0) + 1
        if not d:
            cov["exhaustive"] = False; continue
        cov["states"] += d["states"]
        cov["operations_judged"] += d["transitions"]
        cov["exploration_edges"] += d["counts"].get("edges", 0)
        cov["traces_validated_against_impl"] += d["counts"].get("replays", 0)
        cov["replays_that_differed"] += d["counts"].get("replay-mismatch", 0)
        cov["comparisons"] += d["checks"]
        cov["samples"] += d["samples"][:2]
        if d["truncated"] or d["status"] != "ok":
            cov["exhaustive"] = False
        for k, v in d["cfg_states"].items():
            cov["configurations"][k] = cov["configurations"].get(k, 0) + v
        for k, v in d["outcomes"].items():
            cov["outcomes"][k] = cov["outcomes"].get(k, 0) + v
        for k, v in d["known"].items():
            knowns.setdefault(k, v)
    cov["transitions"] = cov["operations_judged"] + cov["exploration_edges"]
    if len(cov["outcomes"]) > 60:
        n = len(cov["outcomes"])
        cov["outcomes"] = dict(sorted(cov["outcomes"].items(), key=lambda kv: -kv[1])[:60])
        cov["distinct_outcomes"] = n
    if p.builds:
        cov["builds"] = {str(k): " ".join(v) for k, v in sorted(p.builds.items())}
    if seen:
        cov["digests"] = {"%s (%s)" % c: v[1] for c, v in sorted(seen.items())}
    if mins:
        cov["minimal_programs"] = {n: (k or "ok") for n, k, _ in mins}
    if broken:
        cov["exhaustive"] = False
    if p.rule:
        cov["rule"] = p.rule
    ev = {"property": p.id, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": cov, "assumptions": p.assume, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", p.id + ".json"), "w"), indent=1)

    for k in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s: %s (seen here: %s)" % (p.id, k, texts.get(k, ""), knowns[k][:300]))
    print("%s %s: %d states, %d transitions, %d histories replayed, %.1f s" % (p.id, a.tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0))
    for path, rec in confirmed[:5]:
        print("  %s: %s\n    configuration %s\n    history %s\n    operation %s" % (rec["key"], rec["msg"], rec["cfg"], rec["hist"][:400], rec["op"]))
    for path, rec in confirmed:
        print("VIOLATION property=%s replay=%s" % (p.id, path))
    if confirmed:
        return 1
    if broken:
        for part, why, log in broken:
            print("part %s: %s\n%s" % (part, why, "\n".join(l for l in log.splitlines() if "error" in l)[:1500] or log[-1500:]))
        return 2
    return 0


sys.exit(main())
