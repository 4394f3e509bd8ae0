#!/usr/bin/env python3
"""Runs the check of one property.

  run.py C01              quick, or what VERIF_TIER says
  run.py C01 --replay F   only the case recorded in F

A round of a check: TLC generates cases from the specification (GenMain), the
driver, built from /repo's working tree, carries them out in the real code,
and TLC compares what was observed with the specification (CheckMain).

exit 0: held; 1: VIOLATION printed; 2: the machinery failed.
"""
import glob, hashlib, json, os, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCHUNK = 32

# property: list of stages (kind of case, driver mode, views, cases per quick round)
CHECKS = {
    "C01": [("mix", "syn", "tok", 3200), ("stray", "syn", "tok", 3192), ("long", "long", "-", 32)],
    "C02": [("valid", "syn", "ast", 2560), ("reach", "syn", "ast", 960), ("long", "long", "-", 32)],
    "C03": [("valid", "syn", "ast", 1920), ("mix", "syn", "ast", 960), ("reach", "syn", "ast", 640), ("long", "long", "-", 32)],
    "C04": [("spell", "spell", "-", 2240)],
    "C05": [("word", "word", "-", 3200)],
    "C06": [("hist", "hist", "-", 2560)],
    "C07": [("err", "err", "-", 960), ("stray", "err", "-", 256), ("long", "long", "-", 32)],
    "C08": [("short", "peg", "-", 1600)],
    "C09": [("tone", "tone", "-", 1920)],
    "C10": [("visit", "visit", "-", 2560), ("reach", "visit", "-", 320)],
    "C11": [("pair", "equal", "-", 1280)],
    "C12": [("tree", "braces", "-", 2560), ("reach", "braces", "-", 320)],
    "C13": [("tree", "ascii", "-", 1600), ("reach", "ascii", "-", 320)],
    "C14": [("tree", "syn", "ext", 2560), ("reach", "syn", "ext", 320)],
    "C15": [("l_args", "logic", "-", 3840)],
    "C16": [("l_conn", "logic", "-", 3840), ("l_reach", "logic", "-", 640)],
    "C17": [("l_quant", "logic", "-", 2880), ("l_any", "logic", "-", 1280), ("l_reach", "logic", "-", 640)],
    "C18": [("l_vars", "logic", "-", 3840)],
    "C19": [("l_terms", "logic", "-", 3840), ("l_plur", "logic", "-", 1600), ("l_reach", "logic", "-", 640)],
    "C20": [("l_adv", "logic", "-", 3840)],
    "C21": [("l_any", "logic", "-", 2560), ("l_conn", "logic", "-", 960), ("l_reach", "logic", "-", 960)],
    "C22": [("form", "print", "-", 2560), ("l_conn", "print", "-", 1600), ("l_reach", "print", "-", 640)],
    "C23": [("form", "fvisit", "-", 2560), ("l_terms", "fvisit", "-", 1600), ("l_reach", "fvisit", "-", 640)],
    "C24": [("serve", "serve", "-", 640)],
    "C25": [("bot", "bot", "-", 640)],
    "C26": [("dict", "dict", "-", 1920), ("words", "words", "-", 32)],
    "C29": [("gen", "gen", "-", 640)],
    "C27": [("cli", "cli", "-", 2240)],
    "C28": [("tree", "dump", "-", 1600), ("reach", "dump", "-", 320), ("form", "fdump", "-", 1280), ("l_any", "fdump", "-", 640)],
}
# State machines of the specification that are model checked on the way.
MODELS = {"C06": "Memo", "C24": "Web", "C25": "BotLoop"}
# Programs of the repository that the driver runs.
PROGRAMS = {"C24": "server", "C25": "bot", "C27": "toaq", "C29": "dictgen"}
THOROUGH_ROUNDS = 16
RULE = ("A case is a function of the seed and a number: a derivation of the grammar in the specification, spelled out and possibly damaged, "
        "or a word, or a formula, or a history of requests or events with such texts. Non-trivial: the specification accepts the text or recognises the word, "
        "so that there is a result to compare; distinct by the whole case.")


class ToolError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    root = "/opt/veriftools/go1.27.3"
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local",
             GOPROXY="off", GOWORK="off", GO111MODULE="on", GOFLAGS="-mod=readonly", CGO_ENABLED="0", GOROOT=root,
             PATH=root + "/bin:" + e.get("PATH", "/usr/bin:/bin"))
    return e


def sh(cmd, cwd=None, env=None, timeout=800, limit_gb=None):
    def pre():
        os.setsid()
        if limit_gb:
            resource.setrlimit(resource.RLIMIT_AS, (limit_gb << 30, limit_gb << 30))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out.decode("utf-8", "replace") + "\n[timed out]"


def build(out, src="driver", name="driver"):
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, name)
    rc, txt = sh(["go", "build", "-o", exe, "."], cwd=os.path.join(VERIF, src), env=go_env())
    if rc != 0:
        raise ToolError("building %s: %s" % (src, txt[-2000:]))
    return exe


def build_program(out, name):
    """Builds a command of the repository; the bot with a stand-in for the chat service."""
    cmd = ["go", "build", "-o", os.path.join(out, name)]
    if name == "bot":
        mod = os.path.join(out, "go.mod")
        with open(os.path.join(REPO, "go.mod")) as f:
            txt = f.read()
        with open(mod, "w") as f:
            f.write(txt + "\nreplace github.com/velour/chat => %s\n" % os.path.join(VERIF, "fakechat"))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(out, "go.sum"))
        cmd += ["-modfile=" + mod]
    e = go_env()
    e["GOFLAGS"] = "-mod=mod"
    if name != "bot":
        e["GOFLAGS"] = "-mod=readonly"
    rc, txt = sh(cmd + [{"toaq": ".", "dictgen": "dict/main.go"}.get(name, "./" + name)], cwd=REPO, env=e)
    if rc != 0:
        raise ToolError("building %s: %s" % (name, txt[-2000:]))


def model_check(prop, tier, out, res):
    """Checks the state machine that belongs to a property."""
    m = MODELS.get(prop)
    if not m:
        return
    for cfg in [m] + ([m + "Thorough"] if tier != "quick" else []):
        rc, txt = tlc(m, {}, os.path.join(out, "meta"), cfg=cfg)
        if "No error has been found" not in txt:
            raise ToolError("model %s: %s" % (cfg, txt[-3000:]))
        s, t = states_of(txt)
        res.states += s
        res.trans += t
        res.extra["model_" + cfg] = {"distinct_states": s, "states_generated": t}


def tlc(module, env, meta, cont=False, timeout=840, cfg=None):
    e = dict(os.environ)
    e.update(env)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx12g", "-cp", JARS, "tlc2.TLC", "-workers", "8", "-metadir", meta,
           "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + (["-continue"] if cont else []) + [module + ".tla"]
    rc, txt = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, txt


def states_of(txt):
    import re
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", txt):
        pass
    return (int(m.group(2)), int(m.group(1))) if m else (0, 0)


class Result:
    def __init__(self):
        self.n = 0
        self.cov = {}
        self.bad = []       # (case dict, message)
        self.distinct = set()
        self.samples = []
        self.states = 0
        self.trans = 0
        self.extra = {}
        self.stage = 0


def lines(path):
    with open(path, encoding="utf-8") as f:
        return [l for l in f.read().split("\n") if l]


def show(case):
    """Readable rendering of the texts of a case."""
    o = {}
    for k in ("s", "s2", "in", "head", "query"):
        if k in case:
            o[k] = "".join(chr(c) if c < 0x110000 else "\\x%02x" % (c - 0x110000) for c in case[k])
    for k in ("reqs", "evs", "ents"):
        if k in case:
            o[k] = [dict({f: x[f] for f in ("m", "p", "how", "g", "t", "c", "nick", "from") if f in x}, **show(x)) for x in case[k]]
    return o


def drive(exe, mode, d, views, limit=60):
    """Runs the driver; if the code takes the process down, finds the case that does."""
    e = go_env()
    e["DRIVER_LIMIT"] = str(limit)
    rc, txt = sh([exe, mode, d, views], env=e, timeout=600, limit_gb=24)
    if rc == 0:
        return None
    suspects = []
    for p in glob.glob(os.path.join(d, "rec_*.progress")):
        s = open(p).read().strip()
        if s.isdigit():
            suspects.append((p.replace("rec_", "gen_").replace(".progress", ".ndjson"), int(s)))
    for f, i in suspects:
        one = os.path.join(d, "one")
        shutil.rmtree(one, ignore_errors=True)
        os.makedirs(one)
        case = lines(f)[i]
        open(os.path.join(one, "gen_1.ndjson"), "w").write(case + "\n")
        e["DRIVER_LIMIT"] = "90"
        rc2, txt2 = sh([exe, mode, one, views], env=e, timeout=150, limit_gb=24)
        if rc2 != 0:
            what = "does not end" if "HANG" in txt2 or rc2 == -9 else "takes the process down: " + " ".join(txt2.split())[:300]
            return json.loads(case), what
    # No one case brings it down: cases running side by side may have (state the code shares).
    # Every case is run again, one after another, and judged on what it gives then.
    e["DRIVER_LIMIT"] = str(limit)
    e["DRIVER_WORKERS"] = "1"
    rc2, txt2 = sh([exe, mode, d, views], env=e, timeout=600, limit_gb=24)
    if rc2 == 0:
        return None
    raise ToolError("driver failed (%d), not reproduced: %s" % (rc, txt[-1500:]))


def judge(prop, d, nchunk, res):
    rc, txt = tlc("CheckMain", {"PROP": prop, "DIR": d, "NCHUNK": str(nchunk)}, os.path.join(d, "meta"), cont=True)
    outs = [os.path.join(d, "res_%d.ndjson" % c) for c in range(1, nchunk + 1)]
    missing = [o for o in outs if not os.path.exists(o)]
    if missing:
        raise ToolError("TLC did not finish: " + txt[-3000:])
    s, t = states_of(txt)
    res.states += s
    res.trans += t
    for c, o in enumerate(outs, 1):
        r = json.loads(lines(o)[0])
        recs = lines(os.path.join(d, "rec_%d.ndjson" % c))
        if r["n"] != len(recs):
            raise ToolError("records lost")
        res.n += r["n"]
        cov = r["cov"] if isinstance(r["cov"], dict) else {}
        for k, v in cov.items():
            res.cov[k] = res.cov.get(k, 0) + v
        for b in r["bad"]:
            if b["msg"].startswith("MODEL:"):
                raise ToolError("the specification contradicts itself: %s on %s" % (b["msg"], recs[b["j"] - 1][:800]))
            res.bad.append((json.loads(recs[b["j"] - 1]), b["msg"]))


def one_round(prop, exe, out, seed, res, scale=1):
    for si, (kind, mode, views, n) in enumerate(CHECKS[prop]):
        d = os.path.join(out, "w%d" % si)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        per = max(1, int(n * scale) // NCHUNK)
        rc, txt = tlc("GenMain", {"KIND": kind, "DIR": d, "SEED": str(seed), "NCHUNK": str(NCHUNK), "PER": str(per)}, os.path.join(d, "meta"))
        gens = glob.glob(os.path.join(d, "gen_*.ndjson"))
        if len(gens) != NCHUNK:
            raise ToolError("generation failed: " + txt[-3000:])
        s, t = states_of(txt)
        res.states += s
        res.trans += t
        for g in gens:
            for l in lines(g):
                c = json.loads(l)
                c.pop("i", None)
                res.distinct.add(hashlib.md5(json.dumps(c, sort_keys=True).encode()).digest()[:8])
                if len(res.samples) < 4 and len(l) > 60:
                    res.samples.append(show(c) or c)
        res.stage = si
        died = drive(exe, mode, d, views)
        if died:
            res.bad.append(died)
            return
        judge(prop, d, NCHUNK, res)
        if res.bad:
            return


def write_evidence(prop, tier, seed, res, wall, level="exploration"):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    trivial = sum(v for k, v in res.cov.items() if k in ("rejected", "none", "not the same words", "unimplemented"))
    cov = {"evaluations": res.n, "distinct_nontrivial": min(len(res.distinct), max(0, res.n - trivial)), "rule": RULE,
           "distinct": len(res.distinct), "outcomes": res.cov, "tlc_states": res.states, "tlc_transitions": res.trans, "samples": res.samples}
    cov.update(res.extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["TLC evaluates the specification correctly", "the driver dumps what the library returns"],
          "wall_s": round(wall, 1), "violations": len(res.bad)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)


def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(path):
        for l in lines(path):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def report(prop, out, res):
    path = os.path.join(out, "violation.json")
    case, msg = res.bad[0]
    json.dump({"property": prop, "message": msg, "readable": show(case), "case": case, "stage": res.stage, "others": len(res.bad) - 1}, open(path, "w"), ensure_ascii=False, indent=1)
    print("%s: %s" % (prop, msg[:600]))
    print("case:", json.dumps(show(case), ensure_ascii=False)[:600])
    print("VIOLATION property=%s replay=%s" % (prop, path))


def replay(prop, exe, out, path, res):
    rec = json.load(open(path))
    case = rec["case"]
    for si, (kind, mode, views, n) in enumerate(CHECKS[prop]):
        if si != rec.get("stage", si):
            continue
        d = os.path.join(out, "replay")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "gen_1.ndjson"), "w").write(json.dumps(case) + "\n")
        died = drive(exe, mode, d, views)
        if died:
            res.bad.append(died)
        else:
            judge(prop, d, 1, res)
        if res.bad:
            return


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    out = os.path.join(VERIF, "out", prop)
    t0 = time.time()
    res = Result()
    rep = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    if rep:
        rep = os.path.abspath(rep)
        out = os.path.join(VERIF, "out", prop + "_replay")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        exe = build(out)
        if prop in PROGRAMS:
            build_program(out, PROGRAMS[prop])
        if not rep:
            model_check(prop, tier, out, res)
        if rep:
            replay(prop, exe, out, rep, res)
        else:
            rounds = 1 if tier == "quick" else int(os.environ.get("VERIF_ROUNDS", THOROUGH_ROUNDS))
            for r in range(rounds):
                one_round(prop, exe, out, seed + 1000 * r, res)
                if res.bad:
                    break
    except ToolError as e:
        print("ERROR:", e, file=sys.stderr)
        return 2
    if not rep:
        write_evidence(prop, tier, seed, res, time.time() - t0)
    for f in glob.glob(os.path.join(out, "w*")):
        shutil.rmtree(f, ignore_errors=True)
    for f in ["driver"] + list(PROGRAMS.values()):
        if os.path.exists(os.path.join(out, f)):
            os.remove(os.path.join(out, f))
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if res.bad:
        report(prop, out, res)
        return 1
    print("%s held on %d cases (%s), %.0f s" % (prop, res.n, ", ".join("%s %d" % kv for kv in sorted(res.cov.items())), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
