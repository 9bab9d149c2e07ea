#!/usr/bin/env python3
"""Builds the exhaustive drivers against /repo's working tree, runs them, judges the result.

  run.py check <property>     (tier from VERIF_TIER, default quick)
  run.py replay <file>        re-runs the one failing site recorded in a replay file
  run.py setup                checks the tool chain
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DPM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
HARN = os.path.join(HERE, "harness")
sys.path.insert(0, HARN)
from plan import CONFIGS, EXTRA, ISA, PLANS  # noqa: E402

JOBS = int(os.environ.get("MC_JOBS", os.cpu_count() or 8))
CXX = "g++"
BASE = ["-std=gnu++20", "-w", "-I" + REPO, "-I" + os.path.join(HARN, "gen"), "-I" + HARN]


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "dpm"), HARN):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".inc", ".py")) and f != "export.gen.hpp":
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(subprocess.run([CXX, "--version"], capture_output=True).stdout)
    return h.hexdigest()[:16]


def cxx(cfg):
    return [sys.executable, os.path.join(HARN, "simcc.py")] if CONFIGS[cfg].get("sim") else [CONFIGS[cfg].get("cxx", CXX)]


def defs(cfg):
    c = CONFIGS[cfg]
    return c.get("defs", ["-DDPM_HANDLE_ERRORS", "-DDPM_INLINE_EXTENSIONS", "-DDPM_PROPAGATE_NAN"]) + c["flags"]


def cpu_ok(cfg):
    info = open("/proc/cpuinfo").read()
    m = re.search(r"^flags\s*:(.*)$", info, re.M)
    have = set(m.group(1).split()) if m else set()
    return all(f in have for f in CONFIGS[cfg].get("need", []))


def sh(cmd, timeout, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, cwd=cwd)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return "timeout", o, e


class Env:
    def __init__(self):
        self.tree = tree_hash()
        self.dir = os.path.join(BUILD, self.tree)
        os.makedirs(self.dir, exist_ok=True)
        # keep the cache small: drop other trees
        for d in os.listdir(BUILD):
            p = os.path.join(BUILD, d)
            if d not in (self.tree, "replay") and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 1800:
                shutil.rmtree(p, ignore_errors=True)

    def lib_sources(self):
        r = []
        for d, _, fs in os.walk(os.path.join(REPO, "dpm", "detail")):
            r += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
        return sorted(r)

    def lib_jobs(self, cfg):
        out = []
        for s in self.lib_sources():
            o = os.path.join(self.dir, "lib-%s-%s.o" % (cfg, os.path.relpath(s, REPO).replace("/", "_")))
            out.append(([*cxx(cfg), *BASE, *CONFIGS[cfg].get("libopt", ["-O2"]), *CONFIGS[cfg].get("ndebug", ["-DNDEBUG"]), *defs(cfg), "-Ddpm_EXPORTS", "-c", s, "-o", o], o))
        return out


def compile_one(cmd, out, timeout=840):
    if os.path.exists(out):
        return True, ""
    tmp = out + ".tmp%d.o" % os.getpid()
    cmd = [tmp if c == out else c for c in cmd]
    for attempt in (0, 1):
        rc, o, e = sh(cmd, timeout)
        if rc == 0:
            os.replace(tmp, out)
            return True, ""
        if rc == 1 and "error:" in e:
            break
    return False, "rc=%s\n%s" % (rc, e[-6000:] if "error:" not in e else "\n".join(l for l in e.splitlines() if "error" in l)[:6000])


def build(env, units):
    """units: list of dicts {driver,cfg,defs}. Returns (binaries, unit_errors, infra_errors)."""
    cfgs = sorted({u["cfg"] for u in units})
    jobs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        libf = {}
        for c in cfgs:
            for cmd, o in env.lib_jobs(c):
                libf[ex.submit(compile_one, cmd, o)] = (c, o)
        uf = {}
        # longest first
        for u in sorted(units, key=lambda u: -u.get("weight", 1)):
            src = os.path.join(HARN, u["driver"] + ".cpp")
            name = "%s-%s-%s" % (u["driver"], u["cfg"], hashlib.sha256(" ".join(u["defs"] + (u.get("opt") or [])).encode()).hexdigest()[:10])
            o = os.path.join(env.dir, name + ".o")
            u["name"], u["obj"], u["bin"] = name, o, os.path.join(env.dir, name)
            cmd = [*cxx(u["cfg"]), *BASE, *(u.get("opt") or ["-O1"]), *CONFIGS[u["cfg"]].get("ndebug", ["-DNDEBUG"]), *defs(u["cfg"]), *u["defs"], "-c", src, "-o", o]
            u["cmd"] = cmd
            uf[ex.submit(compile_one, cmd, o)] = u
        infra, bad = [], []
        for f in cf.as_completed(list(libf)):
            ok, err = f.result()
            if not ok:
                infra.append("library %s: %s" % (libf[f], err))
        for f in cf.as_completed(list(uf)):
            ok, err = f.result()
            if not ok:
                bad.append((uf[f], err))
        if infra:
            return bad, infra
        libs = {c: [o for _, o in env.lib_jobs(c)] for c in cfgs}
        badn = {id(u) for u, _ in bad}

        def link(u):
            return compile_one([CXX, *(["-no-pie"] if CONFIGS[u["cfg"]].get("sim") else []), u["obj"], *libs[u["cfg"]], "-o", u["bin"], "-lm"] + u.get("link", []), u["bin"])
        lf = {ex.submit(link, u): u for u in units if id(u) not in badn}
        for f in cf.as_completed(lf):
            ok, err = f.result()
            if not ok:
                bad.append((lf[f], err))
    return bad, infra


def run_units(units, tier, extra=()):
    tmo = 700 if tier == "quick" else 6 * 3600

    def go(u):
        t = time.time()
        args = [u["bin"], *u.get("args", []), *extra]
        if tier == "thorough" and not u.get("shallow"):
            args.append("--thorough")
        rc, o, e = sh(args, u.get("timeout", tmo))
        return u, rc, o, e, time.time() - t
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(go, units))


def expand(prop, tier):
    units = []
    for j in PLANS[prop]["jobs"]:
        if j.get("tier") and j["tier"] != tier:
            continue
        cfgs = os.environ.get("MC_CFGS", "").split() or j.get("cfgs_" + tier) or j["cfgs"]
        if tier == "thorough" and cfgs == ISA:
            cfgs = ISA + EXTRA
        for cfg in cfgs:
            if not cpu_ok(cfg):
                continue
            # the long sweeps of sharded jobs are confined to the main instruction sets, the others get the quick lists
            shallow = "shards_thorough" in j and cfg in EXTRA
            for d in j["defs"]:
                base = {"driver": j["driver"], "cfg": cfg, "defs": d, "weight": j.get("weight", 1), "opt": j.get("opt"), "link": j.get("link", []), "timeout": j.get("timeout_" + tier) or (700 if tier == "quick" else 6 * 3600)}
                sh_n = 1 if shallow else j.get("shards_" + tier, 1)
                if shallow:
                    base["shallow"] = True
                for s in range(sh_n):
                    u = dict(base)
                    u["args"] = ["--shard=%d/%d" % (s, sh_n)] if sh_n > 1 else []
                    units.append(u)
    return units


def load_known(prop):
    r = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                k = json.loads(l)
                if k["property"] == prop and k.get("status") != "fixed":
                    k["hits"] = 0
                    r.append(k)
    return r


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    env = Env()
    units = expand(prop, tier)
    # identical binaries (shards) are built once
    uniq = {}
    for u in units:
        uniq.setdefault((u["driver"], u["cfg"], tuple(u["defs"])), u)
    bad, infra = build(env, list(uniq.values()))
    if infra:
        print("the library itself does not build:\n" + "\n".join(infra))
        return 2
    for u in units:
        v = uniq[(u["driver"], u["cfg"], tuple(u["defs"]))]
        u["name"], u["bin"], u["cmd"] = v["name"], v["bin"], v["cmd"]
    t_build = time.time() - t0
    violations = []  # (cfg, unit, site, detail)
    badset = set()
    for u, err in bad:
        if "error:" not in err and "undefined reference" not in err:
            print("could not build %s for %s:\n%s" % (u["driver"], u["cfg"], err))
            return 2
        first = next((l for l in err.splitlines() if "error" in l or "undefined" in l), err[:300])
        violations.append((u, "<compile>/%s/%s" % (u["driver"], "".join(u["defs"])), "the operations of this unit no longer compile: " + first[:500]))
        badset.add(u["bin"])
    results = run_units([u for u in units if u["bin"] not in badset], tier)
    evals = nontriv = nsites = states = ops = 0
    samples = []
    per_cfg = {}
    slow = 0
    shown_fails = 0
    for u, rc, o, e, dt in results:
        slow = max(slow, dt)
        done = False
        site_fail = {}
        shown = {}
        for l in o.splitlines():
            if l.startswith("SITE "):
                _, s, ev, nt, fl = l.split(" ")
                evals += int(ev); nontriv += int(nt); nsites += 1
                per_cfg[u["cfg"]] = per_cfg.get(u["cfg"], 0) + int(ev)
                if int(fl):
                    site_fail[s] = int(fl)
            elif l.startswith("FAIL "):
                s, d = l[5:].split("\t", 1)
                shown[s] = shown.get(s, 0) + 1
                violations.append((u, s, d))
            elif l.startswith("SAMPLE "):
                if len(samples) < 12 and not any(x.startswith(u["cfg"]) for x in samples[-1:]):
                    samples.append(u["cfg"] + " " + l[7:])
            elif l.startswith("STATES "):
                states += int(l[7:])
            elif l.startswith("OPS "):
                ops += int(l[4:])
            elif l == "DONE":
                done = True
        shown_fails += sum(shown.values())
        for s, n in site_fail.items():
            if n and s not in shown:
                violations.append((u, s, "%d failures" % n))
        if not done:
            m = re.findall(r"CRASH (.*)", o + e)
            violations.append((u, "<crash>/%s/%s" % (u["driver"], "".join(u["defs"])), "the driver ended with %s %s %s" % (rc, m[-1] if m else "", (e or "")[-300:].replace("\n", " "))))
    known = load_known(prop)
    new = []
    for u, s, d in violations:
        key = "%s:%s" % (u["cfg"], s)
        for k in known:
            if re.fullmatch(k["site"], key) and re.search(k.get("detail", ""), d):
                k["hits"] += 1
                break
        else:
            new.append((u, s, d))
    for k in known:
        if k["hits"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            print("note: known finding not reproduced on this tree: %s" % k["what"])
    rc = 0
    if new:
        rdir = os.path.join(BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = {}
        for u, s, d in new:
            seen.setdefault((u["cfg"], s), []).append((u, d))
        first = None
        for (cfg, s), l in seen.items():
            u, d = l[0]
            path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256((cfg + s).encode()).hexdigest()[:10]))
            json.dump({"property": prop, "cfg": cfg, "driver": u["driver"], "defs": u["defs"], "opt": u.get("opt"), "link": u.get("link", []), "args": u.get("args", []), "site": s, "details": [x[1] for x in l[:20]], "tier": tier}, open(path, "w"), indent=1)
            first = first or path
            if os.environ.get("MC_ALL") or list(seen).index((cfg, s)) < 60:
                print("FAILED %s %s (%d): %s" % (cfg, s, len(l), d))
                print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%d failing sites" % len(seen))
        rc = 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": PLANS[prop]["level"],
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": nontriv,
            "rule": PLANS[prop]["rule"],
            "states": states, "transitions": ops, "traces_validated_against_impl": nsites,
            "samples": samples or ["(no sample)"], "exhaustive": True,
            "meaning": "states: distinct argument tuples, masks or object states visited; transitions: executions of library operations on the compiled library; traces: complete operation sequences (one per operation, vector type and configuration) executed on the implementation and compared with the reference step by step; evaluations: elements judged", "evaluations_per_configuration": per_cfg, "units": len(units),
            "build_s": round(t_build, 1), "slowest_unit_s": round(slow, 1),
            "known_finding_hits": {k["what"]: k["hits"] for k in known},
        },
        "assumptions": PLANS[prop].get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d units, %d sites, %d evaluations (%d non-trivial), build %.1fs, slowest %.1fs, total %.1fs -> %s" % (prop, tier, len(units), nsites, evals, nontriv, t_build, slow, time.time() - t0, "VIOLATED" if rc else "held"))
    return rc


def replay(path):
    r = json.load(open(path))
    env = Env()
    u = {k: r[k] for k in ("driver", "cfg", "defs")}
    u["opt"], u["args"], u["link"] = r.get("opt"), r.get("args", []), r.get("link", [])
    bad, infra = build(env, [u])
    if infra or bad:
        print(infra or bad[0][1])
        return 1
    if r["site"].startswith("<"):
        res = run_units([u], r.get("tier", "quick"))
    else:
        res = run_units([u], r.get("tier", "quick"), ["--site=" + r["site"]])
    _, rc, o, e, _ = res[0]
    print(o + e)
    return 1 if "FAIL " in o or "DONE" not in o else 0


if __name__ == "__main__":
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "setup":
        rc, o, e = sh([CXX, "--version"], 60)
        print(o.splitlines()[0] if o else e)
        sys.exit(0 if rc == 0 else 1)
