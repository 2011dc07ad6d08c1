#!/usr/bin/env python3
"""Driver: builds the explorer from /repo's working tree, runs it for one property, reports.

  check.py <ID> [--tier quick|thorough]     exit 0 held / 1 VIOLATION / 2 error of the check
  check.py --replay <file>                  re-run one recorded case
"""
import argparse, importlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
TARGET = os.path.join(VERIF, "target")


class CheckError(Exception):
    """The check itself could not give an answer."""


def sh(cmd, cwd=None, env=None, timeout=900, ok=True):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if ok and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, cmd, p.stdout.decode("utf8", "replace")[-4000:]))
    return p


def build_mc():
    sh(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", VERIF + "/mc/Cargo.toml", "--target-dir", TARGET + "/mc"])
    return TARGET + "/mc/release/mc"


class Ctx:
    """What one check run collects."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.dir = os.path.join(VERIF, "run", "%s-%s" % (prop, tier))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []  # dicts: key, count, msg, case
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.exhaustive = True
        self.mc = None

    def violation(self, key, msg, case, count=1):
        self.violations.append({"key": key, "count": count, "msg": msg, "case": case})

    def add(self, name, n):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def sample(self, s):
        if len(self.coverage["samples"]) < 24:
            self.coverage["samples"].append(s)

    # -- the Rust explorer ------------------------------------------------------------------
    def run_mc(self, timeout=820, prop=None):
        self.mc = self.mc or build_mc()
        timeout = 6 * 3600 if self.thorough else timeout
        prop = prop or self.prop
        d = os.path.join(self.dir, "mc")
        p = subprocess.Popen([self.mc, "run", prop, self.tier, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            out = p.communicate(timeout=timeout)[0].decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise CheckError("exploration did not finish in %d s" % timeout)
        finally:
            shutil.rmtree("/dev/shm/mc-%d" % p.pid, ignore_errors=True)
        if p.returncode == 77:
            t = int(open(d + "/hang").read())
            c = slots(d)[t]
            self.violation("hang", "generation did not finish within 20 s", c)
            self.exhaustive = False
            return None
        if p.returncode < 0 or p.returncode == 134:
            return self.crashed(d, prop, p.returncode, out)
        if p.returncode != 0:
            raise CheckError("explorer failed (%d)\n%s" % (p.returncode, out[-4000:]))
        r = json.load(open(d + "/result.json"))
        self.coverage["states"] += r["states"]
        self.coverage["transitions"] += r["transitions"]
        if r["validated"]:
            self.coverage["traces_validated_against_impl"] += r["validated"]
        self.coverage.update(r["counts"])
        for k, v in r["notes"].items():
            self.coverage[k] = v
        for s in r["samples"]:
            self.sample(s)
        for v in r["violations"]:
            self.violations.append(v)
        return r

    def crashed(self, d, prop, code, out):
        """The process died: find which of the requests in flight does it, on its own."""
        sig = signal.Signals(-code).name if code < 0 else "abort"
        self.exhaustive = False
        for c in slots(d).values():
            f = os.path.join(self.dir, "crash.json")
            json.dump(c, open(f, "w"))
            p = subprocess.Popen([self.mc, "replay", prop, f, self.dir + "/replay"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            try:
                p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                self.violation("hang", "generation did not finish", c)
                return None
            finally:
                shutil.rmtree("/dev/shm/mc-%d" % p.pid, ignore_errors=True)
            if p.returncode < 0 or p.returncode == 134:
                self.violation("crash", "the process dies with %s" % sig, c)
                return None
        raise CheckError("explorer died with %s and no request in flight reproduces it\n%s" % (sig, out[-2000:]))


def slots(d):
    b = open(d + "/slots", "rb").read()
    size, r = 1 << 16, {}
    for i in range(len(b) // size):
        s = b[i * size:(i + 1) * size]
        n = int.from_bytes(s[:8], "little")
        if n:
            try:
                r[i] = json.loads(s[8:8 + n].decode("utf8"))
            except ValueError:
                r[i] = {"kind": "truncated", "input": s[8:8 + n].decode("utf8", "replace")}
    return r


def known_findings():
    r = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
        if m:
            r[(m.group(1), m.group(2))] = m.group(3)
    return r


def level(prop):
    for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "model_checking"


def report(ctx, wall):
    known = known_findings()
    rep = os.path.join(VERIF, "replays", ctx.prop)
    shutil.rmtree(rep, ignore_errors=True)
    bad, seen_known = [], {}
    for v in ctx.violations:
        if (ctx.prop, v["key"]) in known:
            seen_known.setdefault(v["key"], v)
        else:
            bad.append(v)
    cov = dict(ctx.coverage)
    cov["exhaustive"] = ctx.exhaustive
    cov["samples"] = cov["samples"] or ["(none)"]
    if seen_known:
        cov["known_findings_met"] = sorted(seen_known)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level(ctx.prop), "coverage": cov,
               "assumptions": ctx.assumptions, "wall_s": round(wall, 2), "violations": len({v["key"] for v in bad})},
              open("%s/evidence/%s.json" % (VERIF, ctx.prop), "w"), indent=1)
    for k, v in seen_known.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, k, known[(ctx.prop, k)]))
    if bad:
        os.makedirs(rep)
        n = {}
        for v in bad:
            k = re.sub(r"[^A-Za-z0-9_-]+", "-", v["key"])
            n[k] = n.get(k, 0) + 1
            if n[k] > 3:
                continue
            path = "%s/%s-%d.json" % (rep, k, n[k])
            json.dump({"property": ctx.prop, "key": v["key"], "msg": v["msg"], "case": v["case"],
                       "rerun": "python3 /verif/check.py --replay " + path}, open(path, "w"), indent=1, ensure_ascii=False)
            if n[k] == 1:
                print("--- %s (%d cases)\n%s\n%s" % (v["key"], v.get("count", 1), json.dumps(v["case"])[:600], v["msg"][:1500]))
                print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    print("%s held: %s" % (ctx.prop, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, bool))})))
    return 0




def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t = time.time()
    try:
        if a.replay:
            r = json.load(open(a.replay))
            prop = r["property"]
            mod = importlib.import_module("native.props")
            ctx = Ctx(prop, "replay", seed)
            return mod.replay(prop, ctx, r, a.replay)
        ctx = Ctx(a.prop, a.tier, seed)
        importlib.import_module("native.props").run(a.prop, ctx)
        return report(ctx, time.time() - t)
    except (CheckError, subprocess.TimeoutExpired) as e:
        print("check error: %s" % e)
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
