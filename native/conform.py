"""Conformance with the real tools: generated code is compiled, run and given values.

The explorer enumerates cases (`mc export`): generated code with the sample it came from, and values
with the verdict that the reference type has on them. Here rustc + serde, tsc, Zod, Ajv and CPython
are asked for theirs.
"""
import glob, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

import check

HERE = os.path.dirname(os.path.abspath(__file__)) + "/conform"
NODE = "/opt/veriftools/node/node_modules"
MODES = {
    "C02": ["rust"], "C03": ["typescript", "typescript/typealias"], "C04": ["zod"], "C05": ["json_schema"], "C06": ["python"],
    "C08": ["rust", "typescript", "typescript/typealias", "zod", "json_schema", "python"],
    "C09": ["rust", "typescript", "zod", "python"],
    "C18": ["rust"], "C25": ["rust"], "C26": ["rust", "python"],
}
SUFFIX = ("\npub fn check_all(s: &str, p: &[::conform::Probe]) -> ::std::result::Result<usize, (::std::string::String, ::std::string::String)> "
          "{ ::conform::check::<%s>(s, p) }\n")
ASSUMED = "#[allow(unused_imports)] use {serde_derive::{Deserialize, Serialize}, serde_json::Value, std::collections::HashMap};\n"


def run(ctx):
    mc = ctx.mc or check.build_mc()
    for mode in MODES[ctx.prop]:
        d = "%s/conform-%s" % (ctx.dir, mode.replace("/", "-"))
        os.makedirs(d)
        cases = d + "/cases.jsonl"
        p = subprocess.run([mc, "export", ctx.prop, ctx.tier if ctx.tier in ("quick", "thorough") else "quick", mode, d + "/mc", cases], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3600)
        if p.returncode:
            raise check.CheckError("export failed (%d)\n%s" % (p.returncode, p.stdout.decode("utf8", "replace")[-2000:]))
        for k, v in json.load(open(d + "/mc/result.json"))["counts"].items():
            ctx.coverage[k] = v
        lines = open(cases, encoding="utf8").read().split("\n")
        lines = [l for l in lines if l]
        good = []
        for l in lines:
            if '"code":null' in l and json.loads(l)["code"] is None:
                ctx.violation("rejected", "a well-formed sample is rejected", json.loads(l)["case"])
            else:
                good.append(l)
        verdicts = rust(d, good, ctx) if mode == "rust" else tool(mode, d, good)
        n = 0
        for v in verdicts:
            if "msg" in v:
                ctx.violation("conformance-" + mode.replace("/", "-"), "%s%s\n%s" % (v["msg"], ": " + v["value"] if v.get("value") else "", v["code"]), dict(v["case"], kind="doc", extra="conformance"))
            else:
                n += v["n"] + 1
        if len(verdicts) != len(good):
            raise check.CheckError("%d verdicts on %d cases in mode %s" % (len(verdicts), len(good), mode))
        ctx.add("conformance_modules", len(good))
        ctx.add("conformance_values", n)
        ctx.coverage["traces_validated_against_impl"] += len(good)


def chunks(v, n):
    """Up to n parts of about equal length, in an order that spreads neighbours."""
    return [c for c in (v[i::n] for i in range(n)) if c]


def tool(mode, d, lines):
    cmd = {
        "zod": ["node", HERE + "/zod.cjs"], "json_schema": ["node", HERE + "/schema.cjs"],
        "typescript": ["node", HERE + "/ts.cjs"], "typescript/typealias": ["node", HERE + "/ts.cjs"],
        "python": [sys.executable, HERE + "/py.py"],
    }[mode]

    def part(c):
        p = subprocess.run(cmd, input="\n".join(c).encode("utf8"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=3600)
        if p.returncode:
            raise check.CheckError("%s failed (%d)\n%s" % (cmd[1], p.returncode, p.stderr.decode("utf8", "replace")[-2000:]))
        return [json.loads(l) for l in p.stdout.decode("utf8").split("\n") if l]

    with ThreadPoolExecutor(8) as ex:
        return [v for r in ex.map(part, chunks(lines, 8)) for v in r]


def build():
    t = check.TARGET + "/conform"
    check.sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", HERE + "/rust/Cargo.toml", "--target-dir", t])
    deps = t + "/debug/deps"
    ext = ["-L", "dependency=" + deps]
    for lib, pat in (("conform", "libconform-*.rlib"), ("serde_json", "libserde_json-*.rlib"), ("serde", "libserde-*.rlib"), ("serde_derive", "libserde_derive-*.so")):
        f = sorted(glob.glob(deps + "/" + pat), key=os.path.getmtime)
        ext += ["--extern", "%s=%s" % (lib, f[-1])]
    return ext


def rust(d, lines, ctx):
    ext = build()
    for i, l in enumerate(lines):
        c = json.loads(l)
        name = c["case"]["name"].split(" ")[-1]
        open("%s/m%d.rs" % (d, i), "w", encoding="utf8").write((ASSUMED if c["assume"] else "") + c["code"] + SUFFIX % name)
    open(d + "/good.jsonl", "w", encoding="utf8").write("\n".join(lines))

    def part(a):
        k, idx = a
        out, bad = [], {}
        while True:
            live = [i for i in idx if i not in bad]
            src = "".join('#[path = "%s/m%d.rs"] mod m%d;\n' % (d, i, i) for i in live)
            src += "fn main() { conform::main(%s, &[%s]) }\n" % (json.dumps(d + "/good.jsonl"), ", ".join("(%d, m%d::check_all)" % (i, i) for i in live))
            open("%s/main%d.rs" % (d, k), "w").write(src)
            p = subprocess.run(["rustc", "--edition", "2024", "--cap-lints", "allow", "--error-format", "json", "-C", "debuginfo=0", "-C", "codegen-units=1",
                                "-o", "%s/main%d" % (d, k)] + ext + ["%s/main%d.rs" % (d, k)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=3600)
            if p.returncode == 0:
                break
            found = False
            for l in p.stderr.decode("utf8", "replace").split("\n"):
                if not l.startswith("{"):
                    continue
                m = json.loads(l)
                for s in m["spans"] if m["level"] == "error" else []:
                    while s.get("expansion") and not os.path.basename(s["file_name"]).startswith("m"):
                        s = s["expansion"]["span"]
                    b = os.path.basename(s["file_name"])
                    if b.startswith("m") and b[1:-3].isdigit():
                        found = True
                        bad.setdefault(int(b[1:-3]), m["message"])
            if not found:
                raise check.CheckError("rustc failed\n" + p.stderr.decode("utf8", "replace")[-3000:])
        for i, m in bad.items():
            c = json.loads(lines[i])
            out.append({"case": c["case"], "msg": "the code does not compile: " + m, "value": "", "code": c["code"]})
        p = subprocess.run(["%s/main%d" % (d, k)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=3600)
        os.unlink("%s/main%d" % (d, k))
        done = [json.loads(l) for l in p.stdout.decode("utf8").split("\n") if l]
        if p.returncode:
            # the case after the last one that was answered ends the process
            c = json.loads(lines[live[len(done)]])
            done.append({"case": c["case"], "msg": "the compiled code ends with %d: %s" % (p.returncode, p.stderr.decode("utf8", "replace")[-300:]), "value": "", "code": c["code"]})
            ctx.exhaustive = False
            done += [{"n": 0}] * (len(live) - len(done))
        return out + done

    # parts of limited size, so that memory stays bounded
    n = max(8, (len(lines) + 249) // 250)
    with ThreadPoolExecutor(8) as ex:
        r = [v for x in ex.map(part, enumerate(chunks(list(range(len(lines))), n))) for v in x]
    for i in range(len(lines)):
        os.unlink("%s/m%d.rs" % (d, i))
    return r
