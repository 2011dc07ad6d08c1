"""C24, C27, C28: the page and its worker in a simulated browser, every interleaving."""
import concurrent.futures, json, subprocess

import check
from native import cli, interfaces

SRC = check.REPO + "/json_typegen_web/src"
TOOL = check.VERIF + "/native/web/explore.cjs"
HAND = check.VERIF + "/native/web/hand.cjs"


def part(tier, k, n, timeout):
    p = subprocess.run(["node", "--stack-size=4000", TOOL, SRC, tier, str(k), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode:
        raise check.CheckError("the page explorer failed\n" + p.stderr.decode("utf8", "replace")[-3000:])
    return json.loads(p.stdout.decode("utf8"))


def run(ctx, mode=""):
    n = 64
    merged = {}
    longest = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda k: part(mode + ctx.tier, k, n, 24 * 3600 if ctx.thorough else 800), range(n)):
            if "unusable" in r:
                raise check.CheckError("cannot run the page: " + r["unusable"])
            ctx.coverage["states"] += r["states"]
            ctx.coverage["transitions"] += r["transitions"]
            ctx.coverage["traces_validated_against_impl"] += r["quiet"]
            ctx.add("sequences of user actions", r["programs"])
            if r["longest"] > longest:
                longest = r["longest"]
                ctx.coverage["longest interleaving"] = longest
                ctx.coverage["samples"] = r["samples"]
            for k, v in r["violations"].items():
                m = merged.setdefault(k, v)
                if m is not v:
                    c = m["count"] + v["count"]
                    m = merged[k] = min(m, v, key=lambda x: len(x["trace"]))
                    m["count"] = c
    for k, v in merged.items():
        ctx.violation(k, v["msg"], {"program": v["program"], "stored": v["stored"], "settled": v["settled"], "storage": v.get("storage"), "events": v["trace"]}, v["count"])
    ctx.assumptions += ["a chosen file and the text area are read and edited only while the page offers it (no typing under the large file overlay)",
                        "reactive statements run as Svelte documents them: once after start-up and, when something they mention was assigned a different value, at the next microtask",
                        "code generation itself answers (C12)"]


def hand(what, tier, k=0, n=1, one=None):
    p = subprocess.run(["node", "--stack-size=4000", HAND, SRC, what, tier, str(k), str(n)] + ([json.dumps(one)] if one is not None else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise check.CheckError("the page explorer failed\n" + p.stderr.decode("utf8", "replace")[-3000:])
    r = json.loads(p.stdout.decode("utf8"))
    if "unusable" in r:
        raise check.CheckError("cannot run the page: " + r["unusable"])
    return r


def run_hand(ctx):
    """C28: what the page copies, saves and shows; what formatting does; what the page offers."""
    mc = check.build_mc()
    interfaces.build_web()
    run(ctx, "hand-")
    merged = {}
    n = 64
    jobs = [("highlight", 0, 1)] + [("format", k, n) for k in range(n)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (what, _, _), r in zip(jobs, ex.map(lambda j: hand(j[0], ctx.tier, j[1], j[2]), jobs)):
            ctx.coverage["states"] += r["states"]
            ctx.coverage["transitions"] += r["transitions"]
            ctx.add({"format": "texts given to the format button", "highlight": "histories of the code shown"}[what], r["states"])
            if "unmodelled" in r:
                ctx.assumptions.append("the code shown is not examined: " + r["unmodelled"])
            for k, v in r["violations"].items():
                m = merged.setdefault(k, (what, v))[1]
                if m is not v:
                    c = m["count"] + v["count"]
                    merged[k] = (what, min(m, v, key=lambda x: x["size"]))
                    merged[k][1]["count"] = c
    for k, (what, v) in merged.items():
        ctx.violation(k, v["msg"], {"what": what, "case": v["case"]}, v["count"])
    choices(ctx, mc)


# how the code of each output language is to be highlighted
LANGUAGE = {"rust": "rust", "typescript": "typescript", "typescript/typealias": "typescript", "kotlin/jackson": "kotlin", "kotlin/kotlinx": "kotlin", "python": "python",
            "json_schema": "json", "zod": "typescript", "shape": "json"}


def choices(ctx, mc):
    r = hand("choices", ctx.tier)
    for k, v in r["violations"].items():
        ctx.violation(k, v["msg"], {"what": "choices", "case": v["case"]}, v["count"])
    for i, vs in r["offered"].items():
        if len(set(vs)) != len(vs):
            ctx.violation("choice-twice", "the page offers the same choice twice in " + i, {"what": "choices", "case": vs})
    got = interfaces.ask_web([(q["name"], q["input"], q["options"]) for q in r["requests"]])
    wants = []
    for q in r["requests"]:
        f = q["fields"]
        b = {"output_mode": f["outputmode"], "input_mode": f["inputmode"], "import_style": f["importstyle"], "collect_additional": f["collectadditional"]}
        for k, i in (("property_name_format", "propertynameformat"), ("unwrap", "unwrappath"), ("infer_map_threshold", "infermapthreshold")):
            if f[i] != "":
                b[k] = f[i]
        wants.append(cli.lib("MyRoot", q["text"], json.dumps(b)))
    for q, w, g in zip(r["requests"], cli.batch(mc, wants), got):
        ctx.coverage["states"] += 1
        ctx.coverage["traces_validated_against_impl"] += 1
        case = {"what": "choices", "case": {"fields": q["fields"], "request": q["options"], "gave": (g or "panic")[:900], "expected": w[1][:900]}}
        if g is None or g.startswith("Error:") and w[0]:
            ctx.violation("choice-refused", "a combination of choices that the page offers is refused by the generator", case)
        elif g.startswith("Error:") and not w[0] and q["fields"]["unwrappath"] == "":
            ctx.violation("choice-refused", "a combination of choices that the page offers is refused by the generator", case)
        elif w[0] and g != w[1]:
            ctx.violation("choice-ignored", "the generator's answer to the page's request is not that for the fields' values", case)
        if q["language"] is not None and q["fields"]["outputmode"] in LANGUAGE and q["language"] != LANGUAGE[q["fields"]["outputmode"]]:
            ctx.violation("choice-language", "the output shown is highlighted as another language", {"what": "choices", "case": q["fields"], "language": q["language"]})
    ctx.add("combinations of choices", len(r["requests"]))


def replay_hand(ctx, rec):
    c = rec["case"]
    if "program" in c:
        return replay(ctx, rec, "hand-")
    r = hand(c["what"], "quick", one=c["case"] if c["what"] == "format" else None)
    if c["what"] == "choices":
        choices(ctx, check.build_mc())
        return 1 if ctx.violations else 0
    for v in r["violations"].values():
        print("--- %s\n%s" % (v["key"], v["msg"]))
    return 1 if r["violations"] else 0


def replay(ctx, rec, mode=""):
    c = rec["case"]
    p = subprocess.run(["node", TOOL, SRC, mode + "quick", "0", "1", json.dumps({"program": c["program"], "stored": c["stored"], "settled": c["settled"], "storage": c.get("storage")})], stdout=subprocess.PIPE)
    r = json.loads(p.stdout.decode("utf8"))
    for v in r["violations"].values():
        print("--- %s (%d interleavings)\n%s\n%s" % (v["key"], v["count"], v["msg"], "\n".join(v["trace"])))
    return 1 if r["violations"] else 0
