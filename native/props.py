"""Per-property composition of the exploration stages."""
import json, subprocess

import check


def run(prop, ctx):
    f = globals().get("run_" + prop)
    if f:
        return f(ctx)
    ctx.run_mc()
    conformance(ctx)


def conformance(ctx):
    from native import conform

    if ctx.prop in conform.MODES:
        conform.run(ctx)
        ctx.assumptions.append("pydantic is not installed: Python code runs against a stand-in that takes annotations and aliases as they are" if "python" in conform.MODES[ctx.prop] else "the target language's own tools are right")


def replay(prop, ctx, rec, path):
    """Re-runs one recorded case; cases of the native stages are found again by running their stage."""
    if rec["case"].get("extra") == "conformance":
        ctx.tier = "quick"
        conformance(ctx)
        found = [v for v in ctx.violations if v["case"] == rec["case"]] or [v for v in ctx.violations if v["key"] == rec["key"]]
    elif isinstance(rec["case"].get("kind"), str):
        mc = check.build_mc()
        d = ctx.dir + "/mc"
        p = subprocess.run([mc, "replay", prop, path, d])
        if p.returncode:
            print("the explorer ended with %d" % p.returncode)
            return 1
        found = json.load(open(d + "/result.json"))["violations"]
    elif "replay_" + prop in globals():
        return globals()["replay_" + prop](ctx, rec)
    else:
        globals()["run_" + prop](ctx)
        same = [v for v in ctx.violations if v["case"] == rec["case"]]
        found = same or [v for v in ctx.violations if v["key"] == rec["key"]]
    for v in found[:5]:
        print("--- %s\n%s\n%s" % (v["key"], json.dumps(v["case"], ensure_ascii=False), v["msg"]))
    if not found:
        print("not reproduced")
        return 0
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def run_C13(ctx):
    from native import reads

    ctx.run_mc()
    ctx.mc_states = set()
    reads.run(ctx)
    ctx.coverage["states"] += len(ctx.mc_states)
    ctx.assumptions.append("samples start with { or [; interruptions and failures are injected at libc's open/read, truncation at the HTTP connection")


def run_C20(ctx):
    from native import output

    output.run(ctx)


def run_C19(ctx):
    from native import interfaces

    interfaces.run(ctx)


def run_C24(ctx):
    from native import webpage

    webpage.run(ctx)


def replay_C24(ctx, rec):
    from native import webpage

    return webpage.replay(ctx, rec)


def run_C28(ctx):
    from native import webpage

    webpage.run_hand(ctx)


def replay_C28(ctx, rec):
    from native import webpage

    return webpage.replay_hand(ctx, rec)


def run_C27(ctx):
    from native import webpage

    webpage.run(ctx, "reload-")


def replay_C27(ctx, rec):
    from native import webpage

    return webpage.replay(ctx, rec, "reload-")
