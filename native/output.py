"""C20: the command line's output file under every failure cause, prior state and write fault."""
import itertools, os

import check
from native import cli

EINTR, EIO, ENOSPC, EACCES, EPIPE, EDQUOT = -4, -5, -28, -13, -32, -122
OLD = b"\xff old contents \x00\n" * 40


def requests(thorough):
    """(label, args, stdin, library case or None when the request cannot be put to the library)."""
    r = []
    lib = cli.lib
    doc = '{"a":[{"b":1},{}],"c":"x"}'
    blk = '{derives:"Debug",field_visibility:"pub(crate)"}'
    mac = 'json_typegen!("Pt",r#"{"x":1}"#,{use_default_for_missing_fields})'
    for n in range(len(doc) + 1):
        if doc[:n].strip():
            r.append(("sample cut", [doc[:n]], None, lib("Root", doc[:n])))
        r.append(("stdin cut", ["-"], doc[:n].encode(), lib("Root", doc[:n]) if doc[:n].strip() else "error"))
    for n in range(len(blk) + 1):
        r.append(("options cut", [doc, "--options=" + blk[:n]], None, lib("Root", doc, blk[:n]) if n else "error"))
    for n in range(len("json_typegen"), len(mac) + 1):
        r.append(("macro cut", [mac[:n]], None, cli.macro(mac[:n])))
        if thorough:
            r.append(("macro cut", ["-"], mac[:n].encode(), cli.macro(mac[:n])))
    for m in ["rust", "typescript", "typescript/typealias", "kotlin", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape"]:
        r.append(("mode", ["-O", m, doc], None, lib("Root", doc, None, m)))
        r.append(("mode", ["-O", m, doc[:-1]], None, lib("Root", doc[:-1], None, m)))
    for m in ["", "Rust", "java", "rust ", "typescript/", "-"]:
        r.append(("unknown mode", ["--output-mode=" + m, doc], None, "error"))
        r.append(("unknown mode", [doc, "--output-mode=" + m, "--options", "{}"], None, "error"))
    for p in ["/z", "/a/0/z", "/c/0", "/c"]:
        r.append(("unwrap", [doc, "--options", '{unwrap:"%s"}' % p], None, lib("Root", doc, '{unwrap:"%s"}' % p)))
    for h in ['"/c":{use_type:"map"}', '"/c":{use_type:"opaque"}', '"":{use_type:5}', '"/a":{use_type:"nonsense"}']:
        r.append(("hint", [doc, "--options", "{%s}" % h], None, lib("Root", doc, "{%s}" % h)))
    for t in ["[1,]", "{\"a\" 1}", "{", "[1e]", "[01]", "{} {}", "[\"\\x\"]", "[" * 300]:
        r.append(("malformed", [t], None, lib("Root", t)))
    for t in ["CREATE TABLE", "CREATE TABLE t (a int", "create table t (a int);", "CREATE TABLE t (a int) x"]:
        r.append(("sql", ["-"], t.encode(), lib("Root", t)))
    for b in [b"\xff", b'{"a":"\xff"}', b'{"a":"\xc3', b"", b"  \n", b"\xef\xbb\xbf{}"]:
        r.append(("stdin bytes", ["-"], b, "error"))
    r.append(("no input", [], None, "error"))
    r.append(("two inputs", [doc, doc], None, "error"))
    r.append(("unknown flag", [doc, "--frobnicate"], None, "error"))
    return r


PRIOR = ["absent", "empty", "short", "long", "link", "dangling"]
BAD_PRIOR = ["directory", "no parent", "parent is a file", "loop"]


def prepare(d, prior):
    """Makes the prior state in d; returns the path given to -o."""
    o = d + "/out"
    if prior in ("empty", "short", "long"):
        open(o, "wb").write({"empty": b"", "short": b"\xfeold", "long": OLD}[prior])
    elif prior == "link":
        open(d + "/target", "wb").write(OLD)
        os.symlink(d + "/target", o)
    elif prior == "dangling":
        os.symlink(d + "/target", o)
    elif prior == "directory":
        os.mkdir(o)
    elif prior == "no parent":
        o = d + "/none/out"
    elif prior == "parent is a file":
        open(o, "wb").write(OLD)
        o = o + "/out"
    elif prior == "loop":
        os.symlink(o, o)
    return o


def content(o):
    try:
        return open(o, "rb").read()
    except OSError as e:
        return type(e).__name__


def judge(ctx, info, got, want, before, after, fault=False):
    """want: bytes, or None when the request cannot produce code; fault: opening or writing must fail."""
    rc, out, err, log = got
    ctx.coverage["transitions"] += 1
    ctx.mc_states.add(repr(sorted(info.items(), key=str)))
    case = dict(info, status=rc, stdout=out[:300].decode("utf8", "replace"), stderr=err[:300], log=log,
                before=repr(before)[:200], after=repr(after)[:200])
    if rc is None:
        ctx.violation("hang", err, case)
    elif want is None:
        if rc == 0:
            ctx.violation("failure-not-reported", "no code can be produced and yet the status is 0", case)
        elif out:
            ctx.violation("stdout-on-failure", "no code can be produced and yet something is written to standard output", case)
        elif not err.strip():
            ctx.violation("silent-failure", "failing status without a reason on standard error", case)
        elif isinstance(before, bytes) and after != before:
            ctx.violation("output-lost", "no code can be produced and yet the output file changed", case)
        else:
            ctx.coverage["traces_validated_against_impl"] += 1
    elif fault:
        if rc == 0:
            ctx.violation("write-failure-ignored", "opening or writing the output failed and the status is 0", case)
        else:
            ctx.coverage["traces_validated_against_impl"] += 1
    elif rc != 0:
        ctx.violation("spurious-failure", "code can be produced and yet the status is failing", case)
    elif after != want:
        ctx.violation("wrong-contents", "success reported; the output file should be exactly %r" % want[:300], case)
    else:
        ctx.coverage["traces_validated_against_impl"] += 1


def run(ctx):
    cli.build()
    ctx.mc_states = set()
    mc = check.build_mc()
    reqs = requests(ctx.thorough)
    todo = [r[3] for r in reqs if isinstance(r[3], dict)]
    ref = iter(cli.batch(mc, todo))
    wants = []
    for r in reqs:
        if isinstance(r[3], dict):
            ok, text = next(ref)
            wants.append(text.encode("utf8") if ok else None)
        else:
            wants.append(None)
    ctx.add("requests", len(reqs))
    ctx.add("requests that cannot produce code", sum(w is None for w in wants))
    with cli.scratch() as top:
        ids = itertools.count()
        fresh = lambda: (lambda d: os.mkdir(d) or d)("%s/%d" % (top, next(ids)))
        static(ctx, fresh, reqs, wants)
        sources(ctx, fresh)
        writes(ctx, fresh, reqs, wants, mc)
        histories(ctx, fresh)
    ctx.coverage["states"] = len(ctx.mc_states)
    ctx.assumptions.append("write and read results are injected at libc's open/read/write; the tool runs as root, so permissions are injected as errors")


def static(ctx, fresh, reqs, wants):
    work = []
    for r, w in zip(reqs, wants):
        for prior in PRIOR + BAD_PRIOR:
            if w is None or prior in ("long", "absent", "link") or r[0] == "mode":
                for form in ((0, 1, 2) if ctx.thorough else (0,)):
                    work.append((r, w, prior, form))

    def one(x):
        r, w, prior, form = x
        d = fresh()
        o = prepare(d, prior)
        before = content(o)
        args = [["-o", o] + r[1], r[1] + ["--output", o], r[1] + ["--output=" + o]][form]
        got = cli.run(args, r[2], cwd=d)
        return got, before, content(o)

    for (r, w, prior, form), (got, before, after) in zip(work, cli.each(work, one)):
        info = {"args": r[1], "stdin": None if r[2] is None else r[2].decode("utf8", "replace"), "cause": r[0], "output": prior, "form": form}
        judge(ctx, info, got, w, before, after, fault=prior in BAD_PRIOR)
    ctx.add("family: request x prior state of the output", len(work))
    near(ctx, fresh, reqs, wants)
    # without -o: nothing on standard output on failure, exactly the code otherwise
    for (r, w), got in zip(zip(reqs, wants), cli.each(list(zip(reqs, wants)), lambda x: cli.run(x[0][1], x[0][2]))):
        judge(ctx, {"args": r[1], "cause": r[0], "output": "stdout"}, got, w, b"", b"" if w is None else got[1])
    ctx.add("family: request to standard output", len(reqs))


def neighbours(w):
    """Prior contents close to the code to be written: its own text, cut, extended, and with one byte changed."""
    r = [w, w + b"\n", w + b"\n\n", w + w, w + b"\0", b"\n" + w, w.replace(b"\n", b"\r\n"), w.upper(), w.swapcase(), w[::-1], b"x" * len(w), b" " * len(w),
         b"\0" * len(w), w.rstrip(), w.strip() + b" ", b"\xef\xbb\xbf" + w, b"// " + w, w.replace(b" ", b""), w.replace(b" ", b"\t")]
    cuts = range(len(w)) if len(w) < 40 else sorted(set(range(0, len(w), 9)) | {1, 2, 3, 4, 7, 8, 15, 16, len(w) - 1, len(w) - 2})
    for k in cuts:
        r += [w[:k], w[k:], w[:k] + bytes([w[k] ^ 1]) + w[k + 1:]]
    return list(dict.fromkeys(r))


def near(ctx, fresh, reqs, wants):
    """An output file that already holds something close to the code to be written, younger or older than any source."""
    good = [(r, w) for r, w in zip(reqs, wants) if w is not None and r[0] in ("mode", "options cut", "macro cut")]
    src = '{"a":[{"b":1},{}],"c":"x"}'
    work = [(r, w, old, how) for r, w in good for old in neighbours(w) for how in (("text", "future", "past", "linked", "file") if ctx.thorough else ("text",))]
    if not ctx.thorough:
        work += [(r, w, old, how) for r, w in good[:6] for old in neighbours(w)[:20] for how in ("future", "past", "linked")]

    def one(x):
        r, w, old, how = x
        d = fresh()
        o = d + "/out"
        open(o, "wb").write(old)
        args = list(r[1])
        if how == "linked":
            os.link(o, d + "/other")
        if how == "file" and src in args:
            open(d + "/in.json", "w").write(src)
            args[args.index(src)] = d + "/in.json"
        if how in ("future", "past"):
            t = 4000000000 if how == "future" else 1
            os.utime(o, (t, t))
        got = cli.run(["-o", o] + args, r[2], cwd=d)
        return got, content(o)

    for (r, w, old, how), (got, after) in zip(work, cli.each(work, one)):
        judge(ctx, {"args": r[1], "cause": r[0], "output holds": repr(old), "how": how}, got, w, old, after)
    ctx.add("family: code over an output file holding nearly the same", len(work))


def sources(ctx, fresh):
    """Failing sources, with a failure at each read, and the output file in each prior state; also output over the input."""
    doc = b'{"a":[1]}'
    work = []
    for prior in PRIOR + BAD_PRIOR:
        for k in range(len(doc) + 2):
            for e in (EIO, -21):
                work.append(("stdin", prior, [1] * k + [e], None))
                work.append(("file", prior, [1] * k + [e], None))
        for e in (2, 5, 13, 24, 40):
            work.append(("file", prior, [], e))
        for s in ("missing", "directory", "bad file", "bad utf8 file", "empty file", "refused", "not found", "cut"):
            work.append((s, prior, [], None))
    from native.reads import Server
    srv = Server()
    srv.plans["/404"] = ([b"HTTP/1.1 404 Not Found\r\nContent-Length: 4\r\nConnection: close\r\n\r\nnope"], False)
    srv.plans["/cut"] = ([b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 20\r\nConnection: close\r\n\r\n" + doc], False)
    import socket
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        free = s.getsockname()[1]

    def one(x):
        s, prior, acts, e = x
        d = fresh()
        o = prepare(d, prior)
        before = content(o)
        f, stdin, plan = d + "/in.json", None, None
        open(f, "wb").write({"bad file": b'{"a":', "bad utf8 file": b'["\xff"]', "empty file": b""}.get(s, doc))
        if s == "stdin":
            f, stdin, plan = "-", doc, {"in": "stdin", "read": acts}
        elif s == "file":
            plan = {"in": f, "read": acts}
            if e:
                plan["open_in"] = e
        else:
            f = {"missing": d + "/nothing", "directory": d, "refused": "http://127.0.0.1:%d/" % free, "not found": "http://127.0.0.1:%d/404" % srv.port,
                 "cut": "http://127.0.0.1:%d/cut" % srv.port}.get(s, f)
        got = cli.run(["-o", o, f], stdin, plan, cwd=d)
        return got, before, content(o)

    for x, (got, before, after) in zip(work, cli.each(work, one)):
        if x[0] in ("stdin", "file") and not set("RO") & set(got[3]):
            continue  # the planned failure lies behind the last read
        judge(ctx, {"cause": "source: " + x[0], "output": x[1], "reads": cli.acts(x[2]), "open error": x[3]}, got, None, before, after)
    ctx.add("family: failing source x prior state of the output", len(work))

    for sample in (b'{"a":1}', b'{"a":', b"{} x", b'["\xff"]'):
        for mode in ("rust", "shape", "json_schema"):
            d = fresh()
            f = d + "/io"
            ref = cli.run(["-O", mode, sample.decode("utf8", "replace") if sample != b'["\xff"]' else "[tru]"])
            open(f, "wb").write(sample)
            got = cli.run(["-O", mode, "-o", f, f], cwd=d)
            judge(ctx, {"cause": "output over input", "sample": sample.decode("utf8", "replace"), "mode": mode}, got, ref[1] if ref[0] == 0 else None, sample, content(f))
            ctx.add("family: output over input", 1)


def writes(ctx, fresh, reqs, wants, mc):
    """Every split of a short output, interruptions and failures at every write; the same on standard output."""
    cases = [('[1]', "shape"), ('{"a":1}', "shape"), ('{"a":[1,"é"]}', "json_schema"), ('{"a":{"b":null}}', "rust"), ('[{"a":1}]', "kotlin"),
             ('{"a":1}', "zod"), ('{"a":1}', "python"), ('{"a":1}', "typescript")]
    outs = [t.encode("utf8") for ok, t in cli.batch(mc, [cli.lib("Root", s, None, m) for s, m in cases])]
    work = []
    for (s, m), out in zip(cases, outs):
        L = len(out)
        small = L <= (12 if ctx.thorough else 10)
        comps = list(cli.compositions(L)) if small else []
        if not small:
            step = 1 if L < 120 or ctx.thorough else 7
            comps = [[1] * L, []] + [[k] for k in range(1, L, step)] + [[k, 1] for k in range(1, L - 1, step)]
            comps += [[n] * (L // n + 1) for n in (2, 3, 7, 64)]
        for where in ("file", "stdout"):
            for prior in (["absent", "long", "link"] if where == "file" else ["stdout"]):
                if prior != "long" and where == "file" and not small:
                    use = comps[:12]
                else:
                    use = comps
                for c in use:
                    work.append((s, m, out, where, prior, c, False, None))
                    if len(c) <= 3 or len(c) >= L - 1 and L < 40:
                        for k in range(len(c) + 1):
                            work.append((s, m, out, where, prior, c[:k] + [EINTR] + c[k:], False, None))
                            for e in (EIO, ENOSPC, EPIPE, EDQUOT) if len(c) <= 1 else (ENOSPC,):
                                work.append((s, m, out, where, prior, c[:k] + [e] + c[k:], True, None))
                            work.append((s, m, out, where, prior, c[:k] + [0] * 1 + c[k:], True, None))
        for e in (1, 2, 13, 21, 23, 24, 26, 28, 30):
            for prior in ("absent", "empty", "long", "link"):
                work.append((s, m, out, "file", prior, [], True, e))

    def one(x):
        s, m, out, where, prior, acts, bad, e = x
        d = fresh()
        plan = {"outdir": "stdout" if where == "stdout" else d, "write": acts}
        if e:
            plan["open_out"] = e
        o = prepare(d, prior)
        before = content(o)
        got = cli.run(["-O", m, s] + (["-o", o] if where == "file" else []), None, plan, cwd=d)
        return got, before, got[1] if where == "stdout" else content(o)

    n = 0
    for x, (got, before, after) in zip(work, cli.each(work, one)):
        s, m, out, where, prior, acts, bad, e = x
        info = {"args": ["-O", m, s], "output": prior, "writes": cli.acts(acts), "open error": e}
        log = got[3]
        if 0 in acts:  # a write that takes nothing: retrying and failing are both right
            if got[0] == 0:
                judge(ctx, info, got, out, before, after)
            else:
                judge(ctx, info, got, out, before, after, fault=True)
        else:
            hit = "W" in log or "O" in log
            if bad and not hit and got[0] == 0 and where == "file" and not log:
                raise check.CheckError("the writes of the output were not seen by the shim")
            judge(ctx, info, got, out, before, after, fault=bad and hit)
        if e and after != before:
            ctx.violation("output-lost", "opening the output failed and yet it changed", dict(info, before=repr(before)[:200], after=repr(after)[:200]))
        n += 1
    ctx.add("family: split, interruption or failure at every write", n)


def histories(ctx, fresh):
    """Sequences of invocations with the same output file: it always holds the code of the last success."""
    step = [('{"a":1}', "rust", []), ('{"abc":[{"d":"e"},{"f":null}]}', "json_schema", []), ("[1", "rust", []), ("[1]", "shape", []), ("{}", "zod", ["--options", "{x:}"]),
            ("[2]", "none", [])]
    codes = [cli.run(["-O", m, s] + a) for s, m, a in step]
    depth = 4 if ctx.thorough else 3
    work = [h for n in range(1, depth + 1) for h in itertools.product(range(len(step)), repeat=n)]

    def one(h):
        d = fresh()
        o = d + "/out"
        r = []
        for i in h:
            before = content(o)
            s, m, a = step[i]
            got = cli.run(["-O", m, "-o", o, s] + a, cwd=d)
            r.append((i, got, before, content(o)))
        return r

    for h, r in zip(work, cli.each(work, one)):
        i, got, before, after = r[-1]
        w = codes[i][1] if codes[i][0] == 0 else None
        judge(ctx, {"history": [step[j][:2] for j in h]}, got, w, before, after)
    ctx.add("family: histories of invocations", len(work))
