"""C19: the same request through the library, the command line, the macro and the web entry point."""
import itertools, json, os, re, shutil, subprocess

import check
from native import cli

MODES = ["rust", "typescript", "typescript/typealias", "kotlin", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape"]
DOCS = ['{}', '{"a":1}', '[]', '[1,"x"]', '{"a":{"b":[null,1.5]},"type":"x"}', '[{"a":1},{}]', ' {"a b":"\\u00e9é","\\"q\\\\":true}\n',
        '[[{"x":[{"y":1}]}],{"z":null}]', '{"x":{"a":1,"b":2,"c":3}}']
BAD_DOCS = ['{', '{"a":}', '[1,]', '{"a":1} x', '["\\x"]', '[01]', '{"é\\"":tru}']
# blocks the grammar accepts, and blocks it does not
BLOCKS = ['{}', '{ }', '{derives:"Debug"}', '{ derives: "Debug, Clone", field_visibility: "pub(crate)" }', '{field_visibility:"pub(in crate)"}',
          '{use_default_for_missing_fields}', '{deny_unknown_fields, allow_option_vec}', '{property_name_format:"camelCase"}',
          '{unwrap:"/a"}', '{unwrap:"/-"}', '{import_style:"assume_existing"}', '{import_style:"qualified_paths"}', '{import_style:"add_imports"}', '{infer_map_threshold:"2"}',
          '{collect_additional}', '{"/a":{use_type:"opaque"}}', '{"/x":{use_type:"map"}}', '{"/a/b":{use_type:"Foo"}}', '{input_mode:"json"}', '{derives:"",}']
HINT = '{"/-/a":{use_type:"Foo"}}'
BAD_BLOCKS = ['{', '}', '{derives}', '{derives:Debug}', '{nonsense:"x"}', '{derives:"Debug" x}', '{unwrap:5}', '{"/a":{use_type}}', '{unwrap:"/nothing/here"}', 'derives:"Debug"', '{} {}', "", " "]
NAMES = ["Root", "Point", "foo_bar", "pub Foo", "pub(crate) Foo", "é", "type", "A B", "1x", "String",
         "", " ", "Root ", " Root", "pub ", "a\nb", "名", "'", '"', "$HOME", "{}", "%s", "x" * 300, "\t"]
SQL = ["CREATE TABLE users (id INTEGER NOT NULL, name TEXT)", "CREATE TABLE t (a int", "SELECT 1", 'create table "T" ("q\'" int);']
SPACES = ["", " ", "\n", "\t", "\r\n", "  \n\n \t", "\u00a0", "\f"]
RUSTQ = lambda s: '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
RAW = lambda s: 'r###"' + s + '"###'


def with_mode(block, mode):
    if not mode:
        return block
    b = block or "{}"
    inner = b.strip()[1:-1].strip().rstrip(",")
    return "{%s%soutput_mode:%s}" % (inner, "," if inner else "", RUSTQ(mode))


def qualified(block):
    """The macro's default import style, spelt out."""
    b = block or "{}"
    if "import_style" in b or not (b.startswith("{") and b.endswith("}")):
        return b
    inner = b[1:-1].strip().rstrip(",")
    return "{%s%simport_style:\"qualified_paths\"}" % (inner, "," if inner else "")


def run(ctx):
    cli.build()
    mc = check.build_mc()
    ctx.mc_states = set()
    command_line(ctx, mc)
    web(ctx, mc)
    macro(ctx, mc)
    ctx.coverage["states"] = len(ctx.mc_states)


def verdict(ctx, via, req, want, ok, text, message, case):
    """want: (ok, text) of the library; ok/text: what this interface gave; message: text of its error."""
    ctx.coverage["transitions"] += 1
    ctx.mc_states.add(repr(req))
    case = dict(case, interface=via, name=req[0], sample=req[1], options=req[2], mode=req[3], library=want[1][:900], gave=(text if ok else message)[:900])
    if want[0] and not ok:
        ctx.violation(via + "-rejects", "the library produces types for this request, this interface reports an error", case)
    elif ok and not want[0]:
        ctx.violation(via + "-accepts", "the library reports an error for this request, this interface does not", case)
    elif ok and text != want[1]:
        ctx.violation(via + "-differs", "this interface's output is not the library's", case)
    elif not ok and not message.strip():
        ctx.violation(via + "-silent", "this interface reports the error without a message", case)
    else:
        ctx.coverage["traces_validated_against_impl"] += 1


def lib(req):
    name, doc, block, mode = req
    return cli.lib(name, doc, " " if block == "" else block, mode)  # an empty block is not the same as none


def command_line(ctx, mc):
    reqs = []  # (name, doc, block, mode)
    for d in DOCS + BAD_DOCS:
        for b in [None] + BLOCKS + BAD_BLOCKS:
            for m in [None] + MODES:
                if ctx.thorough or m in (None, "rust", "kotlin/kotlinx", "zod") or b in (None, BLOCKS[3], BLOCKS[11]) or d in DOCS[1:5:3]:
                    reqs.append(("Root", d, b, m))
    for n in NAMES:
        for d in DOCS[:5] + BAD_DOCS[:1]:
            for m in [None] + MODES:
                for b in [None, BLOCKS[3]]:
                    reqs.append((n, d, b, m))
    for s in SQL:
        for m in [None] + MODES:
            for b in ('{input_mode:"sql"}', '{input_mode:"sql",derives:"Debug"}'):
                reqs.append(("Root", s, b, m))
    # white space of every kind around the sample and the options
    for a, b in itertools.product(SPACES, SPACES):
        for d in (DOCS[1], DOCS[5], BAD_DOCS[1]):
            for o in (None, a + BLOCKS[3] + b):
                for m in (None, "kotlin/kotlinx"):
                    reqs.append(("Root", a + d + b, o, m))
    # the mode given in the options, alone and overridden on the command line
    for m1 in MODES:
        for m2 in [None] + MODES:
            for b in ("{}", BLOCKS[3], BLOCKS[10]):
                reqs.append(("Root", DOCS[5], with_mode(b, m1), m2))
    wants = cli.batch(mc, [lib(r) for r in reqs])
    with cli.scratch() as top:
        work = []
        for i, (r, w) in enumerate(zip(reqs, wants)):
            name, doc, block, mode = r
            sql = block and "sql" in block
            parts = []
            if name != "Root":
                parts.append(["-n", name])
            if block is not None:
                parts.append(["--options", block])
            if mode:
                parts.append(["-O", mode])
            # the library trims white space that JSON does not know (U+00A0, form feed) from a sample
            # given as text; the same characters in a file are content, and not JSON
            ways = ["arg", "stdin"] + ([] if sql or doc.strip() != doc.strip(" \t\r\n") else ["file"])
            if not ctx.thorough and len(work) > 4000 and name == "Root":
                ways = [ways[i % len(ways)]]
            for way in ways:
                work.append((r, w, way, parts, None))
        # every order and spelling of the arguments
        r = ("Pt", DOCS[5], HINT, "kotlin/kotlinx")
        w = cli.batch(mc, [lib(r)])[0]
        spell = [[["-n", "Pt"], ["-nPt"], ["--name", "Pt"], ["--name=Pt"]], [["--options", HINT], ["--options=" + HINT]],
                 [["-O", "kotlin/kotlinx"], ["--output-mode", "kotlin/kotlinx"], ["--output-mode=kotlin/kotlinx"], ["-Okotlin/kotlinx"]]]
        for c in itertools.product(*spell):
            for order in itertools.permutations(range(4)):
                for out in (None, 0, 4):
                    for way in ("arg", "stdin", "file"):
                        work.append((r, w, way, list(c), (order, out)))
        # every subset of the arguments
        rs = [("Pt" if a else "Root", DOCS[5], HINT if b else None, "python" if c else None) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
        for r, w in zip(rs, cli.batch(mc, [lib(r) for r in rs])):
            parts = ([["-n", "Pt"]] if r[0] == "Pt" else []) + ([["--options", r[2]]] if r[2] else []) + ([["-O", r[3]]] if r[3] else [])
            for order in itertools.permutations(range(len(parts) + 1)):
                for out in (None, 0, len(parts) + 1):
                    for way in ("arg", "stdin", "file"):
                        work.append((r, w, way, parts, (order, out)))
        ids = itertools.count()

        def one(x):
            r, w, way, parts, arr = x
            src, stdin = [r[1]], None
            if way == "stdin":
                src, stdin = ["-"], r[1].encode("utf8")
            elif way == "file":
                f = "%s/s%d" % (top, next(ids))
                open(f, "wb").write(r[1].encode("utf8"))
                src = [f]
            all_ = [src] + parts
            out = None
            if arr:
                all_ = [all_[i] for i in arr[0]]
                if arr[1] is not None:
                    out = "%s/o%d" % (top, next(ids))
                    all_.insert(arr[1], ["-o", out])
            got = cli.run([a for p in all_ for a in p], stdin)
            text = got[1]
            if out is not None and got[0] == 0:
                text = open(out, "rb").read()
                os.unlink(out)
            if way == "file":
                os.unlink(src[0])
            return got, text, all_

        for x, (got, text, args) in zip(work, cli.each(work, one)):
            verdict(ctx, "command-line", x[0], x[1], got[0] == 0, text.decode("utf8", "replace"), got[2], {"way": x[2], "arguments": args, "status": got[0]})
            if x[1][0] is False and got[1]:
                ctx.violation("command-line-prints", "an error and yet something on standard output", {"arguments": args})
        ctx.add("family: command line", len(work))
    # macros on the command line
    work = []
    for text, req in macro_texts(ctx):
        for way in ("arg", "stdin"):
            work.append((text, req, way))
    wants = dict(zip([t for t, _ in macro_texts(ctx)], cli.batch(mc, [lib((r[0], r[1], qualified(r[2]), None)) for _, r in macro_texts(ctx)])))
    direct = dict(zip(wants, cli.batch(mc, [cli.macro(t) for t in wants])))
    for t in wants:
        verdict(ctx, "macro-text", (t, "", "", ""), wants[t], direct[t][0], direct[t][1], direct[t][1], {})

    def one(x):
        text, req, way = x
        return cli.run([text, "--options", "{nonsense", "-n", "Ignored"] if way == "arg" and len(text) % 3 == 0 else [text] if way == "arg" else ["-"],
                       None if way == "arg" else text.encode("utf8"))

    for x, got in zip(work, cli.each(work, one)):
        verdict(ctx, "command-line-macro", (x[0], "", "", ""), wants[x[0]], got[0] == 0, got[1].decode("utf8", "replace"), got[2], {"way": x[2], "status": got[0]})
    ctx.add("family: command line, macro", len(work))


def macro_requests(ctx):
    r = []
    for d in DOCS + BAD_DOCS:
        for b in [None] + BLOCKS + BAD_BLOCKS:
            r.append(("Root", d, b))
    for n in ["Point", "foo_bar", "pub Foo", "pub(crate) Foo", "type", "A B", "String"]:
        for d in DOCS[:5]:
            r.append((n, d, '{derives:"Debug"}'))
    for s in SQL:
        r.append(("Root", s, '{input_mode:"sql",derives:"Debug"}'))
    return r


def macro_texts(ctx):
    """Whole macro invocations and the requests they stand for."""
    seen = set()
    for n, d, b in macro_requests(ctx):
        if b in BAD_BLOCKS:
            continue
        for q, (open_, close) in itertools.product((RUSTQ, RAW), (("(", ");"), ("(\n", " );\n"))):
            t = "json_typegen!%s%s, %s%s%s" % (open_, RUSTQ(n), q(d), ", " + b if b is not None else "", close)
            if t not in seen:
                seen.add(t)
                yield t, (n, d, b)
    # white space of every kind around the macro
    for k, (n, d, b) in enumerate([("Root", DOCS[1], None), ("Pt", DOCS[5], BLOCKS[3])]):
        for pre, post in itertools.product(SPACES, SPACES):
            t = "%sjson_typegen!(%s, %s%s);%s" % (pre, RUSTQ(n), RUSTQ(d), ", " + b if b else "", post)
            if t not in seen:
                seen.add(t)
                yield t, (n, d, b)


def build_web():
    check.sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", check.VERIF + "/native/wasmuse/Cargo.toml", "--target-dir", check.TARGET + "/wasm"],
             env={"CARGO_PROFILE_DEV_DEBUG": "0"})


def ask_web(reqs):
    """The answers of the web entry point to (name, sample, options), None for a panic."""
    hx = lambda s: "x" + s.encode("utf8").hex()
    p = subprocess.run([check.TARGET + "/wasm/debug/wasmuse"], input="".join("%s %s %s\n" % (hx(n), hx(d), hx(b)) for n, d, b in reqs).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
    got = p.stdout.decode().split("\n")[:-1]
    if len(got) != len(reqs):
        raise check.CheckError("the web entry point answered %d of %d requests" % (len(got), len(reqs)))
    return [None if g == "panic" else bytes.fromhex(g[1:]).decode("utf8") for g in got]


def web(ctx, mc):
    build_web()
    reqs = []
    for d in DOCS + BAD_DOCS:
        for b in BLOCKS + BAD_BLOCKS:
            for m in [None] + MODES:
                reqs.append(("Root", d, b if b in BAD_BLOCKS else with_mode(b, m), None))
    for n in NAMES:
        for d in DOCS + BAD_DOCS[:2]:
            for m in [None] + MODES:
                reqs.append((n, d, with_mode("{}", m), None))
    for s in SQL:
        for m in [None] + MODES:
            reqs.append(("Root", s, with_mode('{input_mode:"sql"}', m), None))
    # what the page's own option encoder produces: JSON text
    for m in MODES:
        for f in ("", "camelCase"):
            for u in ("", "/-"):
                for v in ("false", "true"):
                    b = '{"output_mode":%s,"property_name_format":%s,"unwrap":%s,"collect_additional":%s}' % tuple(json.dumps(x) if x not in ("true", "false") else x for x in (m, f or "PascalCase", u, v))
                    for d in DOCS:
                        reqs.append(("Root", d, b, None))
    got = ask_web([(n, d, b) for n, d, b, _ in reqs])
    for r, w, g in zip(reqs, cli.batch(mc, [lib(r) for r in reqs]), got):
        if g is None:
            ctx.violation("web-panic", "the web entry point panics", {"request": r})
            continue
        t = g
        err = t.startswith("Error:")
        verdict(ctx, "web", r, w, not err, t, t[6:], {})
    ctx.add("family: web entry point", len(reqs))


def macro(ctx, mc):
    """One crate of invocations, expanded next to the library's output; one crate of erroneous invocations."""
    d = check.TARGET + "/macrouse"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = check.VERIF + "/native/macrouse"
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(src + "/" + f, d)
    calls = []  # (arguments text, request)
    for i, (n, s, b) in enumerate(macro_requests(ctx)):
        if b in BAD_BLOCKS and b in ("{", "}", "", " "):
            continue  # not a token tree
        if n in ("type", "A B"):
            continue  # not a type name: the library's own output does not parse
        if b is None and s not in DOCS[1:6]:
            b = '{derives:"Debug, serde_derive::Deserialize"}'
        elif b and "derives" not in b and b not in BAD_BLOCKS and s != DOCS[5]:
            b = '{derives:"Debug, serde_derive::Deserialize"%s%s' % ("," if b[1:-1].strip() else "", b[1:])
        q = (RUSTQ, RAW)[i % 2]
        calls.append(("%s, %s%s" % (RUSTQ(n), q(s), ", " + b if b is not None else ""), (n, s, b, None)))
    with cli.scratch() as top:
        for i, s in enumerate(DOCS[1:6] + BAD_DOCS[:3]):
            f = "%s/s%d.json" % (top, i)
            open(f, "wb").write(s.encode("utf8"))
            calls.append(("%s, %s" % (RUSTQ("Root"), RUSTQ(f)), ("Root", s, None, None)))
        calls.append(('"Root", "%s/missing.json"' % top, None))
        for t in ("", '"Root"', '"Root",', 'Root, "{}"', '"Root" "{}"', '"Root", "{}", {}, {}', '"Root", "{}" x', "5, 6", '"Root", 5'):
            calls.append((t, None))
        wants = cli.batch(mc, [lib((r[0], r[1], qualified(r[2]), None)) if r else {"kind": "macro-args", "input": t} for t, r in calls])
        args = cli.batch(mc, [{"kind": "macro-args", "input": t} for t, r in calls])
        good = [i for i, w in enumerate(wants) if w[0]]
        bad = [i for i, w in enumerate(wants) if not w[0]]
        text = "".join("mod m%d {\njson_typegen::json_typegen!(%s);\n}\nmod r%d {\n%s\n}\n" % (i, calls[i][0], i, wants[i][1]) for i in good)
        open(d + "/lib.rs", "w").write(text)
        env = {"RUSTC_BOOTSTRAP": "1", "CARGO_PROFILE_DEV_DEBUG": "0"}
        base = ["--offline", "--quiet", "--manifest-path", d + "/Cargo.toml", "--target-dir", check.TARGET + "/macro"]
        e = dict(os.environ, **env)
        p = subprocess.run(["cargo", "rustc", "--lib"] + base + ["--", "-Zunpretty=expanded"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=800)
        mods = modules(p.stdout.decode("utf8"))
        errs = p.stderr.decode("utf8", "replace")
        if not mods:
            raise check.CheckError("no expansion\n" + errs[-3000:])
        lines = text.split("\n")
        msgs = {}
        for m in re.finditer(r"error: (.*)\n\s*--> [^:]*lib\.rs:(\d+)", errs):
            msgs[int(m.group(2))] = m.group(1)
        for i in good:
            a, b = mods.get("m%d" % i), mods.get("r%d" % i)
            req = calls[i][1] or (calls[i][0], "", "", "")
            if b is None:
                raise check.CheckError("reference module lost: %r\n%s" % (calls[i], errs[-2000:]))
            failed = msgs.get(lines.index("mod m%d {" % i) + 2)
            verdict(ctx, "macro", req, (True, b), a == b or failed is None and a is not None, a or "", failed or "", {"arguments": calls[i][0]})
        # erroneous invocations, one per line
        text = "".join("mod m%d { json_typegen::json_typegen!(%s); }\n" % (i, calls[i][0].replace("\n", " ")) for i in bad)
        open(d + "/lib.rs", "w").write(text)
        p = subprocess.run(["cargo", "check", "--lib", "--message-format=json"] + base, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=800)
        said = {}
        for l in p.stdout.decode("utf8").split("\n"):
            if l.startswith("{"):
                m = json.loads(l)
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                    for s in m["message"]["spans"]:
                        if s["is_primary"]:
                            said.setdefault(s["line_start"], []).append(m["message"]["message"])
        if not said:
            raise check.CheckError("no compile errors\n" + p.stderr.decode("utf8", "replace")[-3000:])
        squeeze = lambda s: re.sub(r"\s+", "", s)
        for line, i in enumerate(bad, 1):
            got = said.get(line, [])
            req = calls[i][1] or (calls[i][0], "", "", "")
            verdict(ctx, "macro", req, wants[i], not got, "", "\n".join(got), {"arguments": calls[i][0]})
            msg = squeeze(args[i][1])
            # the text rustc hands to the macro is spaced differently, and messages may quote it
            head = msg.split("remaininginputwas")[0]
            if got and not any(squeeze(g).startswith(head) for g in got):
                ctx.violation("macro-message", "the compile error does not carry the library's message", {"arguments": calls[i][0], "library": args[i][1], "gave": got})
        ctx.add("family: macro invocations expanded", len(good))
        ctx.add("family: macro invocations that must not compile", len(bad))
        ctx.sample({"macro": calls[good[3]][0]})
        ctx.sample({"macro error": calls[bad[3]][0], "compile error": said.get(4)})
    shutil.rmtree(d, ignore_errors=True)


def modules(text):
    r, name, body = {}, None, []
    for l in text.split("\n"):
        m = re.match(r"mod (\w+) \{(\s*\})?$", l)
        if name is None and m:
            name, body = m.group(1), []
            if m.group(2):
                r[name], name = "", None
        elif name is not None and l == "}":
            r[name], name = "\n".join(x for x in body if x.strip()), None
        elif name is not None:
            body.append(l)
    return r
