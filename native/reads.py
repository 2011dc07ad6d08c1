"""C13, command line part: standard input, files and URLs delivered in every possible way."""
import os, socket, struct, threading

import check
from native import cli

EINTR, EIO = -4, -5
DOCS = [b'{"a":1}', b'[1,"a"]', b'[1.5e1]', b'["\xc3\xa9"]', b'[tru]', b'[1]\n', b' [[]]', b'[1', b'[1]x']
OPTS = ["-O", "shape"]


class Server(threading.Thread):
    """Answers each connection with the bytes planned for its path, then closes or resets it."""

    def __init__(self):
        super().__init__(daemon=True)
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.plans = {}
        self.start()

    def run(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(10)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            b = b""
            while b"\r\n\r\n" not in b:
                x = c.recv(65536)
                if not x:
                    return
                b += x
            path = b.split(b" ", 2)[1].decode()
            parts, reset = self.plans[path]
            for p in parts:
                c.sendall(p)
            if reset:
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        finally:
            c.close()


def expect(ctx, what, got, want, failed, info):
    """got: cli.run result; want: the output for the same bytes or None (error); failed: a read failed."""
    rc, out, err, log = got
    ctx.coverage["transitions"] += 1
    case = dict(info, what=what, status=rc, stdout=out.decode("utf8", "replace"), stderr=err[:400], log=log)
    if rc is None:
        ctx.violation("hang", err, case)
    elif failed or want is None:
        if what == "http chunked-cut" and rc == 0 and info["blank_tail"] and not info["reset"]:
            ctx.violation("chunked-cut-in-trailing-whitespace", "the transfer ended early, within white space at the end of the sample, and types are produced", case)
        elif rc == 0 or out:
            ctx.violation("failed-read-ignored" if failed else "delivery-matters", "types (or success) although %s" % ("a read failed or the transfer ended early" if failed else "the same bytes are rejected otherwise"), case)
        else:
            ctx.coverage["traces_validated_against_impl"] += 1
    elif rc != 0 or out != want:
        ctx.violation("delivery-matters", "the same bytes give another result; expected %r" % want, case)
    else:
        ctx.coverage["traces_validated_against_impl"] += 1


def run(ctx):
    cli.build()
    work = []  # (what, args, stdin, plan, want, failed?, info)
    with cli.scratch() as d:
        outs = {}
        for n, b in enumerate(DOCS):
            f = "%s/d%d.json" % (d, n)
            open(f, "wb").write(b)
            r = cli.run([b.decode("utf8", "replace")] + OPTS)
            outs[b] = r[1] if r[0] == 0 else None
            L = len(b)
            for way in ("stdin", "file"):
                args = (["-"] if way == "stdin" else [f]) + OPTS
                pl = lambda a, **k: dict({"in": "stdin" if way == "stdin" else f, "read": a}, **k)
                info = lambda a: {"sample": b.decode("utf8", "replace"), "source": way, "reads": cli.acts(a)}
                data = b if way == "stdin" else None
                plans = [([], False)]
                for c in cli.compositions(L):
                    plans.append((c, False))
                    if len(c) <= (3 if ctx.thorough else 2) or len(c) == L:
                        for k in range(len(c) + 1):
                            for e in (EIO, -21):
                                plans.append((c[:k] + [e] + c[k:], True))
                            plans.append((c[:k] + [EINTR] + c[k:], False))
                if ctx.thorough or n < 3:
                    for m in range(1 << (L + 1)):
                        a = []
                        for i in range(L + 1):
                            a += ([EINTR] if m >> i & 1 else []) + [1]
                        plans.append((a, False))
                for a, failed in plans:
                    work.append((way, args, data, pl(a), outs[b], failed, info(a)))
                if way == "file":
                    for e in (2, 13, 20, 24):
                        work.append((way, args, data, pl([], open_in=e), outs[b], True, info([])))
                ctx.add("family: %s, splits x failure or interruption at every read" % way, len(plans))
        work.append(("file", [d] + OPTS, None, {"in": d, "read": []}, None, True, {"source": "directory"}))
        work.append(("file", [d + "/none"] + OPTS, None, {"in": d, "read": []}, None, True, {"source": "missing"}))
        for w in work:
            ctx.mc_states.add((w[0], w[6].get("sample"), w[6].get("reads")))
        sink = lambda w: (w, cli.run(w[1], w[2], w[3]))
        for w, got in cli.each(work, sink):
            what, _, _, plan, want, failed, info = w
            log = got[3]
            hit = "R" in log or "O" in log
            if failed and not hit and info.get("reads") and want is not None and got[0] == 0:
                ctx.violation("not-read-to-the-end", "types are produced without reading to the end of the sample", dict(info, log=log))
                continue
            expect(ctx, what, got, want, failed and (hit or not info.get("reads")), info)
        kinds(ctx, outs, d)
        http(ctx, outs)


NAMES = ["s", "s.json", "s.txt", "s.jsonl", "s.gz", "a b.json", "é.json", "名", "s%20s.json", "s?x=1", "s#x", "~s", "$s", "s*", "[s]"[1:], "-s"[1:] + "-", ".s", "..s", "httpx.json", "http:s", "https:s", "null", "1", "true",
         "s.", "S.JSON", "x" * 200, "a\\b", "a'b", 'a"b', "file:s", "s:1", "json_typegen"[:-1], "C:s"]


def kinds(ctx, outs, top):
    """Files of every kind and name: pipes whose writer delivers the sample in every split, links, devices."""
    work = []
    for n, b in enumerate(DOCS):
        for c in cli.compositions(len(b)):
            if len(c) <= (3 if ctx.thorough else 2) or len(c) == len(b):
                work.append(("pipe", b, c))
        work += [("link", b, None), ("hard link", b, None), ("/dev/stdin", b, None)]
    for b in DOCS[:2] + DOCS[7:8]:
        for name in NAMES:
            for rel in ("", "./", "sub/../", None):
                work.append(("name", b, (name, rel)))
    for big in (65535, 65536, 65537, 200000):
        work.append(("pipe", b'["' + b"x" * big + b'"]', [big + 4]))
        work.append(("pipe", b'["' + b"x" * big + b'"', [big + 3]))
    ids = __import__("itertools").count()

    def one(w):
        what, b, x = w
        d = "%s/k%d" % (top, next(ids))
        os.makedirs(d + "/sub")
        f, stdin = d + "/s", None
        if what == "pipe":
            os.mkfifo(f)
            done = []

            def write():
                i = 0
                try:
                    with open(f, "wb", buffering=0) as h:
                        for k in x:
                            h.write(b[i:i + k])
                            i += k
                            done.append(k)
                            if len(x) > 1:
                                threading.Event().wait(0.0005)
                except BrokenPipeError:
                    pass

            t = threading.Thread(target=write, daemon=True)
            t.start()
        elif what == "/dev/stdin":
            f, stdin = what, b
        elif what == "name":
            f = d + "/" + x[0]
            open(f, "wb").write(b)
            f = f if x[1] is None else x[1] + x[0]
        else:
            open(d + "/sub/real", "wb").write(b)
            (os.symlink if what == "link" else os.link)(d + "/sub/real", f)
        got = cli.run([f] + OPTS, stdin, cwd=d)
        if what == "pipe":
            if t.is_alive():  # never opened: let the writer go
                try:
                    os.close(os.open(f, os.O_RDONLY | os.O_NONBLOCK))
                except OSError:
                    pass
            t.join(5)
        return got

    for w, got in zip(work, cli.each(work, one)):
        what, b, x = w
        want = outs[b] if b in outs else (b'[\n  "string"\n]\n' if b.endswith(b"]") else None)
        expect(ctx, what, got, want, False, {"sample": b[:80].decode("utf8", "replace"), "detail": repr(x)})
        ctx.mc_states.add(("kind", what, b[:80], repr(x)))
    ctx.add("family: pipes (splits by the writer), links and names of files", len(work))
    # numbers the kernel offers as files of no size
    for f in ("/proc/sys/kernel/pid_max", "/proc/sys/fs/nr_open", "/proc/sys/kernel/ngroups_max"):
        if os.path.exists(f) and open(f).read().strip().isdigit():
            expect(ctx, "/proc", cli.run([f] + OPTS), b'"integer"\n', False, {"file": f})


def ws_tail(full, cut, chunks, b):
    """Is the cut inside the data of a chunk, with only white space of the sample behind it?"""
    i = full.index(b"\r\n\r\n") + 4
    seen = 0
    for n in chunks:
        i += len(b"%x\r\n" % n)
        if i <= cut < i + n:
            return not b[seen + cut - i:].strip()
        i += n + 2
        seen += n
    return False


TYPES = [b"Content-Type: application/json\r\n", b"", b"Content-Type: text/html\r\n", b"Content-Type: text/plain; charset=iso-8859-1\r\n", b"Content-Type: application/octet-stream\r\n",
         b"Content-Type: application/problem+json; charset=utf-8\r\n", b"Content-Encoding: identity\r\nContent-Type: application/json\r\n"]


def http(ctx, outs):
    srv = Server()
    work = []

    def add(what, parts, reset, want, failed, info):
        path = "/%d.json" % len(srv.plans)
        srv.plans[path] = (parts, reset)
        work.append((what, "http://127.0.0.1:%d%s" % (srv.port, path), want, failed, info))

    H = b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n"
    for b in DOCS[:7]:
        want, s = outs[b], b.decode("utf8", "replace")
        L = len(b)
        cl = H + b"Content-Length: %d\r\n\r\n" % L
        for c in cli.compositions(L):
            segs, i = [], 0
            for n in c:
                segs.append(b[i:i + n])
                i += n
            if len(c) <= 3 or len(c) == L or ctx.thorough:
                add("content-length", [cl] + segs, False, want, False, {"sample": s, "segments": c})
            body = b"".join(b"%x\r\n%s\r\n" % (len(x), x) for x in segs)
            full = H + b"Transfer-Encoding: chunked\r\n\r\n" + body + b"0\r\n\r\n"
            add("chunked", [full], False, want, False, {"sample": s, "chunks": c})
            if len(c) <= 2 or len(c) == L:
                add("chunked", [bytes([x]) for x in full], False, want, False, {"sample": s, "chunks": c, "bytewise": True})
                # cut anywhere before the terminating chunk
                for cut in range(0, len(full) - 5 + 1):
                    if cut < len(H) and cut % 7:
                        continue
                    for reset in (False, True):
                        add("chunked-cut", [full[:cut]], reset, want, True, {"sample": s, "chunks": c, "cut": cut, "reset": reset,
                                                                            "blank_tail": ws_tail(full, cut, c, b)})
        for cut in range(L):
            for reset in (False, True):
                add("cut", [cl + b[:cut]], reset, want, True, {"sample": s, "cut": cut, "reset": reset})
        for more in (1, 2, 100):
            add("short", [H + b"Content-Length: %d\r\n\r\n" % (L + more) + b], False, want, True, {"sample": s, "announced": L + more})
        add("close", [H + b"Connection: close\r\n\r\n" + b], False, want, False, {"sample": s, "framing": "close"})
        # an answer that says it is an error is no sample, whatever it is made of
        codes = range(400, 600) if b == DOCS[0] or ctx.thorough else (400, 401, 403, 404, 405, 410, 418, 422, 429, 451, 499, 500, 501, 502, 503, 504, 511, 599)
        for code in codes:
            for ctype in TYPES if code in (400, 404, 422, 500, 503) or ctx.thorough else (TYPES[0], TYPES[1]):
                add("status", [b"HTTP/1.1 %d X\r\n%sContent-Length: %d\r\n\r\n" % (code, ctype, L) + b], False, want, True, {"sample": s, "status": code, "type": ctype.decode()})
        for code in (200, 201, 202, 203):
            for ctype in TYPES:
                add("type", [b"HTTP/1.1 %d X\r\n%sContent-Length: %d\r\n\r\n" % (code, ctype, L) + b], False, want, False, {"sample": s, "status": code, "type": ctype.decode()})
        for codes in [(a,) for a in (301, 302, 303, 307, 308)] + [(a, c) for a in (301, 302, 303, 307, 308) for c in (301, 302, 303, 307, 308)] + [(302,) * 4]:
            for good in (True, False):
                if good:
                    add("target", [cl + b], False, want, False, {"sample": s})
                else:
                    add("target", [b"HTTP/1.1 404 X\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % L + b], False, want, True, {"sample": s, "status": 404})
                for n, code in enumerate(codes):
                    t = "/%d.json" % (len(srv.plans) - 1)
                    if n % 2:
                        t = "http://127.0.0.1:%d%s" % (srv.port, t)
                    # (the body of the redirecting answer is a sample as well)
                    add("redirect", [b"HTTP/1.1 %d X\r\nLocation: %s\r\nContent-Type: application/json\r\nContent-Length: 2\r\n\r\n[]" % (code, t.encode())], False, want, not good, {"sample": s, "redirects": codes[:n + 1], "to": "sample" if good else "404"})
    add("empty", [H + b"Content-Length: 0\r\n\r\n"], False, None, True, {"body": ""})
    add("nothing", [b""], False, None, True, {"response": ""})
    add("nothing", [b""], True, None, True, {"response": "reset"})
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    dead = s.getsockname()[1]
    work.append(("refused", "http://127.0.0.1:%d/" % dead, None, True, {"connection": "refused"}))
    for w, got in cli.each(work, lambda w: (w, cli.run([w[1]] + OPTS))):
        what, url, want, failed, info = w
        expect(ctx, "http " + what, got, want, failed, info)
        ctx.mc_states.add(("http", what, repr(sorted(info.items(), key=str))))
    s.close()
    srv.s.close()
    ctx.add("family: HTTP responses (framing x splits x cut or reset at every byte, statuses, redirects)", len(work))
    ctx.sample("HTTP chunked 3+4 bytes cut after byte 2 of the second chunk, connection reset")
