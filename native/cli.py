"""Runs the command line tool, built from /repo, under controlled reads and writes."""
import concurrent.futures, json, os, subprocess, tempfile, threading

import check

SHIM = check.TARGET + "/shim.so"
CLI = check.TARGET + "/cli/debug/json_typegen"
ENV = {"PATH": os.environ.get("PATH", ""), "HOME": "/nonexistent", "RUST_BACKTRACE": "0", "NO_PROXY": "*"}


def build():
    check.sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", check.REPO + "/json_typegen_cli/Cargo.toml", "--target-dir", check.TARGET + "/cli"],
             env={"CARGO_PROFILE_DEV_DEBUG": "0"})
    shim()


def shim():
    src = check.VERIF + "/native/shim.c"
    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
        os.makedirs(check.TARGET, exist_ok=True)
        check.sh(["gcc", "-O1", "-shared", "-fPIC", "-o", SHIM + ".new", src])
        os.rename(SHIM + ".new", SHIM)


def acts(a):
    return ",".join("E%d" % -x if x < 0 else str(x) for x in a)


def run(args, stdin=None, plan=None, cwd="/", timeout=20):
    """Returns (exit status, stdout, stderr, log of the planned calls). Errnos in plans are negative."""
    env = dict(ENV)
    log = None
    if plan:
        env["LD_PRELOAD"] = SHIM
        for k, v in plan.items():
            env["VP_" + k.upper()] = acts(v) if isinstance(v, (list, tuple)) else str(v)
        fd, log = tempfile.mkstemp(dir="/dev/shm")
        os.close(fd)
        env["VP_LOG"] = log
    try:
        p = subprocess.run([CLI] + args, input=stdin if stdin is not None else b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                           timeout=timeout, close_fds=False)
        r = (p.returncode, p.stdout, p.stderr.decode("utf8", "replace"))
    except subprocess.TimeoutExpired:
        r = (None, b"", "no answer within %d s" % timeout)
    l = ""
    if log:
        l = open(log).read()
        os.unlink(log)
    return r + (l,)


def each(items, f):
    """f(item) for every item, on several threads; the results in order."""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(f, items))


def lib(name, sample, block=None, mode=None):
    """A request to the library; `kotlin` is documented as an alias."""
    return {"kind": "lib", "name": name, "input": sample, "opts": block or "", "mode": {"kotlin": "kotlin/jackson", None: ""}.get(mode, mode)}


def macro(text):
    return {"kind": "macro", "input": text}


def batch(mc, cases):
    """Results of the library for the cases, in order: (ok, text)."""
    inp = "\n".join(json.dumps(c) for c in cases) + "\n"
    p = subprocess.run([mc, "batch"], input=inp.encode("utf8"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
    out = [json.loads(l) for l in p.stdout.decode("utf8").split("\n") if l]
    if len(out) != len(cases):
        raise check.CheckError("mc batch answered %d of %d requests" % (len(out), len(cases)))
    return [(o["ok"], o["text"]) for o in out]


def compositions(n):
    for m in range(1 << max(n - 1, 0)):
        v, k = [], 1
        for i in range(n - 1):
            if m >> i & 1:
                v.append(k)
                k = 1
            else:
                k += 1
        yield v + ([k] if n else [])


def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") else None
    return tempfile.TemporaryDirectory(prefix="vp-", dir=base)
