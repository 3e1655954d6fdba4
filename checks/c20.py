"""C20: a wrapper without its backend answers with one well-formed error frame."""
import concurrent.futures, json, os, random, struct, subprocess
from shell import *

ENVS = [{}, {b"LC_ALL": b"C"}, {b"LC_ALL": b"C.UTF-8"}, {b"LC_ALL": b"nonsense"}, {b"LANG": b"en_US.UTF-8"}, {b"IFS": b"x/= -"}, {b"POSIXLY_CORRECT": b"1"}, {b"err": b"x", b"len": b"9"}, {b"BURL_BACKEND": b"/bin/echo"}]
PRINT = [chr(c) for c in range(32, 127) if chr(c) != "/"]
WIDE = list("\u00e9\u0436\u0416\u65e5\u672c\u20ac\u00a1\u00ff\u0100\u07ff\u0800\uffe5\U0001f600\U00010348\u0301\u05d0")
SPECIAL = ["'", '"', "\\", "%", "%s", "\\x41", "\\n", "\\0", "\\\\", '"}', "$HOME", "`x`", "$(x)", "-", " ", "  ", "#", "!", "\\c", "&", "\\u0041", "{", "%%", "\\t", "'\\''", "~", "*", "?"]


def part(r, n):
    """A name of n bytes."""
    s = b""
    mode = r.choice(["x", "print", "wide", "special", "mix"])
    while len(s) < n:
        k = mode if mode != "mix" else r.choice(["x", "print", "wide", "special"])
        c = r.choice({"x": ["x"], "print": PRINT, "wide": WIDE, "special": SPECIAL}[k]).encode()
        if len(s) + len(c) > n:
            c = b"x" * (n - len(s))
        s += c
    if s.strip(b".") == b"":
        s = b"y" * n
    return s


def deep(base, r, total):
    """Directories and a file name so that the whole path has the given number of bytes."""
    left = total - len(base) - 1
    parts = []
    while left > 250:
        n = r.choice([100, 200, 240]) if left > 500 else left // 2
        parts.append(part(r, n))
        left -= n + 1
    parts.append(part(r, left))
    return parts


def one(ck, k, totals):
    r = random.Random("c20/%d/%d" % (ck.seed, k))
    res = []
    base = os.fsencode(ck.dir("d%d" % k))
    os.chmod(base, 0o755)
    for j, total in enumerate(totals):
        d = os.path.join(base, b"%d" % j)
        os.mkdir(d)
        exe = None
        if total > len(d) + 3:
            parts = deep(d, r, total)
        else:
            parts = [part(r, r.choice([1, 2, 5]))]
        exe = os.path.join(d, *parts)
        cur = os.open(d, os.O_RDONLY)
        for p in parts[:-1]:
            os.mkdir(p, dir_fd=cur)
            nxt = os.open(p, os.O_RDONLY, dir_fd=cur)
            os.close(cur)
            cur = nxt
        os.link(os.fsencode(ck.build("burl_backend")), parts[-1], dst_dir_fd=cur)
        w = os.path.join(d, b"w")
        # A path too long for exec is used relatively to its directory.
        p = vlib.run([b"./" + parts[-1], b"-wrapper", w, b"-emacsarg", b"x"], cwd="/proc/self/fd/%d" % cur, pass_fds=[cur], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if p.returncode != 0 or not os.path.exists(w):
            os.close(cur)
            if len(exe) < 4000:
                ck.violation("wrapper is not created", dict(exe=repr(exe), length=len(exe), stderr=repr(p.stderr[-300:])))
            continue
        how = r.choice(["missing", "missing", "mode", "parent", "user", "dangling", "notdir"])
        user = None
        os.unlink(parts[-1], dir_fd=cur)
        if how in ("mode", "user"):
            fd = os.open(parts[-1], os.O_CREAT | os.O_WRONLY, 0o644 if how == "mode" else 0o700, dir_fd=cur)
            os.write(fd, b"#!/bin/sh\necho started\n")
            os.fchmod(fd, 0o644 if how == "mode" else 0o700)
            os.close(fd)
            if how == "user":
                user = 65534
        elif how == "dangling":
            os.symlink(b"nothing", parts[-1], dir_fd=cur)
        elif how in ("parent", "notdir") and len(parts) > 1 and len(exe) < 4000:
            os.rename(os.path.dirname(exe), os.path.join(d, b"gone"))
            if how == "notdir":
                open(os.path.dirname(exe), "wb").close()
        os.close(cur)
        for _ in range(2):
            env = dict(os.environb)
            e = r.choice(ENVS)
            env.update(e)
            kw = dict(user=user, group=user, extra_groups=[]) if user else {}
            q = vlib.run([w] + r.choice([[], [b"/manifest.json", b"id@x"]]), cwd=r.choice(["/", d]), env=env, input=b"" if r.random() < 0.5 else struct.pack("=I", 2) + b"{}",
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, **kw)
            res.append(case(exe, q.stdout, dict(how=how, exe=repr(exe)[:300], length=len(exe), env=repr(e), out=repr(q.stdout[:200]), stderr=repr(q.stderr[-200:]))))
    return res


def case(exe, out, what):
    c = dict(path=[ord(x) for x in exe.decode("utf-8")], text=[], head=0, total=len(out), json=False, error=False, what=what)
    if len(out) >= 4:
        n = struct.unpack("=I", out[:4])[0]
        c["head"] = min(n, 2**31 - 1)
        try:
            o = json.loads(out[4:].decode("utf-8"))
            c["json"] = isinstance(o, dict)
            c["error"] = c["json"] and isinstance(o.get("error"), str)
            if c["error"]:
                c["text"] = [ord(x) for x in o["error"]]
        except ValueError:
            pass
    return c


def check(ck):
    ck.design("Fallback", "Fallback.cfg")
    ck.build("burl_backend")
    r = ck.rng
    base = len(ck.scratch) + 8
    # Lengths of the path around which octets of the frame length change, and the longest.
    totals = list(range(base, base + 300))
    for t in range(256, 4097, 256):
        totals += [t - d for d in (range(40, 80) if ck.thorough else r.sample(range(40, 80), 5))]
    totals += [4094, 4095, 4090, 4000, 3000, 2000] + [r.randrange(100, 4090) for _ in range(ck.n(60, 2000))]
    totals += [0] * ck.n(40, 400)
    totals = [t for t in totals if t <= 4095]
    r.shuffle(totals)
    lots = [totals[a::16] for a in range(16)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cases = [c for cs in ex.map(lambda a: one(ck, *a), enumerate(lots)) for c in cs]
    ck.details["wrapper_runs"] = len(cases)
    ck.details["longest_path"] = max(c["what"]["length"] for c in cases) if cases else 0
    info = [c.pop("what") for c in cases]
    if cases:
        ck.sample(info[0])
    for c, why in ck.judge("FallbackJudge", cases, shards=6):
        ck.violation("wrapper without backend: %s" % why["what"], dict(info[c["id"] - 1]))
