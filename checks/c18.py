"""C18: an interrupted or failing install leaves the old or the new file."""
import concurrent.futures, os, random, stat, subprocess, threading, time
from install import *
import vlib

ERRORS = {"create": [13, 28, 30, 24], "chmod": [1, 5, 30], "write": [28, 5, 122], "rename": [13, 18, 16, 5, 28], "sync": [5, 28], "open": [5, 13, 24], "read": [5], "chown": [1]}


def previous(s, r):
    """Previous states worth trying, by first target."""
    w = s.content(s.targets[0][1])
    return [(None, 0), (b"#!/bin/sh\nother\n", 0o755), (b"", 0o644), (w, 0o644), (w, 0o755), (w[:-1], 0o700), (w, 0o055), (b"#!/bin/sh\n" + b"y" * 9000, 0o600), (("hard", b"#!/bin/sh\nq"), 0o755), (("symlink", b"#!/bin/sh\nq"), 0o755)]


def one(ck, k, kind, pad):
    r = random.Random("c18/%d/%d" % (ck.seed, k))
    s = Setup(ck, "n%d" % k, kind, pad)
    out = []
    for how, mode in previous(s, r):
        for force in (False, True):
            prev = {s.targets[0][1]: (how, mode)}
            for t in s.targets[1:]:
                o = r.choice([None, b"#!/bin/sh\nfoo\n", s.content(t[1])])
                if not force and o and o != s.content(t[1]):
                    o = None
                prev[t[1]] = (o, r.choice([0o644, 0o600, 0o044]))

            def go(spec, fault):
                c, g = s.run(prev, force, spec, fault, umask=r.choice([0, 0o22, 0o77]))
                out.append(c)
                return g
            g = go("-", "")
            for o in g.ops:
                no, cls = o["no"], o["cls"]
                if cls not in ("read", "open") or r.random() < 0.3:
                    go("%d:kill" % no, "kill")
                errs = ERRORS.get(cls, [])
                for e in errs if ck.thorough or cls in ("write", "chmod", "rename") else errs[:2]:
                    go("%d:e%d" % (no, e), cls)
                if cls == "write":
                    for nxt in ("%d:e28" % (no + 1), "%d:kill" % (no + 1)):
                        go("%d:short,%s" % (no, nxt), "kill" if "kill" in nxt else cls)
            # All operations of a class fail, other ways to reach the goal are tried perhaps.
            for cls in ("create", "chmod", "write", "rename", "sync"):
                for e in ERRORS[cls][:2] if not ck.thorough else ERRORS[cls]:
                    g = go("%s=e%d" % (cls, e), cls)
                    if len(g.ops) > 12 and cls == "create":
                        break
            # Two failures.
            ops = [o for o in s.run(prev, force)[1].ops if o["cls"] in ("create", "chmod", "write", "rename")]
            for a in ops:
                e = r.choice(ERRORS[a["cls"]])
                g = go("%d:e%d" % (a["no"], e), a["cls"])
                for b in g.ops:
                    if b["no"] > a["no"] and b["cls"] in ERRORS and b["cls"] not in ("read", "open"):
                        go("%d:e%d,%d:e%d" % (a["no"], e, b["no"], r.choice(ERRORS[b["cls"]])), b["cls"])
                    elif b["no"] > a["no"]:
                        go("%d:e%d,%d:kill" % (a["no"], e, b["no"]), "kill")
    if k == 0:
        ck.sample(out[3]["what"])
    return out


def race(ck, k):
    """Several installations at once, the target is watched all the time."""
    r = random.Random("c18r/%d/%d" % (ck.seed, k))
    d = ck.dir("race%d" % k)
    target = os.path.join(d, "w")
    exe = ck.build("burl_backend")
    cmds = [[exe, "-wrapper", target, "-force", "-emacsarg", "x" * r.choice([1, 3000, 100000]) + str(n)] for n in range(6)]
    wanted = set()
    for c in cmds:
        p = vlib.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise Refused(c, p.stderr)
        with open(target, "rb") as f:
            wanted.add(f.read())
    old = b"#!/bin/sh\nold\n"
    tmp = os.path.join(d, "..", "race-old%d" % k)
    seen, stop = [], threading.Event()

    def watch():
        while not stop.is_set():
            try:
                with open(target, "rb") as f:
                    st = os.fstat(f.fileno())
                    data = f.read()
            except FileNotFoundError:
                seen.append(dict(ABSENT))
                continue
            seen.append(dict(k="file", c="new" if data in wanted else "old" if data == old else "part", m=st.st_mode & 0o777, id=1 if data == old else 0))
    cases = []
    for rnd in range(ck.n(3, 20)):
        with open(tmp, "wb") as f:
            f.write(old)
        os.chmod(tmp, 0o755)
        os.rename(tmp, target)
        seen.clear()
        stop.clear()
        t = threading.Thread(target=watch)
        t.start()
        ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for c in cmds]
        rcs = [p.communicate() and p.returncode for p in ps]
        stop.set()
        t.join()
        uniq = []
        for x in seen:
            if x not in uniq:
                uniq.append(x)
        with open(target, "rb") as f:
            st = os.fstat(f.fileno())
            end = dict(k="file", c="new" if f.read() in wanted else "part", m=st.st_mode & 0o777, id=0)
        cases.append(dict(files=[dict(old=dict(k="file", c="old", m=0o755, id=1), w=0o755)], force=True, moments=[[x] for x in uniq], end=[end],
                          ok=all(x == 0 for x in rcs), killed=False, crash=any(x < 0 for x in rcs), fault="", tmps=len(os.listdir(d)) - 1, readable=True,
                          what=dict(race=k, statuses=rcs)))
    return cases


def check(ck):
    ck.design("Install", "Install.cfg" if not ck.thorough else "InstallBig.cfg")
    ck.build("burl_backend")
    ck.native("fsguard")
    sc = [("wrapper", 0), ("firefox", 0), ("chrome", 0), ("both", 0), ("all", 0), ("wrapper", 4096), ("wrapper", 70000)]
    if ck.thorough:
        sc += [("both", 5000), ("wrapper", 131000), ("all", 4095), ("wrapper", 8193), ("both", 0), ("firefox", 0)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        try:
            cases = [c for cs in ex.map(lambda a: one(ck, a[0], *a[1]), enumerate(sc)) for c in cs]
            cases += [c for cs in ex.map(lambda k: race(ck, k), range(ck.n(2, 8))) for c in cs]
        except Refused as e:
            ck.violation("a file that does not exist is not created", dict(argv=e.args[0], stderr=e.args[1]))
            return
    ck.details["interrupted_or_failing_runs"] = len(cases)
    verdict(ck, cases, True)
