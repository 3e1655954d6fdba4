"""C17: installing never damages existing files unless forced."""
import concurrent.futures, random
from install import *

MODES = [0o755, 0o644, 0o600, 0o400, 0o500, 0o555, 0o711, 0o111, 0, 0o777, 0o200, 0o300, 0o100, 0o750, 0o444, 0o055, 0o666]


def scenarios(ck):
    """(kind, size of the wrapper) with lists of previous states."""
    res = [("wrapper", 0), ("firefox", 0), ("chrome", 0), ("both", 0), ("all", 0)]
    res += [("wrapper", n) for n in (4094, 4095, 4096, 4097, 8191, 8192, 12289, 70000)]
    res += [("both", 4096)]
    if ck.thorough:
        res += [("wrapper", n) for n in range(4080, 4112, 3)] + [("wrapper", n) for n in (16384, 32768, 65535, 65536, 131072)] + [("all", 4095), ("all", 8192)]
    return res


def one(ck, k, kind, pad):
    r = random.Random("c17/%d/%d" % (ck.seed, k))
    s = Setup(ck, "n%d" % k, kind, pad)
    out = []

    def go(prev, force, **kw):
        out.append(s.run(prev, force, **kw)[0])
    first = s.targets[0][1]
    for force in (False, True):
        umask = r.choice([0, 0o22, 0o77, 0o777])
        go({}, force, umask=umask)
        for t in s.targets:
            f = t[1]
            w = s.content(f)
            for name, data in sorted(olds(w, r).items()):
                prev = {f: (data, r.choice(MODES))}
                if len(s.targets) > 1 and r.random() < 0.6:
                    for o in s.targets:
                        if o[1] != f:
                            prev[o[1]] = (r.choice([s.content(o[1]), s.content(o[1]), b"#!/bin/sh\nfoo\n", b""]), r.choice(MODES))
                go(prev, force, umask=r.choice([0, 0o22, 0o27, 0o77, 0o777]))
            for m in MODES if not ck.thorough else range(0o1000):
                go({f: (w, m)}, force)
            if not force:
                go({f: ("socket", 0o644)}, force)
                if kind == "wrapper":
                    go({f: ("dir", 0o755)}, force)
            go({f: (("symlink", w), 0o600)}, force)
            go({f: (("link", f), 0)}, force)
            if not force:
                go({f: (("link", "/dev/null"), 0)}, force)
            for data in (w, b"#!/bin/sh\nother", b""):
                go({f: (("locked", data), r.choice([0, 0o600, 0o644]))}, force, user=65534)
            if not force:
                go({f: (("symlink", b"#!/bin/sh\nother"), 0o755)}, force)
            go({f: (("hard", w), 0o644)}, force)
            go({f: (("hard", b"#!/bin/sh\nother"), 0o755)}, force)
        # An unprivileged user with a file or directory it may not touch.
        for prev, dm, rd in (({first: (b"#!/bin/sh\nx", 0o200)}, 0o755, False), ({first: (b"#!/bin/sh\nx", 0)}, 0o755, False), ({first: (b"#!/bin/sh\nx", 0o600)}, 0o755, True), ({first: (b"#!/bin/sh\nx", 0o400)}, 0o755, True),
                             ({}, 0o755, True), ({first: (s.content(first), 0o400)}, 0o755, True), ({first: (s.content(first), 0o300)}, 0o755, False)):
            go(prev, force, user=65534, readable=rd, dmode=dm)
        # Nothing can be created in the directory.
        go({first: (b"#!/bin/sh\nx", 0o755)}, force, user=65534, dmode=0o555, fault="dir")
        go({}, force, user=65534, dmode=0o555, fault="dir")
    if k == 0:
        ck.sample(out[5]["what"])
    return out


def check(ck):
    ck.design("Install", "Install.cfg" if not ck.thorough else "InstallBig.cfg")
    ck.build("burl_backend")
    ck.native("fsguard")
    sc = scenarios(ck)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        try:
            cases = [c for cs in ex.map(lambda a: one(ck, a[0], *a[1]), enumerate(sc)) for c in cs]
        except Refused as e:
            ck.violation("a file that does not exist is not created", dict(argv=e.args[0], stderr=e.args[1]))
            return
    ck.details["installations"] = len(cases)
    verdict(ck, cases)
