"""C28: the command line tools give the backend's answers."""
import concurrent.futures, random
import vlib
from client import Peer, frame as rawframe, OKS, ERRS
from linkset import *
from notes import *
import c06, c11

LIMIT = 8
STR = ["https://a.example/x", "x", "", "a b", "--", "-x", "\u0434\u20ac", "\U0001f600", "<&>\"'\\", "org-protocol://capture?x=%20", "https://a.example/\u2028", "\n", "-file", "--line=3", "'", "$(id)", "*"]
SMALL = [x for x in OKS if not (isinstance(x, int) and abs(x) > 1 << 50) and x != 1e300]


def run(argv, data=b"", timeout=20):
    p = vlib.run(argv, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout, p.stderr, p.returncode == -999


def fields(op, req, arg):
    """What is in a request, uniformly; values that belong to no known field are listed."""
    p = dict(variants=[], prefix=[], file="", line=0, url="", format="", version="")
    other = []
    ps = req.get("params")
    q = ps[0] if isinstance(ps, list) and len(ps) == 1 else None
    if set(req) != {"id", "method", "params"} or q is None:
        other.append("request")
    same = False
    if op == "hello":
        same = q == arg
    elif not isinstance(q, dict):
        other.append("params")
    else:
        def take(d, key, field, typ):
            v = d.pop(key, None)
            if isinstance(v, typ) and not isinstance(v, bool):
                p[field] = v
            elif v is not None:
                other.append(key)
        q = dict(q)
        take(q, "variants", "variants", list)
        take(q, "prefix", "prefix", list)
        take(q, "file", "file", str)
        take(q, "lineNo", "line", int)
        take(q, "format", "format", str)
        take(q, "version", "version", str)
        data = q.pop("data", None)
        if isinstance(data, dict):
            data = dict(data)
            take(data, "url", "url", str)
            other += [k for k, v in data.items() if v not in (None, "")]
        other += [k for k, v in q.items() if v not in (None, "", {}, [])]
    return dict(method=str(req.get("method")), p=p, other=other, same=same)


def client_case(ck, k):
    r = random.Random("c28/%d/%d" % (ck.seed, k))
    op = r.choice(["hello", "capture", "mentions", "visit", "set"])
    good, file, line, arg = True, "", 0, None
    if op in ("mentions", "set"):
        args = [r.choice(STR) for _ in range(r.choice([0, 1, 1, 2, 5, 20, 70]))]
        cmd = args
    elif op == "capture":
        args = [r.choice(STR) for _ in range(r.choice([1, 1, 1, 1, 0, 2]))]
        cmd, good = args, len(args) == 1
    elif op == "visit":
        args = []
        file, line = r.choice(STR), r.choice([0, 1, 7, 100000, -1])
        parts = [r.choice([["--file", file], ["-file", file], ["--file=" + file]])]
        if r.random() < 0.7:
            parts.append(r.choice([["--line", str(line)], ["-line=%d" % line]]))
        else:
            line = 0
        r.shuffle(parts)
        cmd = sum(parts, [])
        if r.random() < 0.15:
            cmd, good = cmd + ["--nosuch"] if r.random() < 0.5 else ["--line", "x"] + cmd, False
    else:
        args = []
        arg = {"version": "0.2", "formats": [{"format": "org", "version": "0.2"}, {"format": "object", "version": "0.2"},
               {"format": "org-protocol", "version": "0.2", "options": {"format": "org", "version": "0.2", "clipboardForBody": False}}]}
        cmd = []
        x = r.random()
        if x < 0.5:
            arg = r.choice([{"version": "0.1"}, {"formats": []}, [], [1, "x"], "text", 5, {"a": {"b": [None, True]}}])
            cmd = [json.dumps(arg)]
        elif x < 0.6:
            cmd, good = r.choice([["{"], ["text"], [""], ["{}", "{}"]]), False
    if r.random() < 0.06:
        op2, good = r.choice(["Hello", "", "search", "linkremark.hello", "help", "--help"]), False
    else:
        op2 = op
    d = ck.dir("cl/%d" % k)
    sock = os.path.join(d, "s")
    peer = Peer(sock)
    extra = [r.choice(["a", "-log", "", "x y", "-h", "\u0434"]) for _ in range(r.randrange(3))]
    reply = r.choice(["ok", "ok", "ok", "err", "break"])
    status = r.choice([0, 0, 0, 3])
    val = r.choice(SMALL)
    st = dict(reqs=[], argv=None)
    import threading

    def serve():
        try:
            peer.accept(15)
        except OSError:
            return
        buf = b""
        for kind, x in peer.messages():
            if kind == b"A":
                st["argv"] = json.loads(x)
            elif kind == b"E":
                peer.tell(b"X", b"%d" % status)
            elif kind == b"D":
                buf += x
                while len(buf) >= 4 and len(buf) >= 4 + struct.unpack("=I", buf[:4])[0]:
                    n = struct.unpack("=I", buf[:4])[0]
                    body, buf = buf[4:4 + n], buf[4 + n:]
                    try:
                        req = json.loads(body)
                        assert isinstance(req, dict)
                    except (ValueError, AssertionError):
                        req = {}
                    st["reqs"].append(req)
                    i = req.get("id", 0)
                    if reply == "ok":
                        peer.tell(b"W", rawframe(json.dumps({"id": i, "result": val, "error": None}).encode()))
                    elif reply == "err":
                        peer.tell(b"W", rawframe(json.dumps({"id": i, "result": None, "error": r.choice(ERRS)}).encode()))
                    else:
                        b = r.choice([b"", b"C", rawframe(b"[]"), rawframe(b"{"), b"\xff\xff\xff\xff"])
                        if b == b"C":
                            peer.tell(b"C")
                        elif b:
                            peer.tell(b"W", b)
                        else:
                            peer.tell(b"X", b"%d" % status)
    t = threading.Thread(target=serve, daemon=True)
    t.start()
    argv = [ck.build("burl_client"), ck.harness("peer"), sock] + extra + ["--", op2] + cmd
    starts = True
    if k % 25 == 0:
        argv[1], good, starts = os.path.join(d, "missing"), False, False
    elif k % 25 == 1:
        argv, good, starts = r.choice([argv[:1], argv[:3], argv[:4 + len(extra)], argv[:3] + ["--"]]), False, False
    code, out, err, hang = run(argv)
    if starts and not (good or st["argv"]):
        time.sleep(0.05)
    peer.close()
    try:
        shown = "none" if not out else "result" if json.dumps(json.loads(out), sort_keys=True) == json.dumps(val, sort_keys=True) else "other"
    except ValueError:
        shown = "other"
    n = len(st["reqs"])
    if good and st["argv"] != [ck.harness("peer"), sock] + extra:
        n = 99
    c = dict(tool="client", op=op if op2 in ("hello", "capture", "mentions", "visit", "set") else "hello", args=args, good=good, file=file, line=line, n=n, reply=reply, shown=shown,
             code=code if 0 <= code < 256 else 255, status=status, hang=hang,
             got=fields(op, st["reqs"][0], arg) if st["reqs"] else dict(method="", p={}, other=[], same=False))
    c["_"] = dict(argv=argv[1:], requests=st["reqs"][:2], reply=reply, value=val if reply == "ok" else None, stdout=out[:200].decode(errors="replace"), stderr=err[-200:].decode(errors="replace"), code=code)
    return c


def tree(out):
    if not out.strip():
        return dict(ERROR, t="none")
    try:
        return norm(json.loads(out))
    except ValueError:
        return dict(ERROR, text=out[:100].decode(errors="replace"))


def mention_cases(ck, k):
    """The same documents and queries for both tools."""
    r = random.Random("c28m/%d/%d" % (ck.seed, k))
    d = ck.dir("m%d" % k)
    docs, urls = [], []
    for j in range(r.choice([1, 1, 2, 3])):
        txt = r.random() < 0.3
        ps = r.sample(c06.pool(r, txt), r.choice([1, 2, 3, 10]))
        if urls and r.random() < 0.6:
            # common links
            ps = [u for u in urls if not txt or c06.plain(u)][:3] + ps[:3]
        urls += ps
        docs.append(rand_doc(r, os.path.join(d, "n%d.%s" % (j, "txt" if txt else "org")), ps, n=r.choice([1, 4, 10, 25, 60]), txt=txt))
    stdin = b""
    piped = len(docs) == 1 and docs[0].txt and r.random() < 0.6
    models = [x.model() for x in docs]
    if piped:
        stdin = open(docs[0].path, "rb").read()
        models[0]["path"] = "-"
    mcases, ccases = [], []
    haslinks = any(l["links"] for x in docs for l in x.lines)
    for q in c06.queries(r, urls, ck.n(5, 8)):
        u = next((x for x in q if x), None)
        if u is None or u.startswith("-"):
            continue
        if piped:
            argv = [ck.build("burl_tool"), u]
        else:
            opts = [x for x in docs if r.random() < 0.5]
            pos = [x for x in docs if x not in opts]
            docs2 = opts + pos
            models = [x.model() for x in docs2]
            argv = [ck.build("burl_tool")] + fargs(opts) + [u] + [x.path for x in pos]
        code, out, err, hang = run(argv, stdin)
        ccases.append(dict(tool="query", good=True, code=code if 0 <= code < 256 else 255, hang=hang, _=dict(argv=argv[1:], stderr=err[-200:].decode(errors="replace"))))
        mcases.append(dict(prop="C28", tool=True, files=models, q=[u], limit=LIMIT, out=tree(out), argv=argv[1:], ref=dict(ERROR, t="none")))
        if haslinks and not piped:
            res, rc, extra = calls([ck.build("burl_backend"), "-log", ""] + fargs(docs2), [("burl.urlMentions", [{"variants": [u]}])])
            mcases[-1]["ref"] = mention(res[0])
        if haslinks and r.random() < 0.5 and not piped:
            argv = [ck.build("burl_client"), ck.build("burl_backend"), "-log", ""] + fargs(docs2) + ["--", "mentions"] + q
            code, out, err, hang = run(argv)
            ccases.append(dict(tool="query", good=True, code=code if 0 <= code < 256 else 255, hang=hang, _=dict(argv=argv[1:], stderr=err[-200:].decode(errors="replace"))))
            mcases.append(dict(prop="C28", tool=False, files=models, q=q, limit=LIMIT, out=tree(out), argv=argv[1:], ref=dict(ERROR, t="none")))
    return mcases, ccases


def set_cases(ck, k):
    r = random.Random("c28s/%d/%d" % (ck.seed, k))
    d = ck.dir("t%d" % k)
    kinds = [r.choice(["org", "org", "txt"]) for _ in range(r.choice([1, 2, 3]))]
    docs, paths = [], []
    for j, kind in enumerate(kinds):
        docs.append([txt_line(r).replace("\n", " ").replace("\r", " ") if kind == "txt" and r.random() < 0.5 else org_line(r, c11.SCH) for _ in range(r.choice([0, 1, 4, 12]))])
        paths.append(os.path.join(d, "n%d.%s" % (j, kind)))
        with open(paths[-1], "wb") as f:
            f.write(("\n".join(docs[-1]) + "\n").encode())
    cases, ccases = [], []
    for n in range(4):
        q = [p for p in c11.prefixes(r) if "\n" not in p and not p.startswith("-")]
        pre = sum([["-set", p] for p in q], [])
        opts = r.randrange(len(paths) + 1)
        fa = sum([["-" + kinds[j], paths[j]] for j in range(opts)], [])
        if n < 3:
            argv = [ck.build("burl_tool")] + (fa + pre if r.random() < 0.5 else pre + fa) + paths[opts:]
            code, out, err, hang = run(argv)
            urls = out.decode(errors="replace").split("\n")[:-1] if out else []
        else:
            argv = [ck.build("burl_client"), ck.build("burl_backend"), "-log", ""] + fa + paths[opts:] + ["--", "set"] + q
            code, out, err, hang = run(argv)
            try:
                urls = json.loads(out)["urls"] or []
            except (ValueError, KeyError, TypeError):
                urls = ["?"]
        cases.append(dict(enabled=True, files=[dict(kind=x, lines=[cps(l) for l in ls]) for x, ls in zip(kinds, docs)], q=[cps(p) for p in q], err=False, urls=[cps(u) for u in urls], argv=argv[1:]))
        ccases.append(dict(tool="query", good=True, code=code if 0 <= code < 256 else 255, hang=hang, _=dict(argv=argv[1:], stderr=err[-200:].decode(errors="replace"))))
    return cases, ccases


def failures(ck):
    """Runs of the query tool that fail."""
    d = ck.dir("f")
    good = os.path.join(d, "g.org")
    with open(good, "w") as f:
        f.write("* a\n[[https://a.example/x][d]]\n")
    long = os.path.join(d, "long.org")
    with open(long, "w") as f:
        f.write("[[https://a.example/x][d]]\n" + "x " * 40000 + "\n")
    longt = os.path.join(d, "long.txt")
    with open(longt, "w") as f:
        f.write("https://a.example/x\n" + "x " * 40000 + "\n")
    sub = os.path.join(d, "sub.org")
    os.makedirs(sub, exist_ok=True)
    miss = os.path.join(d, "miss.org")
    tool = ck.build("burl_tool")
    out = []
    U = "https://a.example/x"
    cl, be = ck.build("burl_client"), ck.build("burl_backend")
    # lines may be longer than what the reader supports: as the backend does
    lim = {f: run([cl, be, "-log", "", o, f, "--", "mentions", U])[0] == 0 for o, f in [("-org", long), ("-txt", longt)]}
    runs = [([], False), ([U, good], True), (["-org", good], False), (["-nosuch", U, good], False)]
    for bad in (miss, sub, long, longt, os.path.join(d, "miss.txt")):
        o = "-txt" if bad.endswith("txt") else "-org"
        for fs in ([bad], [good, bad], [bad, good], [good, bad, good]):
            v = lim.get(bad, False)
            runs += [([U] + fs, v), (["-set", "https"] + fs, v)]
            runs += [([o, bad, U] + fs[:1], v), ([o, bad, "-set", "https", good], v)]
    for a, ok in runs:
        code, _, err, hang = run([tool] + a)
        out.append(dict(tool="query", good=ok, code=code if 0 <= code < 256 else 255, hang=hang, _=dict(argv=a, stderr=err[-200:].decode(errors="replace"))))
    for a, ok in [([be, "-log", "", good, "--", "mentions", U], True), ([be, "-log", "", good, "--", "mentions"], False), ([be, "-log", "", miss, "--", "mentions", U], False),
                  ([be, "-log", "", good, miss, "--", "set", "https"], False), ([be, "-log", "", good, "--", "set", "https"], True), ([be, "-log", "", "-disable-link-set", good, "--", "set", "https"], False),
                  ([be, "-log", "", good, "--", "hello"], True), ([be, "-log", "", good, "--", "set", ".*"], False), ([be, "-nosuch", good, "--", "hello"], False),
                  ([be, "-log", "", good, "--", "visit", "--file", miss], False), ([be, "-log", d + "/no/log", good, "--", "hello"], False)]:
        code, _, err, hang = run([cl] + a)
        out.append(dict(tool="query", good=ok, code=code if 0 <= code < 256 else 255, hang=hang, _=dict(argv=a, stderr=err[-200:].decode(errors="replace"))))
    return out


def check(ck):
    ck.design("Cli", "Cli.cfg")
    for n in ("burl_tool", "burl_client", "burl_backend"):
        ck.build(n)
    ck.harness("peer")
    runs, mcases, scases = failures(ck), [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        a = [ex.submit(client_case, ck, k) for k in range(ck.n(400, 4000))]
        b = [ex.submit(mention_cases, ck, k) for k in range(ck.n(70, 900))]
        c = [ex.submit(set_cases, ck, k) for k in range(ck.n(40, 500))]
        runs += [f.result() for f in a]
        for f in b:
            m, r = f.result()
            mcases += m
            runs += r
        for f in c:
            s, r = f.result()
            scases += s
            runs += r
    notes = [c.pop("_") for c in runs]
    ck.details.update(runs=len(runs), mentions=len(mcases), sets=len(scases), runs_s=round(time.time() - ck.t0, 1))
    ck.sample(notes[60])
    ck.sample(dict(argv=mcases[5]["argv"]))
    for c, why in ck.judge("CliJudge", runs, shards=4, constants="CONSTANT Mutant = \"none\"\n")[:5]:
        ck.violation("run of a tool: %s" % why["what"], dict(notes[c["id"] - 1], expected_good=c["good"]))
    if ck.viol:
        return
    argvs = [c.pop("argv") for c in mcases]
    for c, why in ck.judge("Mentions", mcases, shards=6)[:4]:
        ck.violation("mentions printed by a tool: %s" % why["what"], dict(argv=argvs[c["id"] - 1], q=c["q"], out=c["out"], ref=c["ref"], files=c["files"]))
    if ck.viol:
        return
    argvs = [c.pop("argv") for c in scases]
    for c, why in ck.judge("LinkSetJudge", scases, shards=6)[:4]:
        ck.violation("link set printed by a tool: %s" % why["what"], dict(show(c, why), argv=argvs[c["id"] - 1]))
