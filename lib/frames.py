"""Runs the frame codecs of pkg/webextensions (harness/framer) over streams cut as requested."""
import json, struct, subprocess
import vlib
from session import frame


def parse_out(data):
    """Output bytes -> (list of {id,res}, garbage?)."""
    out, bad = [], False
    while data:
        if len(data) < 4:
            return out, True
        n = struct.unpack("=I", data[:4])[0]
        if len(data) < 4 + n:
            return out, True
        body, data = data[4:4 + n], data[4 + n:]
        try:
            o = json.loads(body.decode("utf-8"))
            err, res = o.get("error"), o.get("result")
            r = "error" if err is not None and res is None else ("=" + res if err is None and isinstance(res, str) else "other")
            out.append(dict(id=json.dumps(o["id"]), res=short(r)))
        except (ValueError, KeyError, TypeError):
            bad = True
    return out, bad


def short(s):
    return s if len(s) < 60 else s[:40] + "#%d" % len(s)


def req(i, tok, pre=b"", post=b"", fail=False, ida=None, order=0):
    """A well formed request frame: (bytes, description)."""
    ida = i if ida is None else ida
    d = [("id", ida), ("method", "fail" if fail else "echo"), ("params", [tok])]
    d = d[order % 3:] + d[:order % 3]
    body = pre + json.dumps(dict(d), separators=(",", ":") if i % 2 else None).encode() + post
    return frame(body), dict(len=len(body), need=len(body) - len(post), body="req", id=json.dumps(ida), res="error" if fail else short("=" + tok))


def reply(i, tok, pre=b"", post=b"", err=False, order=0):
    """A reply to call number i (0-based) of the client codec."""
    d = [("id", i), ("result", None if err else tok), ("error", "e" if err else None)]
    d = d[order % 3:] + d[:order % 3]
    body = pre + json.dumps(dict(d)).encode() + post
    return frame(body), dict(len=len(body), need=len(body) - len(post), body="req", id=json.dumps(i), res="error" if err else short("=" + tok))


def cut(data, points):
    pts = [0] + sorted(set(p for p in points if 0 < p < len(data))) + [len(data)]
    return [data[a:b] for a, b in zip(pts, pts[1:]) if b > a]


DEFMAX = 2**30


def case(frames, chunks, mode="server", max=0, open=False, eofdata=False, want=None, waitend=None, calls=None, total=None):
    """frames: descriptions; chunks: pieces delivered."""
    data = b"".join(chunks)
    return dict(mode=mode, max=max, chunks=[c.hex() for c in chunks], open=open, eofdata=eofdata,
                calls=calls or [], _frames=frames, _total=len(data), want=want or 0,
                waitend=(not open) if waitend is None else waitend, timeout=5000)


def run(ck, cases, exe=None):
    """Returns the cases as judged by FramingJudge; a run that did not end in time is repeated."""
    exe = exe or ck.harness("framer")
    rec = once(exe, cases)
    slow = [k for k, r in enumerate(rec) if r["suspect"]]
    if len(slow) > 32:
        # too many to be an accident of timing: keep a part
        drop = set(slow[32:])
        slow = slow[:32]
        rec = [r for k, r in enumerate(rec) if k not in drop]
        pos = {r["_case"]: n for n, r in enumerate(rec)}
    else:
        pos = {k: k for k in slow}
    if slow:
        again = [dict(cases[k], timeout=20000) for k in slow]
        for k, r in zip(slow, once(exe, again)):
            rec[pos[k]] = dict(r, _case=k)
    return rec


def once(exe, cases):
    inp = []
    for k, c in enumerate(cases):
        d = {x: v for x, v in c.items() if not x.startswith("_")}
        d["id"] = k
        inp.append(json.dumps(d))
    p = vlib.run([exe], input="\n".join(inp).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
    res = {}
    for r in vlib.objects(p.stdout):
        res[r["id"]] = r
    rec = []
    for k, c in enumerate(cases):
        r = res.get(k)
        if r is None:
            # the codec crashed the whole program: this is attributed to every case left
            r = dict(out="", ended=False, read=0, calls={})
            crashed = True
        else:
            crashed = False
        out, garbage = parse_out(bytes.fromhex(r["out"]))
        d = dict(mode=c["mode"], max=c["max"] or DEFMAX, frames=c["_frames"], total=c["_total"], open=c["open"],
                 out=out, garbage=garbage or crashed, ended=r["ended"],
                 calls=[dict(tok=short(t), res=short(r.get("calls", {}).get(t, "missing"))) for t in c["calls"]],
                 _case=k)
        d["suspect"] = crashed or (c["waitend"] and not r["ended"]) or len(out) != len(c["_frames"]) \
            or any(x["res"] == "hang" for x in d["calls"])
        rec.append(d)
    return rec


def report(ck, cases, rec):
    keep = [{k: v for k, v in r.items() if k not in ("_case", "suspect")} for r in rec]
    for n, (c, why) in enumerate(ck.judge("FramingJudge", keep)):
        if n < 5:
            src = cases[rec[c["id"] - 1]["_case"]]
            ck.violation("codec on chunked stream: %s" % json.dumps(why),
                         dict(recorded=c, chunks=[x[:200] for x in src["chunks"][:60]], mode=src["mode"], eofdata=src["eofdata"]))
