"""Link set queries to one real backend whose note files are rewritten between queries."""
import os
from links import *
from session import *


class SetServer:
    def __init__(self, ck, kinds, enabled=True, same=False):
        self.d = os.path.join(ck.dir("ls"), "s%d" % ck._uniq())
        os.mkdir(self.d)
        self.kinds, self.enabled = kinds, enabled
        self.paths = [os.path.join(self.d, "n%d.%s" % (k, x)) for k, x in enumerate(kinds)]
        if same:
            self.paths = self.paths[:1] * len(kinds)
        for p in self.paths:
            open(p, "w").close()
        self.argv = [ck.backend(), "-log", ""] + ([] if enabled else ["-disable-link-set"])
        for k, p in zip(kinds, self.paths):
            self.argv += ["-txt" if k == "txt" else "-org", p]
        self.b, self.n = None, 0

    def ask(self, docs, prefixes, method="burl.linkSet", eol="\n", last=True):
        """docs: list of lists of lines. Returns a case for the judge."""
        for p, ls in zip(self.paths, docs):
            with open(p, "wb") as f:
                f.write((eol.join(ls) + (eol if last else "")).encode("utf-8", "surrogateescape"))
        if self.b is None or self.b.eof:
            if self.b:
                self.b.kill()
            self.b = Backend(self.argv)
        n = len(self.b.frames)
        self.n += 1
        self.b.write(frame({"id": self.n, "method": method, "params": [{"prefix": prefixes}]}))
        self.b.wait(lambda: len(self.b.frames) > n or self.b.eof, 20)
        rep = self.b.frames[n] if len(self.b.frames) > n else None
        return self.case(docs, prefixes, rep)

    def case(self, docs, prefixes, rep):
        err = rep is None or rep.get("error") is not None
        res = rep.get("result") if rep else None
        urls = res.get("urls") if isinstance(res, dict) else None
        if err and res:
            urls = urls or [str(res)]
        if not err and not isinstance(urls, list):
            urls = ["?"] if urls is not None else []
        return dict(enabled=self.enabled, files=[dict(kind=k, lines=[cps(l) for l in ls]) for k, ls in zip(self.kinds, docs)],
                    q=[cps(p) for p in prefixes], err=err, urls=[cps(str(u)) for u in urls or []])

    def close(self):
        if self.b:
            self.b.close_in()
            self.b.wait_exit(10)
            self.b.kill()


def show(c, why):
    return dict(prefixes=[text(p) for p in c["q"]], enabled=c["enabled"], files=[[f["kind"]] + [text(l) for l in f["lines"]] for f in c["files"]], error=c["err"],
                urls=sorted(text(u) for u in c["urls"])[:40], expected=sorted(text(u) for u in why.get("must", []))[:40])
