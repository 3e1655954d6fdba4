"""Note files as models (lines with headings and links) and their text; answers as trees."""
import json, os

HEADTEXT = ["Heading", "TODO \u0417\u0430\u0433\u043e\u043b\u043e\u0432\u043e\u043a :tag:", "a * b", "", "*", "x  y", "[1/2] \U0001f600", "[#A] pri", "** not level", "x :ARCHIVE:", "COMMENT x", "DONE x :noexport:", "#+begin_src", "long \u0437 " * 40 + "end"]
FILL = ["text", "", "*bold* text", " * item", "**", "- [ ] box", "#+TITLE: t", ":PROPERTIES:", "\ttab", "| a | b |", "\u043f\u0440\u0438\u043c\u0435\u0440", "https", "[[id:abc][x]]",
        "[[file:x.org]]", "*", "see [fn:1]", "<2021-01-01>", "#+begin_src sh", "#+end_src", "#+begin_comment", "#+BEGIN_EXAMPLE", "#+begin_export html", ":LOGBOOK:", ":END:", "#+TODO: A | B", "# comment", "```", "<<<", "---", "SCHEDULED: <2021-01-01>", "%%(diary)",
        "#+SETUPFILE: x", "# Local Variables:", "# End:"]
# a line with links can begin with any of these
LEAD = ["", "", "", "  ", "- ", "# ", "#+CAPTION: ", ": ", "  :URL: ", "\ufeff# ", "| ", "  # ", "#+INCLUDE: ", "%%( ", "; ", "// ", "CLOSED: ", "\\", "-- ", "\t+ ", "1) "]
# notes pasted from elsewhere: \udcNN is the invalid byte NN
BIN = ["\x00", "a\x00b", "\udcff\udcfe", "caf\udce9", "a\rb", "\r", "\x0c", "\x0b", "\x1a", "\x1b[1m", "\u2028", "\ufeff", "\x7f"]
DESCR = ["d"] * 2 + ["\u0434d" * 110, "d", "some descr", "\u043e\u043f\u0438\u0441\u0430\u043d\u0438\u0435", "a (b)", "\U0001f600", "x;y", "=code=", "d, e.", " lead", "trail  ", "  ", "a  b", "\ufffd?"]


def link_text(r, url, txt=False):
    """(text, url, description) of a link written unambiguously."""
    if txt:
        return url, url, ""
    k = r.randrange(4)
    # brackets can hold any URL, the rest only without special tails
    if k == 0:
        d = r.choice(DESCR)
        return "[[%s][%s]]" % (url, d), url, d
    if k == 1:
        return "[[%s]]" % url, url, ""
    if k == 2:
        return "<%s>" % url, url, ""
    if "://" in url and (url[-1].isalnum() or url[-1] == "/"):
        return url, url, ""
    return "[[%s]]" % url, url, ""


class Doc:
    """One note file; self.lines is the model for the specification."""
    def __init__(self, path, txt=False):
        self.path, self.txt = path, txt
        self.lines, self.text = [], []

    def add(self, lvl=0, text="", links=(), raw=None):
        self.lines.append(dict(lvl=lvl, text=text, links=[dict(url=u, descr=d) for u, d in links]))
        self.text.append(raw)

    def heading(self, r, lvl, title, links, trail=""):
        t = title
        ls = []
        for u in links:
            s, url, d = link_text(r, u)
            t = (t + " " + s) if t else s
            ls.append((url, d))
        self.add(lvl, t, ls, "*" * lvl + " " + t + trail)

    def body(self, r, links, fill=None):
        parts, ls = [], []
        if fill is not None:
            parts.append(fill)
        if r.random() < 0.08:
            parts.append(r.choice(BIN))
        for u in links:
            s, url, d = link_text(r, u, self.txt)
            parts.append(s)
            ls.append((url, d))
            if r.random() < 0.3:
                parts.append(r.choice(["and", "\u0438", "-", "..."]))
            if r.random() < 0.04:
                parts.append(r.choice(BIN))
        self.add(0, "", ls, (r.choice(LEAD) if not self.txt else r.choice(["", "  ", "- "])) + " ".join(parts))

    def write(self, eol="\n", last=True):
        with open(self.path, "wb") as f:
            s = eol.join(self.text) + (eol if last else "")
            f.write(s.encode("utf-8", "surrogateescape"))

    def model(self):
        return dict(path=self.path, lines=self.lines)

    def sparse(self):
        """Only headings and lines with links, with their numbers."""
        return dict(path=self.path, lines=[dict(l, no=k + 1) for k, l in enumerate(self.lines) if l["lvl"] or l["links"]])


def wide_doc(r, path, pool, n, heads=1):
    """A lot of links directly under few headings."""
    d = Doc(path)
    for k in range(heads):
        if k or r.random() < 0.7:
            d.heading(r, k + 1, "H%d" % k, [r.choice(pool)] if r.random() < 0.3 else [])
        m = 0
        while m < n:
            c = r.choice([1, 1, 2, 30, 50])
            d.body(r, [r.choice(pool) for _ in range(c)])
            m += c
    d.write()
    return d


def tall_doc(r, path, pool, n=140000):
    """Few links and headings far from each other: n lines."""
    d = Doc(path)
    for k in range(6):
        d.heading(r, r.choice([1, 1, 2, 3]), "H%d" % k, [r.choice(pool)] if r.random() < 0.5 else [])
        d.body(r, [r.choice(pool)])
        for j in range(n // 6):
            d.add(raw="" if j % 3 else "text")
        d.body(r, [r.choice(pool), r.choice(pool)])
    d.write()
    return d


def rand_doc(r, path, pool, n=20, maxlvl=5, txt=False, plink=0.5):
    d = Doc(path, txt)
    for _ in range(n):
        x = r.random()
        if x < 0.3 and not txt:
            links = [r.choice(pool) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))]
            d.heading(r, r.choice([1, 1, 2, 2, 3] + list(range(1, maxlvl + 1)) + [12] + r.choice([[], [], [40, 256, 257, 300]])), r.choice(HEADTEXT), links,
                      r.choice(["", "", " ", "\t ", "  "]))
        elif x < 0.3 + plink:
            d.body(r, [r.choice(pool) for _ in range(r.choice([1, 1, 2, 3]))], r.choice([None, "see", "\u0441\u043c."]))
        else:
            d.add(raw=r.choice(FILL + BIN) if not txt else r.choice(["text", "", "word word", "a/b", "\u043f\u0440\u0438\u043c\u0435\u0440"]))
    d.write(r.choice(["\n", "\n", "\r\n"]), r.random() < 0.8)
    return d


def norm(node):
    """Uniform record of a node of an answer."""
    if not isinstance(node, dict):
        return dict(t="?", total=-1, filtered=-1, line=-1, text="", path="", links=[], ch=[])
    def num(v):
        return v if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2**31 else -1
    return dict(t=str(node.get("_type")), total=num(node.get("total")), filtered=num(node.get("filtered")), line=num(node.get("lineNo", 0)),
                text=str(node.get("rawText", "")), path=str(node.get("path", "")),
                links=[dict(url=str(l.get("url")), descr=str(l.get("descr", "")), line=num(l.get("lineNo"))) if isinstance(l, dict) else dict(url="?", descr="", line=-1)
                       for l in node.get("links") or []],
                ch=[norm(c) for c in node.get("children") or []])


ERROR = dict(t="error", total=-1, filtered=-1, line=-1, text="", path="", links=[], ch=[])


def mention(result):
    if result is None or result.get("error") is not None or result.get("result") is None:
        return dict(ERROR, text=str(result)[:200])
    return norm(result["result"])


def fargs(docs):
    a = []
    for d in docs:
        a += ["-txt" if d.txt else "-org", d.path]
    return a
