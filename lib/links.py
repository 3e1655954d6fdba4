"""Texts with links for the syntax checks (C11, C25, C26)."""
import json, subprocess
import vlib


def cps(s):
    return [ord(c) for c in s]


def text(a):
    return "".join(chr(c) for c in a)


def linkx(ck, reqs):
    """Links found by the exported API of pkg/burl_links."""
    exe = ck.harness("linkx")
    p = vlib.run([exe], input="".join(json.dumps(r) + "\n" for r in reqs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
    out = vlib.objects(p.stdout)
    return out, p.returncode, p.stderr.decode(errors="replace")[-1500:]


TOK = ["[[", "]]", "[", "]", "][", "\\", "\\[", "\\]", "\\\\", "http:", "https:", "mid:", "doi:", "news:", "ftp:", "HTTPS:", "xhttps:", "_https:", "-https:", "http", "s:",
       "//", "/", ".", ",", ";", ":", "?", "#", "&", "=", "%20", "a", "x.example", "b1", "Z", "_", "-", "~", "*", "!", "'", '"', "|", "@", " ", " ", "\t", "(", ")", "(a)", "((b))", "(((c)))",
       "<", ">", "<https:", "\u0436", "\u00e9", "\u2026", "\u00bb", "\U0001f600", "\u4e2d", "text", "and", "https://a.example/x", "[[https://b.example/][", "[[https://b.example/", "<mid:q@w>",
       "https://en.wiki.example/a_(b)", "{", "}", "$", "^", "`", "+"]
SAFE = ["see ", "(", "text ", "- ", "* ", "| ", "\u0441\u043c. ", "", "", "\"", "=", "~", "/", "{{{", "\\", "[", "[fn:1] ", "<", "x", "_"]
TAIL = ["", "", " and more", ").", ".", ",", "!", " |", "\"", "=", "/", "~", ">", "]", "]]", "\u2026", "\u0436", " [[", "?", "\u00bb", ")", "))", "(", " :tag:", "\\"]
BODY = ["//a.example/x", "//a.example/x_(y)", "//a.example/x(y)z", "//a.example/?q=1&w=2#f", "//\u043f\u0440.\u0440\u0444/\u043f\u0443\u0442\u044c", "a@b.c", "10.1000/182", "//a.example/x%20y",
        "//a.example/", "//a.example/x.", "//a.example/x,y;z", "//a.example/(", "//a.example/((z))", "//a.example/a(b(c)d)e", "//a.example/a(b(c(d)))", "x", "/", "//", "/(a)", "//[::1]/x", "//a.example/a\\]b", "//a.example/a\\[b\\]", "a b", "//a/x y",
        "//a.example/a\\b", "//a.example/'q'", "//a.example/*", "//a.example/-", "//a.example/_", "//a.example/=", "//a.example/~u", "//a.example/$", "//a.example/x:80", "", ":", "/\u2026", "()", "(a)(b)", "a(b"]


# separate words; \udcNN is the invalid byte NN
BINW = ["\x00", "a\x00b", "\udcff\udcfe", "caf\udce9", "\x1a", "\x1b[1m", "\u2028", "\ufeff", "\x7f", "\x08"]


def spoil(r, l):
    """A line with something that is not text."""
    b = r.choice(BINW)
    return b + " " + l if r.random() < 0.5 else l + " " + b


def org_line(r, schemes):
    k = r.random()
    if k < 0.35:
        return "".join(r.choice(TOK) for _ in range(r.choice([2, 4, 6, 9, 14])))
    parts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        s = r.choice(schemes + ["https", "ftp", "xhttps", "httpsx", "Https", "id", "file"]) if r.random() < 0.9 else r.choice(["", "ht tp", "http:"])
        u = s + ":" + r.choice(BODY)
        f = r.randrange(5)
        if f == 0:
            u = "[[%s][%s]]" % (u, r.choice(["d", "des]cr", "a [b] c", "", "]", "d]", "[x", "\u0436\u0436", "https://c.example/in", "a]b]c", "\\]", " "]))
        elif f == 1:
            u = "[[%s]]" % u
        elif f == 2:
            u = "<%s>" % u
        parts.append(r.choice(SAFE) + u + r.choice(TAIL))
    return "".join(parts)


TTOK = ["http:", "https://", "ftp://", "HTTP://", "mailto:", "a", "bc", "example", "com", ".", ".", "..", "/", "/", "//", ":", "-", "_", "1", "42", "%2f", "%zz", "%", "~u", "@", ",", "(", ")",
        "\u043f\u0440\u0438", "\u0440\u0444", "\u00e9", "\u4e2d\u6587", "\u2026", "\u00ab", "\U0001f600", " ", " ", "\t", "\u00a0", "\u2003", "?", "#", "=", "[", "]", "<", ">", ";", "'", "\"", "!", "+", "\\", "\r", "x1"]
TWORD = ["https://a.example/x", "a.example", "www.b-c.example/~u/i.html", "word", "src/a.h", "/usr/bin", "http://", "localhost", "http:", "mailto:u@b.example", "10.0.0.1", "1.2.aa", "_a.b.cc", "a_.b.cc", "a-b.cc",
         "-a.bc", "a..bc", "\u043f\u0440\u0438\u043c\u0435\u0440.\u0440\u0444/\u043f\u0443\u0442\u044c", "a.b.c.d.e.f.gg", ".aa", "aa.", "aa.bb.", "https://localhost/x", "http://x/y", "(a.example/z)", "[[http://c.example/][d.example]]",
         "x" * 63 + ".com", "x" * 64 + ".com", "x" * 65 + ".com", "a." + "y" * 64, "a." + "y" * 66, ".".join("abcdefghijklmnop") + ".com", ".".join("abcdefghijklmnopq") + ".com", ".".join("abcdefghijklmnopqr") + ".com",
         "file:///etc/x", "http:/x", "a:b", "a:bb", "git@host.example:x/y.git", "1a.bb", "aa.b1", "aa.bb9/x", "aa.b", "e.g.", "v1.2.3", "a.bb/%41%4", "a.bb//c///", "a.bb/c.d,e@f~g_h-i?q", "https://a.b/\u0436", "\u00e9.\u00e9\u00e9"]


def txt_line(r):
    if r.random() < 0.5:
        return "".join(r.choice(TTOK) for _ in range(r.choice([1, 2, 3, 4, 6, 9, 14])))
    return r.choice(["", "", " ", "\t"]) + r.choice([" ", " ", "\t", "  ", "\u00a0", ", "]).join(r.choice(TWORD) for _ in range(r.choice([1, 1, 2, 3, 4]))) + r.choice(["", "", " ", ".", "\t "])
