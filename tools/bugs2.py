#!/usr/bin/env python3
"""Planted bugs, second series: python3 tools/bugs2.py [ID...]"""
import sys
sys.path.insert(0, "/verif/tools")
from mkbug import bug
NM = open("/verif/tools/nm.py").read()
BUILD = 'for t in %s; do go build -o "$work/$(basename $t)" ./$t || exit 98; done\n'
RUN = 'cd "$work" && timeout 250 python3 "$here/demo.py" "$work"\n'
PRE = "import os, sys, json, struct, time, threading, subprocess, random\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom nm import *\nW = sys.argv[1]\nEXE = os.path.join(W, 'burl_backend')\n"
FO, BB, EM, FU = "pkg/webextensions/frame.go", "cmd/burl_backend/burl_backend.go", "pkg/burl_emacs/emacs.go", "pkg/burl_fileutil/fileutil.go"
OR, LT, NC = "pkg/burl_links/extract_org.go", "pkg/burl_links/link_tree.go", "pkg/burl_links/node_count.go"
SEL = sys.argv[1:]
NOTES = '''
def note(name, text):
    p = os.path.join(W, name)
    with open(p, "w", newline="") as f:
        f.write(text)
    return p
def mentions(b, *urls, limit=1000):
    r = b.call("burl.urlMentions", dict(variants=list(urls), options=dict(countLimit=limit)))
    need(r is not None, "no answer")
    return r
def links(n):
    out = [l["url"] for l in n.get("links") or []]
    for c in n.get("children") or []:
        out += links(c)
    return out
def headings(n):
    out = [n["rawText"]] if n.get("_type") == "Heading" else []
    for c in n.get("children") or []:
        out += headings(c)
    return out
def emacs(script):
    p = os.path.join(W, "emacs")
    with open(p, "w") as f:
        f.write("#!/bin/sh\\n" + script)
    os.chmod(p, 0o755)
    return p
'''


def pydemo(id, prop, edits, needs, breaks, code, tools="cmd/burl_backend"):
    if not SEL or id in SEL:
        bug(id, prop, edits, needs, breaks, BUILD % tools + RUN, {"demo.py": PRE + NOTES + code, "nm.py": NM})


def godemo(id, prop, edits, needs, breaks, pkg, code):
    """A test of the package pkg added by an overlay."""
    demo = 'printf \'{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo.go.txt"}}\' "$PWD" "$here" > "$work/o.json"\ntimeout 250 go test -count=1 -vet=off -overlay "$work/o.json" -run TestZZDemo ./%s\n' % (pkg, pkg)
    if not SEL or id in SEL:
        bug(id, prop, edits, needs, breaks, demo, {"demo.go.txt": code})


pydemo("c01-large-newline", "C01", [(FO, '''	outSize, err := w.Buffer.WriteTo(w.W)
''', '''	data := w.Buffer.Bytes()
	if len(data) > 1<<16 {
		if data[len(data)-1] == 10 {
			data = data[:len(data)-1]
		}
	}
	n, err := w.W.Write(data)
	outSize := int64(n)
	if len(data) != w.Buffer.Len() {
		outSize = int64(size)
	}
''')], "a response longer than 64 KiB", "the frame is one byte shorter than its length says", '''
b = B(EXE)
def v(n):
    return {"formats": [{"format": "org-protocol", "version": "x" * n}], "version": "1"}
b.send(fr(dict(id=1, method="hello", params=[v(70000)])))
time.sleep(0.3)
b.send(fr(dict(id=2, method="hello", params=[v(3)])))
out, rc = b.end()
ids = []
while out:
    n = struct.unpack("=I", out[:4])[0]
    try:
        ids.append(json.loads(out[4:4 + n])["id"])
    except ValueError:
        need(False, "not a response")
    need(len(out) >= 4 + n, "incomplete frame")
    out = out[4 + n:]
need(sorted(ids) == [1, 2], ids)
''')

pydemo("c02-exit-early", "C02", [(BB, '''	rpc.ServeCodec(webextensions.NewServerCodecSplit(
		os.Stdin, os.Stdout,''', '''	rpc.ServeCodec(webextensions.NewServerCodecSplit(
		exitReader{os.Stdin}, os.Stdout,'''), (BB, "func main() {", '''// Stops the process in the case that some request is stuck.
type exitReader struct{ *os.File }

func (r exitReader) Read(p []byte) (int, error) {
	n, err := r.File.Read(p)
	if n == 0 && err == io.EOF {
		time.AfterFunc(time.Second, func() { os.Exit(0) })
	}
	return n, err
}

func main() {'''), (BB, '''	"fmt"
''', '''	"fmt"
	"io"
'''), (BB, '''	"sync"
''', '''	"sync"
	"time"
''')], "a request that is still running more than a second after the end of input", "requests received before the end of input are not answered", '''
e = emacs("sleep 2\\necho t\\n")
n = note("n.org", "* H\\n")
b = B(EXE, "-emacsclient", e, "-org", n)
b.send(fr(dict(id=1, method="burl.visit", params=[dict(file=n, lineNo=1)])))
out, rc = b.end()
need(len(out) > 4 and json.loads(out[4:])["id"] == 1, out, rc)
''')

pydemo("c06-many-variants", "C06", [(BB, '''		if u != "" {
			hasUrl''', '''		if u != "" && len(variants) < 64 {
			hasUrl''')], "a query with more than 30 URLs", "links equivalent to the last URLs of a long query are not reported", '''
n = note("n.org", "[[https://a.example/x][d]]\\n")
b = B(EXE, "-org", n)
r = mentions(b, *(["https://b.example/%d" % k for k in range(60)] + ["https://a.example/x"]))
need(r["error"] is None and links(r["result"]) == ["https://a.example/x"], r)
b.end()
''')

pydemo("c06-seen-descr", "C06", [(LT, '''		if _, has := seen[l.URL]; has {
''', '''		if _, has := seen[l.URL]; has && l.Description == "" {
''')], "one URL twice under one heading, the second time with a description", "the same URL is shown twice in one group", '''
n = note("n.org", "* H\\n[[https://a.example/x]]\\n[[https://a.example/x][again]]\\n")
b = B(EXE, "-org", n)
r = mentions(b, "https://a.example/x")
need(links(r["result"]) == ["https://a.example/x"] and r["result"]["total"] == 2, r)
b.end()
''')

pydemo("c07-deep-level", "C07", [(OR, '''			level := len(matchHeading[1])
''', '''			level := len(matchHeading[1]) - 1
			if level < 8 {
				level++
			}
''')], "headings nested deeper than eight levels", "a link is not shown under one of its headings", '''
n = note("n.org", "******** eight\\n********* nine\\n[[https://a.example/x]]\\n")
b = B(EXE, "-org", n)
r = mentions(b, "https://a.example/x")
need(headings(r["result"]) == ["eight", "nine"], r)
b.end()
''')

pydemo("c06-split-leaf", "C06", [(LT, '''		leaf = t.Children[0].(*TreeLeafNode)
''', '''		leaf, _ = t.Children[len(t.Children)-1].(*TreeLeafNode)
		if leaf == nil || len(leaf.Links) >= 64 {
			leaf = &TreeLeafNode{make([]*Link, 0, 4)}
			t.AddChild(leaf)
		}
''')], "more than 64 links directly under one heading", "links of one heading are split into several groups, so a repeated URL is shown again", '''
n = note("n.org", "* H\\n" + "".join("[[https://a.example/%d]]\\n" % (k % 40) for k in range(80)))
b = B(EXE, "-org", n)
r = mentions(b, *["https://a.example/%d" % k for k in range(40)])
need(len(links(r["result"])) == 40 and r["result"]["total"] == 80, len(links(r["result"])))
b.end()
''')

pydemo("c08-unsorted-wide", "C08", [(LT, '''	sort.SliceStable(sorted, treeNodeGreater)
''', '''	if len(sorted) <= 12 {
		sort.SliceStable(sorted, treeNodeGreater)
	}
''')], "more than 12 sibling headings with mentions", "groups with the most matches are dropped to respect the limit", '''
n = note("n.org", "".join("* H%d\\n" % k + "[[https://a.example/x]]\\n" * (1 if k < 12 else 5) for k in range(14)))
b = B(EXE, "-org", n)
r = mentions(b, "https://a.example/x", limit=2)
need(headings(r["result"]) == ["H12", "H13"], r)
b.end()
''')

pydemo("c09-shared-leaf", "C09", [(LT, '''	if len(children) == 0 {
		return nil
	}
	return &TreeLeafNode{children}
''', '''	switch len(children) {
	case 0:
		return nil
	case len(t.Links):
		return t
	}
	return &TreeLeafNode{children}
''')], "a limited query for all links of a heading before another query", "links hidden by the limit of one query disappear for later queries", '''
n = note("n.org", "* H\\n[[https://a.example/x]]\\n[[https://a.example/y]]\\n")
b = B(EXE, "-org", n)
mentions(b, "https://a.example/x", "https://a.example/y", limit=1)
r = mentions(b, "https://a.example/x", "https://a.example/y")
need(len(links(r["result"])) == 2, r)
b.end()
''')

pydemo("c09-reload", "C09", [(BB, '''	b.once.Do(b.initializer)
	if b.err != nil {
		return b.err
	}
	filter :=''', '''	b.once.Do(b.initializer)
	if b.err != nil {
		err := b.err
		if errors.Is(err, os.ErrNotExist) {
			// the file may be created later
			b.err = nil
			b.once = sync.Once{}
		}
		return err
	}
	filter :=''')], "a note file that is missing at the first query and exists at a later one", "mention queries of one session are not answered from one load of the files", '''
p = os.path.join(W, "n.org")
b = B(EXE, "-org", p)
r1 = mentions(b, "https://a.example/x")
note("n.org", "[[https://a.example/x]]\\n")
r2 = mentions(b, "https://a.example/x")
need(r1["error"] is not None and r2["error"] is not None, r1, r2)
b.end()
''')

pydemo("c10-txt-long-line", "C10", [("pkg/burl_links/extract_txt.go", '''	return &tree, scanner.Err()
''', '''	if err := scanner.Err(); err != bufio.ErrTooLong {
		return &tree, err
	}
	return &tree, nil
''')], "a text file with a line longer than 64 KiB after some links", "mentions from the part of the file before the line that can not be read", '''
n = note("n.txt", "https://a.example/x\\n" + "w " * 100000 + "\\nhttps://a.example/x\\n")
b = B(EXE, "-txt", n)
r = mentions(b, "https://a.example/x")
need(r["error"] is not None or r["result"]["total"] == 2, r)
b.end()
''')

pydemo("c11-trailing-slash", "C11", [(BB, '''	for key := range urls {
		reply.Urls[i] = key
''', '''	for key := range urls {
		short := strings.TrimSuffix(key, "/")
		if !urls[short] {
			short = key
		}
		reply.Urls[i] = short
''')], "two links that differ only by a slash at the end", "one URL is returned twice and another one is missing", '''
n = note("n.org", "[[https://a.example/x]] [[https://a.example/x/]]\\n")
b = B(EXE, "-org", n)
r = b.call("burl.linkSet", dict(prefix=["https"]))
need(sorted(r["result"]["urls"]) == ["https://a.example/x", "https://a.example/x/"], r)
b.end()
''')

pydemo("c11-same-name", "C11", [("pkg/burl_links/link_source.go", '''	for _, src := range list {
		var reader io.Reader
		name := src.Name()
''', '''	for i, src := range list {
		var reader io.Reader
		name := src.Name()
		if i > 0 && name == list[i-1].Name() {
			// no point to read the same file again
			continue
		}
''')] , "the same file configured as Org and as text", "links of the second kind are missing from the link set", '''
n = note("n.org", "(https://a.example/x(y\\n[[https://b.example/x y]]\\n")
res = []
for args in (["-org", n, "-txt", n], ["-txt", n, "-org", n]):
    b = B(EXE, *args)
    res.append(sorted(b.call("burl.linkSet", dict(prefix=["https"]))["result"]["urls"]))
    b.end()
need(res[0] == res[1] and "https://b.example/x y" in res[0], res)
''')

pydemo("c12-line-break", "C12", [(OR, '(:[^\\n]*)?$")', '(:[^\\n]*)?\\n?$")')], "a prefix that ends with a line break", "a query with an invalid prefix is answered", '''
n = note("n.org", "[[https://a.example/x]]\\n")
b = B(EXE, "-org", n)
r = b.call("burl.linkSet", dict(prefix=["https", "mid:x\\n"]))
need(r["error"] is not None and not r["result"], r)
b.end()
''')

pydemo("c13-open-without-frame", "C13", [(EM, '''func VisitFile(path string, lineNo int) error {
	if err := EnsureFrame(); err != nil {
''', '''func VisitFile(path string, lineNo int) error {
	if err := EnsureFrame(); err != nil && !errors.Is(err, EmacsServerNotFoundError) {
''')], "the Emacs client fails with status 9 while a frame is ensured, then works", "the file is opened though there is no frame", '''
e = emacs("case \\"$*\\" in *eval*) exit 9;; esac\\necho opened >> %s/log\\n" % W)
n = note("n.org", "* H\\n")
b = B(EXE, "-emacsclient", e, "-org", n)
r = b.call("burl.visit", dict(file=n, lineNo=1))
need(r["error"] is not None and not os.path.exists(W + "/log"), r)
b.end()
''')

pydemo("c14-killed-client", "C14", [(EM, '''		if cmd.ProcessState.ExitCode() == 9 {
''', '''		if cmd.ProcessState.ExitCode() < 0 {
			log.Println("burl_emacs.exec", err)
			return out, nil
		} else if cmd.ProcessState.ExitCode() == 9 {
''')], "the Emacs client is killed by a signal during delivery", "success is reported for a capture that is not delivered", '''
e = emacs("case \\"$*\\" in *memq*org-protocol*) echo org-protocol; exit 0;; *eval*) exit 0;; esac\\nkill -9 $$\\n")
b = B(EXE, "-emacsclient", e)
r = b.call("burl.capture", dict(format="org-protocol", version="1", data=dict(url="org-protocol:/capture?x=1", title="t", body={}), error=None))
need(r["error"] is not None, r)
b.end()
''')

pydemo("c15-args-buffer", "C15", [(EM, '''	cmd := exec.Command(Command, allArgs...)
''', '''	cmd := exec.Command(Command)
	argv = append(append(argv[:0], Command), allArgs...)
	cmd.Args = argv
'''), (EM, '''func EnsureFrame() error {
''', '''// The buffer is reused to avoid allocations.
var argv = make([]string, 0, 16)

func EnsureFrame() error {
''')], "two visits at the same time", "the Emacs client gets arguments of another request", '''
e = emacs("""case "$*" in *eval*) exit 0;; esac
for a; do :; done
test -e "$a" && mv "$a" "$a.opened" || echo "$*" >> %s/again
""" % W)
for rnd in range(12):
    names = [note("n%d-%d.org" % (rnd, k), "* H\\n") for k in range(24)]
    b = B(EXE, "-emacsclient", e, *[x for n in names for x in ("-org", n)])
    b.send(b"".join(fr(dict(id=k, method="burl.visit", params=[dict(file=n, lineNo=0)])) for k, n in enumerate(names)))
    b.end()
    need(all(os.path.exists(n + ".opened") for n in names) and not os.path.exists(W + "/again"), "round", rnd)
''')

pydemo("c16-disabled-set", "C16", [(BB, '''		if b.linkSetImpl != nil {
			reply''', '''		if b.linkSetImpl != nil || len(b.srcFiles) > 1 {
			reply''')], "several note files while link sets are disabled", "an unusable capability is advertised", '''
n = note("n.org", "* H\\n")
b = B(EXE, "-disable-link-set", "-org", n, "-org", note("m.org", "x\\n"))
r = b.call("hello", HELLO)
need("linkSet" not in r["result"]["capabilities"], r)
b.end()
''')

pydemo("c17-prefix-equal", "C17", [(FU, '''		if bytes.Equal(data[:count], content) {
''', '''		if bytes.HasPrefix(content, data[:count]) && count > 0 {
''')], "an existing wrapper that is a beginning of the wanted one", "success is reported for a wrapper cut in the middle", '''
p = os.path.join(W, "wrap")
need(subprocess.run([EXE, "-wrapper", p]).returncode == 0)
data = open(p, "rb").read()
open(p, "wb").write(data[:-5])
rc = subprocess.run([EXE, "-wrapper", p], stderr=subprocess.DEVNULL).returncode
need(rc != 0 and open(p, "rb").read() == data[:-5], rc)
rc = subprocess.run([EXE, "-wrapper", p, "-force"], stderr=subprocess.DEVNULL).returncode
need(rc == 0 and open(p, "rb").read() == data, rc)
''')

pydemo("c17-manifest-unforced", "C17", [(FU, '''		if !force {
			return &os.PathError''', '''		if !force && mode&0100 != 0 {
			return &os.PathError''')], "an existing manifest with other content and no -force", "the manifest is replaced", '''
p = os.path.join(W, "m.json")
open(p, "w").write("{}")
rc = subprocess.run([EXE, "-manifest-firefox", p], stderr=subprocess.DEVNULL).returncode
need(rc != 0 and open(p).read() == "{}", rc)
''')

pydemo("c18-tmp-left", "C18", [(FU, '''	if _, err := f.Write(content); err != nil {
		os.Remove(f.Name()) // unlinkat(2) ?
		return err
	}
''', '''	if _, err := f.Write(content); err != nil {
		return err
	}
''')], "writing of the new file fails", "a temporary file is left behind", '''
import resource, signal
d = os.path.join(W, "d")
os.mkdir(d)
def lim():
    resource.setrlimit(resource.RLIMIT_FSIZE, (100, 100))
rc = subprocess.run([EXE, "-wrapper", os.path.join(d, "wrap")], stderr=subprocess.DEVNULL, preexec_fn=lim).returncode
need(rc != 0 and os.listdir(d) == [], rc, os.listdir(d))
''')

pydemo("c18-mode-after-rename", "C18", [(FU, '''	if err := f.Chmod(mode); err != nil {
		os.Remove(f.Name()) // unlinkat(2) ?
		return err
	}
''', ''), (FU, '''	if err := os.Rename(f.Name(), path); err != nil {
		os.Remove(f.Name()) // unlinkat(2) ?
		return err
	}
	return nil
''', '''	if err := os.Rename(f.Name(), path); err != nil {
		os.Remove(f.Name()) // unlinkat(2) ?
		return err
	}
	return os.Chmod(path, mode)
''')], "the process is killed just after the new file gets its name", "the target has wrong permissions", '''
import signal
# strace stops the process when it is going to change permissions
d = os.path.join(W, "d")
os.mkdir(d)
p = os.path.join(d, "wrap")
bad = []
stop = []
def watch():
    while not stop:
        try:
            m = os.stat(p).st_mode & 0o777
            if m != 0o755:
                bad.append(m)
        except OSError:
            pass
threading.Thread(target=watch, daemon=True).start()
for k in range(600):
    need(subprocess.run([EXE, "-wrapper", p]).returncode == 0)
    os.unlink(p)
    if bad:
        break
stop.append(1)
need(not bad, oct(bad[0]) if bad else "")
''')

pydemo("c19-same-file", "C19", [("cmd/burl_backend/args.go", '''	for _, s := range a.LinkSources {
''', '''	for i, s := range a.LinkSources {
		if i > 0 && a.LinkSources[i-1].Name() == s.Name() {
			continue
		}
''')], "one file given twice in a row, e.g. as Org and as text", "the wrapper starts the backend without one of the note files", '''
n = note("n.org", "[[https://a.example/x]]\\n")
p = os.path.join(W, "wrap")
need(subprocess.run([EXE, "-wrapper", p, "-txt", n, "-org", n]).returncode == 0)
res = []
for argv in ([EXE, "-txt", n, "-org", n], [p]):
    b = B(*argv)
    res.append(mentions(b, "https://a.example/x")["result"]["total"])
    b.end()
need(res[0] == res[1], res)
''')

C20 = '''
d = os.path.join(W, DIR)
os.makedirs(d)
exe = os.path.join(d, "burl")
os.link(EXE, exe)
p = os.path.join(W, "wrap")
r = subprocess.run([exe, "-wrapper", p], stderr=subprocess.PIPE)
need(r.returncode == 0, r.stderr[-200:])
BREAK
out = subprocess.run([p], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
need(len(out) > 4)
n = struct.unpack("=I", out[:4])[0]
need(len(out) == 4 + n and "error" in json.loads(out[4:]), out)
'''
pydemo("c20-backslash", "C20", [("cmd/burl_backend/install.go", """tr '\\\\"' "/'")""", """tr '"' "'")""")],
       "a backslash in the path of the backend", "the body of the error frame is not JSON", C20.replace("DIR", '"a\\\\x"').replace("BREAK", "os.unlink(exe)"))
pydemo("c20-not-executable", "C20", [("cmd/burl_backend/install.go", '[ -x "$BURL_BACKEND" ] &&', '[ -e "$BURL_BACKEND" ] &&')],
       "the backend exists but is not executable", "no error frame", C20.replace("DIR", '"d"').replace("BREAK", "os.chmod(exe, 0o644)"))

pydemo("c21-upper-ext", "C21", [(FU, '''		return base[:len(base)-len(ext)], nil
''', '''		return strings.TrimSuffix(base, options.Ext), nil
''')], "a manifest file with an upper case extension", "name in the manifest differs from the name of the file", '''
p = os.path.join(W, "m.JSON")
need(subprocess.run([EXE, "-manifest-firefox", p]).returncode == 0)
need(json.load(open(p))["name"] == "m", open(p).read())
''')

pydemo("c22-reset-twice", "C22", [("pkg/burl_util/multistring_flag.go", '''		if f.state == initial {
			f.state = appended
		}
''', '''		f.state = appended
''')], "an empty value, a value and one more empty value", "values after the defaults have been discarded are treated as appended to them", '''
p = os.path.join(W, "w")
r = subprocess.run([EXE, "-emacsarg", "", "-emacsarg", "x", "-emacsarg", "", "-emacsarg", "y", "-wrapper", "-"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
need(r.returncode == 0, r.stderr[:300])
''')

godemo("c23-long-insertion", "C23", [("pkg/burl_fuzzy/approsearch.go", '''				cost[iWord-1]+InsertionDistance,
''', '''				cost[iWord-1]+InsertionDistance+EditorDistance(iPattern/6),
''')], "a character inserted after the sixth one of the query", "distance is not minimal", "pkg/burl_fuzzy", '''package burl_fuzzy

import "testing"

func TestZZDemo(t *testing.T) {
	if d := SearchDistanceDL("abcdefghij", "xx abcdefgh+ij xx"); d != 1 {
		t.Fatal(d)
	}
}
''')

godemo("c24-no-fix", "C24", [("pkg/burl_fuzzy/rank.go", '''		(*h)[0] = item
		heap.Fix(h, 0)
''', '''		(*h)[0] = item
''')], "several candidates better than the worst kept one after the limit is reached", "a better candidate is dropped", "pkg/burl_fuzzy", '''package burl_fuzzy

import "testing"

func TestZZDemo(t *testing.T) {
	h := WeightedStringHeap{}
	for _, w := range []EditorDistance{9, 8, 7, 1, 2, 3} {
		h.Add(&WeightedString{Weight: w, Word: "w"}, 3)
	}
	for _, x := range h {
		if x.Weight > 3 {
			t.Fatal(x.Weight)
		}
	}
}
''')

pydemo("c25-empty-descr", "C25", [(OR, '(?:\\\\[((?:.|\\n)+?)\\\\])?\\\\]"', '(?:\\\\[((?:.|\\n)*?)\\\\])?\\\\]"')], "a bracket link with an empty description", "text that is not a link according to the syntax is reported as a bracket link", '''
n = note("n.org", "[[https://a.example/a b][]]\\n[[https://a.example/c]]\\n")
b = B(EXE, "-org", n)
r = b.call("burl.linkSet", dict(prefix=["https"]))
need(sorted(r["result"]["urls"]) == ["https://a.example/a", "https://a.example/c"], r)
b.end()
''')

pydemo("c26-many-subdomains", "C26", [("pkg/burl_links/urlmatch_txt.go", "`\\.){0,16}(`", "`\\.){0,6}(`")], "a host name of nine parts", "the link is not recognized", '''
u = "https://a.b.c.d.e.f.g.example.com/x"
n = note("n.txt", "see %s now\\n" % u)
b = B(EXE, "-txt", n)
r = mentions(b, u)
need(r["error"] is None and links(r["result"]) == [u], r)
b.end()
''')

godemo("c27-not-reaped", "C27", [("pkg/webextensions/client.go", '''	errWait := c.Command.Wait()
	if errClose != nil {
		return errClose
	}
	return errWait
''', '''	if errClose != nil {
		return errClose
	}
	return c.Command.Wait()
''')], "the RPC client of the command has already been closed", "the started process is not waited for", "pkg/webextensions", '''package webextensions

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	c, err := NewClientCommand([]string{"sh", "-c", "exit 3"})
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond)
	c.Client.Close()
	if err := c.Close(); err == nil {
		t.Fatal("no error")
	}
	if c.Command.ProcessState == nil {
		t.Fatal("not waited for")
	}
}
''')

pydemo("c28-set-args", "C28", [("cmd/burl_tool/burl_tool.go", '''	if err != nil {
		return err
	}
	return nil
}

func main''', '''	if err != nil && group == nil {
		return err
	}
	return nil
}

func main''')], "one of the files is read with an error after others", "zero status though the operation failed", '''
a, bf = note("a.org", "[[https://a.example/x]]\\n"), note("b.org", "[[https://a.example/x]]\\n" + "w" * 100000 + "\\n[[https://a.example/x]]\\n")
T = os.path.join(W, "burl_tool")
r = subprocess.run([T, "-org", a, "-org", bf, "https://a.example/x"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
need(r.returncode != 0, r)
''', tools="cmd/burl_tool")

pydemo("c29-buffered-log", "C29", [(BB, '''		log.SetOutput(logFile)
''', '''		buffered := bufio.NewWriter(logFile)
		defer buffered.Flush()
		log.SetOutput(buffered)
'''), (BB, '''import (
''', '''import (
	"bufio"
''')], "the log is read, or the process is killed, while it serves", "messages do not get to the log file", '''
lg = os.path.join(W, "log")
b = B(EXE, "-log", lg, "-org", os.path.join(W, "missing.org"))
mentions(b, "https://a.example/x")
need("missing.org" in open(lg).read(), open(lg).read())
b.end()
''')
