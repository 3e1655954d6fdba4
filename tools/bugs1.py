#!/usr/bin/env python3
import sys
sys.path.insert(0, "/verif/tools")
from mkbug import bug
NM = open("/verif/tools/nm.py").read()
RUN = 'go build -o "$work/burl_backend" ./cmd/burl_backend || exit 98\ntimeout 120 python3 "$here/demo.py" "$work"\n'
PRE = "import os, sys, json, struct, time, threading\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom nm import *\nW = sys.argv[1]\nEXE = os.path.join(W, 'burl_backend')\n"


def pydemo(id, prop, edits, needs, breaks, code):
    bug(id, prop, edits, needs, breaks, RUN, {"demo.py": PRE + code, "nm.py": NM})


pydemo("c03-header-short-read", "C03", [("pkg/webextensions/frame.go", '''	if err := binary.Read(r, NativeEndian, &size); err != nil {
		return err
	}
''', '''	var header [4]byte
	if n, err := r.Read(header[:]); n == 0 && err != nil {
		return err
	}
	size = NativeEndian.Uint32(header[:])
''')], "a length header delivered by two reads", "frame length is computed from a part of the header", '''
b = B(EXE)
f = fr(dict(id=5, method="hello", params=[HELLO]))
b.send(f[:1]); time.sleep(0.3); b.send(f[1:])
time.sleep(0.2)
out, rc = b.end()
need(len(out) > 4 and json.loads(out[4:])["id"] == 5, out, rc)
''')
pydemo("c04-limit-off-by-one", "C04", [("pkg/webextensions/frame.go", "	if size > MaxInSize {", "	if size >= MaxInSize {")],
       "a frame of exactly the maximal size", "frame of exactly the limit is refused", '''
b = B(EXE)
need(b.call("hello", HELLO)["id"] == 1)
b.send(struct.pack("=I", 2**30))
time.sleep(0.5)
need(b.p.poll() is None, "refused")
b.end()
''')
pydemo("c05-dotted-names", "C05", [("pkg/webextensions/server.go", '''		name = "unknown." + r.ServiceMethod
''', '''		name = r.ServiceMethod
		if !strings.Contains(name, ".") {
			name = "unknown." + name
		}
'''), ("pkg/webextensions/server.go", '''	"io"
	"net/rpc"
''', '''	"io"
	"net/rpc"
	"strings"
''')], "a request for the internal name of an operation", "operations are callable by names that are not published, including the not published search", '''
open(os.path.join(W, "n.org"), "w").write("* H\\n[[https://a.example/x][d]]\\n")
b = B(EXE, "-org", os.path.join(W, "n.org"))
for name in ("Burl.Hello", "Burl.Search"):
    r = b.call(name, dict(HELLO, q="example"))
    need(r["error"] is not None and r["result"] is None, r)
b.end()
''')
pydemo("c02-shared-reply", "C02", [("cmd/burl_backend/burl_backend.go", '''	linkSetImpl func([]burl_links.TextLinkSource, []string, *burl_rpc.LinkSetResponse) error
}
''', '''	linkSetImpl func([]burl_links.TextLinkSource, []string, *burl_rpc.LinkSetResponse) error
	hello       burl_rpc.HelloResponse
}
'''), ("cmd/burl_backend/burl_backend.go", "sync.Once{}, nil, nil}", "sync.Once{}, nil, nil, burl_rpc.HelloResponse{}}"),
 ("cmd/burl_backend/burl_backend.go", '''	reply.Format = format
	reply.Version = version
''', '''	b.hello.Format = format
	b.hello.Version = version
	*reply = b.hello
	reply.Version = b.hello.Version
''')], "several hello requests processed at the same time", "a hello response may carry the version of another request", '''
for _ in range(20):
    b = B(EXE)
    N = 400
    data = b""
    for i in range(N):
        data += fr(dict(id=i, method="hello", params=[{"formats": [{"format": "org-protocol", "version": "v%d" % i}], "version": "1"}]))
    threading.Thread(target=b.send, args=(data,), daemon=True).start()
    for i in range(N):
        r = b.recv()
        need(r["result"]["version"] == "v%d" % r["id"], r)
    b.end()
''')
