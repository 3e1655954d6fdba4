#!/usr/bin/env python3
"""Planted bugs, third series: python3 tools/bugs3.py [ID...]"""
import sys
sys.path.insert(0, "/verif/tools")
src = open("/verif/tools/bugs2.py").read()
exec(src[:src.index('pydemo("c01-large-newline"')])
LS, IN, AR, SV = "pkg/burl_links/link_source.go", "cmd/burl_backend/install.go", "cmd/burl_backend/args.go", "pkg/webextensions/server.go"

FDS = '''
def fds(b):
    return len(os.listdir("/proc/%d/fd" % b.p.pid))
def children(b):
    with open("/proc/%d/task/%d/children" % (b.p.pid, b.p.pid)) as f:
        own = f.read().split()
    r = subprocess.run(["ps", "-o", "pid=", "--ppid", str(b.p.pid)], stdout=subprocess.PIPE).stdout.split()
    return r
'''

pydemo("c31-open-after-error", "C31", [(LS, '''			reader = file
			defer file.Close()
		}
		err = src.ExtractSet(reader, filters, &result)
		if err != nil {
			break
		}
''', '''			reader = file
		}
		err = src.ExtractSet(reader, filters, &result)
		if err != nil {
			break
		}
		// Do not keep files open till all of them are processed.
		if file, ok := reader.(io.Closer); ok && name != "-" {
			file.Close()
		}
''')], "a note file that can be opened but not read", "the file stays open after the request for a link set failed", FDS + '''
n = note("n.org", "* H\\n[[https://a.example/x][d]]\\n")
os.mkdir(os.path.join(W, "d.org"))
b = B(EXE, "-org", n, "-org", os.path.join(W, "d.org"))
need(b.call("hello", HELLO)["error"] is None)
r = b.call("burl.linkSet", dict(prefix=["https:"]))
need(r["error"], r)
base = fds(b)
for k in range(20):
    need(b.call("burl.linkSet", dict(prefix=["https:"]))["error"])
need(fds(b) < base + 10, base, fds(b))
b.end()
''')

pydemo("c31-early-answer", "C31", [(EM, '''	out, err := cmd.CombinedOutput()
	if err != nil {
		if''', '''	stdout, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return []byte{}, err
	}
	out, err := ioutil.ReadAll(stdout)
	if bytes.Contains(out, []byte("can't find socket")) {
		log.Println("burl_emacs.exec", string(out))
		return []byte{}, EmacsServerNotFoundError
	}
	if e := cmd.Wait(); err == nil {
		err = e
	}
	if err != nil {
		if'''), (EM, '''	"log"
''', '''	"io/ioutil"
	"log"
''')], "Emacs server is not running", "zombies of clients that have not found the server", FDS + '''
e = emacs("echo \\"emacsclient: can't find socket\\" >&2\\nexit 9\\n")
n = note("n.org", "* H\\n")
b = B(EXE, "-emacsclient", e, "-org", n)
for k in range(5):
    r = b.call("burl.visit", dict(file=n, lineNo=1))
    need("not running" in str(r["error"]), r)
time.sleep(0.5)
need(not children(b), children(b))
b.end()
''')

pydemo("c31-watchdog", "C31", [(EM, '''	cmd := exec.Command(Command, allArgs...)
	out, err := cmd.CombinedOutput()
	if err != nil {''', '''	cmd := exec.Command(Command, allArgs...)
	done := make(chan bool)
	go func() {
		select {
		case <-done:
		case <-time.After(time.Hour):
			log.Println("burl_emacs.exec: slow client")
		}
	}()
	out, err := cmd.CombinedOutput()
	if err != nil {'''), (EM, '''	return out, nil
}

func EnsureFrame''', '''	done <- true
	return out, err
}

func EnsureFrame'''), (EM, '''	"strings"
''', '''	"strings"
	"time"
''')], "an Emacs client that fails", "a goroutine for each failed client stays for an hour", '''
import signal
e = emacs("exit 3\\n")
n = note("n.org", "* H\\n")
err = open(os.path.join(W, "err"), "wb+")
b = B(EXE, "-emacsclient", e, "-org", n, stderr=err, env=dict(os.environ, GOTRACEBACK="all"))
for k in range(50):
    need(b.call("burl.visit", dict(file=n, lineNo=1))["error"])
time.sleep(0.5)
b.p.send_signal(signal.SIGQUIT)
b.p.wait(20)
err.seek(0)
g = err.read().count(b"\\ngoroutine ")
need(0 < g < 25, g)
''')

pydemo("c32-term-grace", "C32", [(BB, '''	if err := burl_emacs.VisitFile(query.FilePath, query.LineNo); err != nil {
''', '''	// Let Emacs open the file even if the browser is closed at this moment.
	term := make(chan os.Signal, 1)
	signal.Notify(term, syscall.SIGTERM)
	defer func() {
		signal.Stop(term)
		select {
		case <-term:
			os.Exit(0)
		default:
		}
	}()
	if err := burl_emacs.VisitFile(query.FilePath, query.LineNo); err != nil {
'''), (BB, '''	*result = true
	return nil
}

func (b *BurlBackend) Search''', '''	*result = !false
	return nil
}

func (b *BurlBackend) Search'''), (BB, '''	"os"
	"strings"
	"sync"
''', '''	"os"
	"os/signal"
	"strings"
	"sync"
	"syscall"
''')], "SIGTERM while a file is being opened in Emacs that does not answer", "the backend does not end", '''
import signal
e = emacs("exec sleep 30\\n")
n = note("n.org", "* H\\n")
b = B(EXE, "-emacsclient", e, "-org", n)
b.send(fr(dict(id=1, method="burl.visit", params=[dict(file=n, lineNo=1)])))
time.sleep(1)
b.p.send_signal(signal.SIGTERM)
t = time.time()
while b.p.poll() is None and time.time() < t + 8:
    time.sleep(0.1)
ended = b.p.poll() is not None
b.p.kill()
subprocess.run(["pkill", "-f", "^sleep 30$"]) if False else None
need(ended, "still running")
''')

pydemo("c32-own-output", "C32", [(BB, '''	rpc.ServeCodec(webextensions.NewServerCodecSplit(
		os.Stdin, os.Stdout,''', '''	// Stray output to stdout should not break the protocol.
	outFd, err := syscall.Dup(1)
	if err != nil {
		return err
	}
	syscall.CloseOnExec(outFd)
	out := os.NewFile(uintptr(outFd), "out")
	os.Stdout = os.Stderr
	rpc.ServeCodec(webextensions.NewServerCodecSplit(
		os.Stdin, out,'''), (BB, '''	"sync"
''', '''	"sync"
	"syscall"
''')], "the browser stops reading but keeps the other pipe open", "the backend does not end when its responses can not be delivered", '''
n = note("n.org", "* H\\n")
b = B(EXE, "-org", n)
need(b.call("hello", HELLO)["error"] is None)
b.p.stdout.close()
t = time.time()
k = 0
while b.p.poll() is None and time.time() < t + 6:
    k += 1
    try:
        b.send(fr(dict(id=k + 2, method="hello", params=[HELLO])))
    except OSError:
        pass
    time.sleep(0.1)
ended = b.p.poll() is not None
b.p.kill()
need(ended, "still running")
''')

pydemo("c32-waits-for-rest", "C32", [(FO, '''	var size uint32
	if err := binary.Read(r, NativeEndian, &size); err != nil {
		return err
	}
	if''', '''	var header [4]byte
	for got := 0; got < len(header); {
		n, err := r.Read(header[got:])
		got += n
		// The rest of the header may be delayed.
		if err != nil && got == 0 {
			return err
		}
	}
	size := NativeEndian.Uint32(header[:])
	if'''), (FO, '''import (
	"bytes"
''', '''import (
	"bytes"
''')], "input that ends inside of a header", "the backend runs at full speed and does not end", '''
b = B(EXE)
b.send(b"\\x05\\x00")
b.p.stdin.close()
t = time.time()
while b.p.poll() is None and time.time() < t + 6:
    time.sleep(0.1)
ended = b.p.poll() is not None
b.p.kill()
need(ended, "still running")
''')

START = '''
def run(*argv):
    p = subprocess.run([EXE] + list(argv), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=W, timeout=30)
    return p.returncode, p.stdout, p.stderr
'''
pydemo("c33-two-documents", "C33", [(IN, '''		if f == "-" {
			toStdout++
		}
''', '''		if nonEmpty > 1 && f == "-" {
			toStdout++
		}
''')], "both manifests are requested on standard output without a wrapper", "two documents are printed to standard output", START + '''
c, out, err = run("-manifest-firefox", "-", "-manifest-chrome", "-")
need(c != 0 and out == b"", c, out)
''')

pydemo("c33-scheme-ignored", "C33", [(AR, '''		a.Scheme.IsModified() ||
''', '''		len(a.Scheme.ModifiedValues()) > 1 ||
''')], "a manifest without a wrapper and one additional scheme", "the requested scheme is silently ignored", START + '''
c, out, err = run("-manifest-firefox", "-", "-scheme", "tel")
need(c != 0 and out == b"", c, out)
''')

pydemo("c33-log-of-failed-start", "C33", [(BB, '''	backendFlags.LinkSources = burl_links.AddSourceArgs(backendFlags.LinkSources, flag.Args())
	if helpers''', '''	backendFlags.LinkSources = burl_links.AddSourceArgs(backendFlags.LinkSources, flag.Args())
	if f := backendFlags.LogFile; f != "" && f != "-" {
		// Check early that the log is writable.
		if file, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600); err != nil {
			return fmt.Errorf("open log: %w", err)
		} else {
			file.Close()
		}
	}
	if helpers''', ), (BB, '''		// https://stackoverflow.com/questions/10571182/go-disable-a-log-logger
''', '''		// No log.
''')], "an installation with a log file", "installation creates the log file", START + '''
c, out, err = run("-wrapper", os.path.join(W, "w"), "-log", os.path.join(W, "log"))
need(c == 0 and not os.path.exists(os.path.join(W, "log")), c, err)
''')
