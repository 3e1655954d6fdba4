// Runs the server and client codecs of pkg/webextensions over a reader that
// returns exactly the requested pieces of a byte stream.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"net/rpc"
	"net/rpc/jsonrpc"
	"os"
	"sync"
	"time"

	"github.com/maxnikulin/burl/pkg/webextensions"
)

type Case struct {
	Id      int      `json:"id"`
	Mode    string   `json:"mode"` // server or client
	Max     uint32   `json:"max"`
	Chunks  []string `json:"chunks"`
	Open    bool     `json:"open"`    // no EOF after the last chunk
	EofData bool     `json:"eofdata"` // EOF together with the last chunk
	Want    int      `json:"want"`    // number of responses to wait for
	WaitEnd bool     `json:"waitend"`
	Calls   []string `json:"calls"` // client mode
	Timeout int      `json:"timeout"`
}

type Result struct {
	Id    int               `json:"id"`
	Out   string            `json:"out"`
	Ended bool              `json:"ended"`
	Read  int               `json:"read"`
	Calls map[string]string `json:"calls,omitempty"`
}

type chunkReader struct {
	sync.Mutex
	chunks  [][]byte
	open    bool
	eofData bool
	gate    chan struct{}
	closed  chan struct{}
	once    sync.Once
	read    int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.gate != nil {
		<-r.gate
	}
	r.Lock()
	defer r.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.chunks) == 0 {
		if r.open {
			r.Unlock()
			<-r.closed
			r.Lock()
			return 0, errors.New("closed")
		}
		return 0, io.EOF
	}
	n := copy(p, r.chunks[0])
	r.read += n
	r.chunks[0] = r.chunks[0][n:]
	if len(r.chunks[0]) == 0 {
		r.chunks = r.chunks[1:]
		if len(r.chunks) == 0 && r.eofData && !r.open {
			return n, io.EOF
		}
	}
	return n, nil
}

func (r *chunkReader) Close() error {
	r.once.Do(func() { close(r.closed) })
	return nil
}

type collector struct {
	sync.Mutex
	data []byte
	ch   chan struct{}
}

func (c *collector) Write(p []byte) (int, error) {
	c.Lock()
	c.data = append(c.data, p...)
	c.Unlock()
	select {
	case c.ch <- struct{}{}:
	default:
	}
	return len(p), nil
}
func (c *collector) Close() error { return nil }
func (c *collector) frames() int {
	c.Lock()
	defer c.Unlock()
	d, n := c.data, 0
	for len(d) >= 4 {
		l := int(webextensions.NativeEndian.Uint32(d[:4]))
		if len(d) < 4+l {
			break
		}
		d = d[4+l:]
		n++
	}
	return n
}

type T struct{}

func (*T) Echo(s string, reply *string) error { *reply = s; return nil }
func (*T) Fail(s string, reply *string) error { return errors.New("fail " + s) }

func decode(chunks []string) (res [][]byte) {
	for _, c := range chunks {
		b, err := hex.DecodeString(c)
		if err != nil {
			panic(err)
		}
		if len(b) > 0 {
			res = append(res, b)
		}
	}
	return
}

func run(c *Case) *Result {
	timeout := time.Duration(c.Timeout) * time.Millisecond
	if timeout == 0 {
		timeout = 10 * time.Second
	}
	res := &Result{Id: c.Id}
	in := &chunkReader{chunks: decode(c.Chunks), open: c.Open, eofData: c.EofData, closed: make(chan struct{})}
	out := &collector{ch: make(chan struct{}, 1)}
	done := make(chan struct{})
	deadline := time.After(timeout)
	if c.Mode == "client" {
		in.gate = make(chan struct{})
		client := rpc.NewClientWithCodec(webextensions.NewClientCodecSplit(in, out, jsonrpc.NewClientCodec))
		res.Calls = map[string]string{}
		calls := make([]*rpc.Call, len(c.Calls))
		for i, s := range c.Calls {
			calls[i] = client.Go("T.Echo", s, new(string), make(chan *rpc.Call, 1))
		}
		close(in.gate)
		for i, s := range c.Calls {
			select {
			case <-calls[i].Done:
				if calls[i].Error != nil {
					res.Calls[s] = "error"
				} else {
					res.Calls[s] = "=" + *(calls[i].Reply.(*string))
				}
			case <-deadline:
				res.Calls[s] = "hang"
			}
		}
		client.Close()
		res.Ended = true
	} else {
		server := rpc.NewServer()
		server.RegisterName("T", new(T))
		go func() {
			server.ServeCodec(webextensions.NewServerCodecSplit(in, out,
				webextensions.MappedServerCodecFactory(map[string]string{"echo": "T.Echo", "fail": "T.Fail"}, jsonrpc.NewServerCodec)))
			close(done)
		}()
		if c.WaitEnd {
			select {
			case <-done:
				res.Ended = true
			case <-deadline:
			}
		} else {
			for out.frames() < c.Want {
				select {
				case <-out.ch:
					continue
				case <-done:
					res.Ended = true
				case <-deadline:
				}
				break
			}
			select {
			case <-done:
				res.Ended = true
			case <-time.After(30 * time.Millisecond):
			}
			in.Close()
		}
	}
	in.Lock()
	res.Read = in.read
	in.Unlock()
	out.Lock()
	res.Out = hex.EncodeToString(out.data)
	out.Unlock()
	return res
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "max" {
		json.NewEncoder(os.Stdout).Encode(webextensions.MaxInSize)
		return
	}
	dec := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	enc := json.NewEncoder(os.Stdout)
	var batch []*Case
	for {
		c := &Case{}
		if err := dec.Decode(c); err != nil {
			break
		}
		batch = append(batch, c)
	}
	// MaxInSize is a global, so the cases are grouped by its value.
	byMax := map[uint32][]*Case{}
	var order []uint32
	for _, c := range batch {
		if _, ok := byMax[c.Max]; !ok {
			order = append(order, c.Max)
		}
		byMax[c.Max] = append(byMax[c.Max], c)
	}
	def := webextensions.MaxInSize
	for _, max := range order {
		webextensions.MaxInSize = def
		if max != 0 {
			webextensions.MaxInSize = max
		}
		results := make([]*Result, len(byMax[max]))
		sem := make(chan struct{}, 16)
		var wg sync.WaitGroup
		for i, c := range byMax[max] {
			wg.Add(1)
			sem <- struct{}{}
			go func(i int, c *Case) {
				defer wg.Done()
				results[i] = run(c)
				<-sem
			}(i, c)
		}
		wg.Wait()
		for _, r := range results {
			enc.Encode(r)
		}
	}
}
