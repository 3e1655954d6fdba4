// Drives webextensions.NewClientCommand: commands are JSON lines on standard
// input, events are JSON lines on standard output.
package main

import (
	"bufio"
	"encoding/json"
	"io"
	"math"
	"os"
	"sync"
	"syscall"

	"github.com/maxnikulin/burl/pkg/webextensions"
)

type Op struct {
	Op     string          `json:"op"`
	Argv   []string        `json:"argv"`
	C      int             `json:"c"`
	Method string          `json:"method"`
	Param  json.RawMessage `json:"param"`
	Bad    string          `json:"bad"`
	Typ    bool            `json:"typ"`
}

func main() {
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	emit := func(v map[string]interface{}) {
		mu.Lock()
		defer mu.Unlock()
		enc.Encode(v)
	}
	text := func(err error) string {
		if err == nil {
			return ""
		}
		return "E" + err.Error()
	}
	var client *webextensions.ClientCommand
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadBytes('\n')
		if err == io.EOF {
			return
		}
		var op Op
		if err := json.Unmarshal(line, &op); err != nil {
			panic(err)
		}
		switch op.Op {
		case "start":
			client, err = webextensions.NewClientCommand(op.Argv)
			emit(map[string]interface{}{"e": "started", "err": text(err), "client": client != nil})
		case "go":
			go func() {
				var param interface{} = op.Param
				switch op.Bad {
				case "chan":
					param = make(chan int)
				case "nan":
					param = map[string]interface{}{"a": "text", "n": math.NaN()}
				case "func":
					param = []interface{}{1, func() {}}
				}
				if op.Typ {
					var reply int
					err := client.Call(op.Method, param, &reply)
					emit(map[string]interface{}{"e": "done", "c": op.C, "err": text(err), "result": reply})
				} else {
					var reply json.RawMessage
					err := client.Call(op.Method, param, &reply)
					emit(map[string]interface{}{"e": "done", "c": op.C, "err": text(err), "result": string(reply)})
				}
			}()
		case "close":
			go func() {
				pid := client.Command.Process.Pid
				err := client.Close()
				gone := syscall.Kill(pid, 0) == syscall.ESRCH
				emit(map[string]interface{}{"e": "closed", "err": text(err), "gone": gone})
			}()
		}
	}
}
