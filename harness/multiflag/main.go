// Applies values to a repeatable option and reports its state after each of them.
package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/maxnikulin/burl/pkg/burl_util"
)

type in struct {
	Defaults []string `json:"defaults"`
	Given    []string `json:"given"`
}
type state struct {
	List     []string `json:"list"`
	Modified []string `json:"modified"`
	Changed  bool     `json:"changed"`
	Err      bool     `json:"err"`
}

func cp(a []string) []string { return append([]string{}, a...) }

func get(f *burl_util.MultiStringFlag, slice *[]string, err error) state {
	return state{cp(*slice), cp(f.ModifiedValues()), f.IsModified(), err != nil}
}

func main() {
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	enc := json.NewEncoder(os.Stdout)
	for {
		var c in
		if dec.Decode(&c) != nil {
			return
		}
		slice := cp(c.Defaults)
		f := burl_util.NewMultiStringFlag(&slice)
		first := get(f, &slice, nil)
		steps := []state{}
		for _, v := range c.Given {
			err := f.Set(v)
			steps = append(steps, get(f, &slice, err))
		}
		again := cp(c.Defaults)
		g := burl_util.NewMultiStringFlag(&again)
		for _, v := range f.ModifiedValues() {
			if g.Set(v) != nil {
				again = append(again, "?refused")
			}
		}
		enc.Encode(map[string]interface{}{"kind": "option", "defaults": c.Defaults, "given": c.Given, "first": first,
			"steps": steps, "replayed": cp(again), "values": cp(f.Values())})
	}
}
