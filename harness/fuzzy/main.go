// Distances and ranked search of pkg/burl_fuzzy, JSON lines on stdin and stdout.
package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/maxnikulin/burl/pkg/burl_fuzzy"
)

type Req struct {
	P     string   `json:"p"`
	Ts    []string `json:"ts"`
	Words []string `json:"words"`
	Urls  []string `json:"urls"`
	Limit *int     `json:"limit"`
	Tol   *int     `json:"tol"`
}

type Item struct {
	U string `json:"u"`
	D int    `json:"d"`
}

type Res struct {
	Ds  []int  `json:"ds"`
	Out []Item `json:"out"`
}

func main() {
	dec := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	enc := json.NewEncoder(os.Stdout)
	for {
		var q Req
		if dec.Decode(&q) != nil {
			return
		}
		res := Res{Ds: []int{}, Out: []Item{}}
		for _, t := range q.Ts {
			res.Ds = append(res.Ds, int(burl_fuzzy.SearchDistanceDL(q.P, t)))
		}
		if q.Words != nil {
			var tol *burl_fuzzy.EditorDistance
			if q.Tol != nil {
				v := burl_fuzzy.EditorDistance(*q.Tol)
				tol = &v
			}
			h := burl_fuzzy.ProcessUrlSource(q.Words, func(cb func(string) bool) {
				for _, u := range q.Urls {
					if !cb(u) {
						break
					}
				}
			}, q.Limit, tol)
			// worst first
			for i := len(h) - 1; i >= 0; i-- {
				res.Out = append(res.Out, Item{h[i].Word, int(h[i].Weight)})
			}
		}
		enc.Encode(res)
	}
}
