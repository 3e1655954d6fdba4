// Links of texts found by pkg/burl_links: one JSON request per line of stdin.
package main

import (
	"bufio"
	"encoding/json"
	"os"
	"strings"

	"github.com/maxnikulin/burl/pkg/burl_links"
)

type Req struct {
	Kind    string   `json:"kind"` // org or txt
	Text    string   `json:"text"`
	Schemes []string `json:"schemes"`
}

type Link struct {
	U string `json:"u"`
	D string `json:"d"`
	N int    `json:"n"`
}

type Res struct {
	Err   bool   `json:"err"`
	Links []Link `json:"links"`
}

func run(q *Req) Res {
	res := Res{Links: []Link{}}
	if len(q.Schemes) > 0 {
		if err := burl_links.UpdateRe(q.Schemes); err != nil {
			res.Err = true
			return res
		}
	}
	var src burl_links.TextLinkSource = burl_links.TxtLinkSource("x")
	if q.Kind == "org" {
		src = burl_links.OrgLinkSource("x")
	}
	tree, err := src.Extract(strings.NewReader(q.Text), nil)
	if err != nil {
		res.Err = true
		return res
	}
	if tree != nil {
		burl_links.ForEachLink(tree, func(l *burl_links.Link) bool {
			res.Links = append(res.Links, Link{l.URL, l.Description, l.LineNo})
			return true
		})
	}
	return res
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(os.Stdout)
	for {
		var q Req
		if dec.Decode(&q) != nil {
			return
		}
		enc.Encode(run(&q))
	}
}
