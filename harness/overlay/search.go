package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// Search is not published, so it is called directly.
func init() {
	if os.Getenv("VERIF_SEARCH") == "" {
		return
	}
	args := BurlBackendArgs{}
	for _, name := range os.Args[1:] {
		args.LinkSources = append(args.LinkSources, burl_links.OrgLinkSource(name))
	}
	backend := NewBurlBackendPtr(&args)
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	enc := json.NewEncoder(os.Stdout)
	for {
		var q burl_rpc.SearchQuery
		if dec.Decode(&q) != nil {
			os.Exit(0)
		}
		reply := []burl_rpc.ReplyRecord{}
		err := backend.Search(&q, &reply)
		res := map[string]interface{}{"err": err != nil}
		urls := []string{}
		for _, r := range reply {
			urls = append(urls, r.Url)
		}
		res["out"] = urls
		enc.Encode(res)
	}
}
