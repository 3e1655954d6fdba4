// Stand-in for the backend binary: appends its arguments to a file.
package main

import (
	"encoding/hex"
	"encoding/json"
	"os"
)

func main() {
	args := make([]string, 0, len(os.Args))
	for _, a := range os.Args[1:] {
		args = append(args, hex.EncodeToString([]byte(a)))
	}
	exe, _ := os.Readlink("/proc/self/exe")
	cwd, _ := os.Getwd()
	f, err := os.OpenFile(os.Getenv("VERIF_ARGV_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
	if err != nil {
		os.Exit(77)
	}
	json.NewEncoder(f).Encode(map[string]interface{}{"argv": args, "exe": hex.EncodeToString([]byte(exe)), "cwd": cwd})
	f.Close()
}
