// Stand-in for emacsclient: reports its arguments to the check through a unix
// socket, waits for a command and exits as it is told.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"net"
	"os"
	"strings"
	"syscall"
)

func main() {
	// files inherited from the backend
	fds := []string{}
	if ents, err := os.ReadDir("/proc/self/fd"); err == nil {
		for _, ent := range ents {
			link, err := os.Readlink("/proc/self/fd/" + ent.Name())
			if err != nil || len(ent.Name()) == 1 && ent.Name() < "3" ||
				strings.HasPrefix(link, "anon_inode:[event") || strings.HasPrefix(link, "/proc/") || strings.HasPrefix(link, "/sys/") ||
				strings.HasPrefix(link, "/usr/") || strings.HasPrefix(link, "/etc/") {
				continue
			}
			fds = append(fds, link)
		}
	}
	sock := os.Getenv("VERIF_EMACS_SOCK")
	conn, err := net.Dial("unix", sock)
	if err != nil {
		os.Exit(77)
	}
	args := make([]string, 0, len(os.Args))
	for _, a := range os.Args[1:] {
		args = append(args, hex.EncodeToString([]byte(a)))
	}
	in, _ := os.Readlink("/proc/self/fd/0")
	enc := json.NewEncoder(conn)
	enc.Encode(map[string]interface{}{"argv": args, "stdin": in, "pid": os.Getpid(), "fds": fds})
	line, err := bufio.NewReader(conn).ReadBytes('\n')
	if err != nil {
		os.Exit(78)
	}
	var cmd struct {
		Out  string `json:"out"`
		Err  string `json:"err"`
		Exit int    `json:"exit"`
		Sig  int    `json:"sig"`
		Read bool   `json:"read"`
	}
	if json.Unmarshal(line, &cmd) != nil {
		os.Exit(79)
	}
	if cmd.Read {
		var buf [1]byte
		os.Stdin.Read(buf[:])
	}
	os.Stdout.WriteString(cmd.Out)
	os.Stderr.WriteString(cmd.Err)
	if cmd.Sig != 0 {
		syscall.Kill(os.Getpid(), syscall.Signal(cmd.Sig))
		select {}
	}
	os.Exit(cmd.Exit)
}
