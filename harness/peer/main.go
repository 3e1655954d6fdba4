// A backend driven by the check: requests it gets go to a unix socket, bytes
// it sends come from there.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"io"
	"net"
	"os"
	"os/signal"
	"strconv"
	"sync"
	"syscall"
)

func main() {
	conn, err := net.Dial("unix", os.Args[1])
	if err != nil {
		os.Exit(77)
	}
	var mu sync.Mutex
	send := func(kind byte, data []byte) {
		mu.Lock()
		defer mu.Unlock()
		head := make([]byte, 5)
		head[0] = kind
		binary.LittleEndian.PutUint32(head[1:], uint32(len(data)))
		conn.Write(append(head, data...))
	}
	signal.Ignore(syscall.SIGPIPE)
	argv, _ := json.Marshal(os.Args)
	send('A', argv)
	deaf := false
	syscall.SetNonblock(0, true)
	input := os.NewFile(0, "input")
	go func() {
		buf := make([]byte, 65536)
		for {
			n, err := input.Read(buf)
			if n > 0 {
				send('D', buf[:n])
			}
			if err != nil {
				mu.Lock()
				d := deaf
				mu.Unlock()
				if !d {
					send('E', nil)
				}
				return
			}
		}
	}()
	in := bufio.NewReader(conn)
	head := make([]byte, 5)
	for {
		if _, err := io.ReadFull(in, head); err != nil {
			os.Exit(78)
		}
		data := make([]byte, binary.LittleEndian.Uint32(head[1:]))
		if _, err := io.ReadFull(in, data); err != nil {
			os.Exit(78)
		}
		switch head[0] {
		case 'W':
			os.Stdout.Write(data)
		case 'C':
			os.Stdout.Close()
		case 'F':
			mu.Lock()
			deaf = true
			mu.Unlock()
			input.Close()
			send('F', nil)
		case 'X':
			n, _ := strconv.Atoi(string(data))
			os.Exit(n)
		case 'K':
			n, _ := strconv.Atoi(string(data))
			syscall.Kill(os.Getpid(), syscall.Signal(n))
			select {}
		}
	}
}
