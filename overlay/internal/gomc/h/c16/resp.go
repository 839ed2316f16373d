package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"

	"vsa/internal/gomc/fredis"
)

func gxSha1hex(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:])
}

// listen serves RESP2 on the loopback interface, outside the scheduler.
func (r *gxRedis) listen() {
	r.sha = map[string]string{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	r.addr = l.Addr().String()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go r.serve(c)
		}
	}()
}

func (r *gxRedis) serve(c net.Conn) {
	defer c.Close()
	in, out := bufio.NewReader(c), bufio.NewWriter(c)
	line := func() (string, error) {
		s, err := in.ReadString('\n')
		return strings.TrimSuffix(s, "\r\n"), err
	}
	for {
		h, err := line()
		if err != nil || len(h) < 2 || h[0] != '*' {
			return
		}
		n, _ := strconv.Atoi(h[1:])
		var args []string
		for i := 0; i < n; i++ {
			h, err := line()
			if err != nil || h[0] != '$' {
				return
			}
			l, _ := strconv.Atoi(h[1:])
			b := make([]byte, l+2)
			if _, err := io.ReadFull(in, b); err != nil {
				return
			}
			args = append(args, string(b[:l]))
		}
		if len(args) == 0 {
			return
		}
		v, lost := r.command(args)
		if lost {
			return
		}
		gxReply(out, v)
		if in.Buffered() == 0 {
			out.Flush()
		}
	}
}

func gxReply(w io.Writer, v any) {
	switch x := v.(type) {
	case nil:
		fmt.Fprint(w, "$-1\r\n")
	case int64:
		fmt.Fprintf(w, ":%d\r\n", x)
	case string:
		fmt.Fprintf(w, "$%d\r\n%s\r\n", len(x), x)
	case fredis.Status:
		fmt.Fprintf(w, "+%s\r\n", string(x))
	case fredis.Err:
		fmt.Fprintf(w, "-%s\r\n", string(x))
	case []any:
		fmt.Fprintf(w, "*%d\r\n", len(x))
		for _, y := range x {
			gxReply(w, y)
		}
	default:
		fmt.Fprintf(w, "-ERR unexpected reply %T\r\n", v)
	}
}
