// Package simnet puts a simulated network (and a limit on the size of written
// files) under the instrumented table generator: net/http's transport is the
// real one, its connections are scripts.
package simnet

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/signal"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/maporder"
)

// Plan is the script of one generator process.
type Plan struct {
	MapSeed  uint64                `json:"map_seed"`
	MapOrder string                `json:"map_order"`
	FileMax  int64                 `json:"file_max"` // >0: no file grows beyond that
	URLs     map[string][]Response `json:"urls"`     // answers to the 1st, 2nd, ... request; the last one repeats
	Log      string                `json:"log"`      // where the requests that were made are noted
	Disk     *DiskFault            `json:"disk,omitempty"`
}

// DiskFault is an operation on an output file that fails.
type DiskFault struct {
	Op    string `json:"op"`    // write: fails at byte At; close: fails and loses what is beyond At; rename
	Dir   string `json:"dir"`   // directory of the output
	Base  string `json:"base"`  // its name
	Other string `json:"other"` // another output in that directory
	At    int    `json:"at"`
	Err   string `json:"err"` // EIO ENOSPC EDQUOT
}

var written = map[string]int{}

// Disk is consulted before the generator writes or renames and after it closes
// a file. Files of other names in the directory of the output (temporary ones)
// count as the output.
func Disk(op, name string, n int) (int, error) {
	if plan == nil || plan.Disk == nil {
		return n, nil
	}
	f := plan.Disk
	dir, base := filepath.Split(name)
	if filepath.Base(filepath.Clean(dir)) != f.Dir || base == f.Other {
		return n, nil
	}
	mu.Lock()
	defer mu.Unlock()
	at := written[name]
	if op == "write" {
		written[name] += n
	}
	if op != f.Op {
		return n, nil
	}
	switch op {
	case "write":
		if at+n <= f.At {
			return n, nil
		}
		n = max(0, f.At-at)
	case "close":
		if at == 0 {
			return n, nil
		}
		if err := os.Truncate(name, int64(min(f.At, at))); err != nil {
			fatal(err)
		}
	}
	note("%s: disk %s %s", base, op, f.Err)
	switch f.Err {
	case "ENOSPC":
		return n, syscall.ENOSPC
	case "EDQUOT":
		return n, syscall.EDQUOT
	}
	return n, syscall.EIO
}

// Response is what happens to one request.
type Response struct {
	Tag    string `json:"tag,omitempty"`  // name of the fault, for the log
	Dial   string `json:"dial,omitempty"` // connecting fails: refused timeout dns unreachable tls
	Raw    string `json:"raw,omitempty"`  // file holding the bytes sent
	Cut    int    `json:"cut"`            // only that many bytes are sent (-1: all)
	Pieces []int  `json:"pieces"`         // sizes of the pieces in which they arrive, cyclic
	End    string `json:"end"`            // keep: connection stays; close reset timeout crash
	Room   int64  `json:"room,omitempty"` // >0: from this request to the next one no file grows beyond that
}

var (
	mu      sync.Mutex
	plan    *Plan
	seen    = map[string]int{}
	pending = map[string][]*Response{}
	logf    *os.File
	fatal   = func(err error) {
		fmt.Fprintln(os.Stderr, "simnet:", err)
		os.Exit(113)
	}
)

// Install is called before the generator's main.
func Install() {
	file := os.Getenv("SIMNET_PLAN")
	if file == "" {
		return
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err)
	}
	plan = &Plan{}
	if err := json.Unmarshal(b, plan); err != nil {
		fatal(err)
	}
	maporder.Seed, maporder.Order = plan.MapSeed, plan.MapOrder
	if logf, err = os.OpenFile(plan.Log, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644); err != nil {
		fatal(err)
	}
	if plan.FileMax > 0 {
		signal.Ignore(syscall.SIGXFSZ)
		l := syscall.Rlimit{Cur: uint64(plan.FileMax), Max: uint64(plan.FileMax)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			fatal(err)
		}
	}
	t := http.DefaultTransport.(*http.Transport)
	t.Proxy = begin
	t.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) { return dial(network, addr, "http") }
	t.DialTLSContext = func(ctx context.Context, network, addr string) (net.Conn, error) { return dial(network, addr, "https") }
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(context.Context, string, string) (net.Conn, error) {
		return nil, errors.New("simulated network: no resolver")
	}}
}

func note(format string, a ...any) { fmt.Fprintf(logf, format+"\n", a...) }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// begin sees every attempt at a request before a connection is looked for, and
// decides what happens to it; failures to connect happen here.
func begin(req *http.Request) (*url.URL, error) {
	u := req.URL.String()
	mu.Lock()
	defer mu.Unlock()
	n := seen[u]
	seen[u]++
	rs := plan.URLs[u]
	r := &Response{Cut: -1, End: "keep"}
	switch {
	case len(rs) == 0:
		note("%s request %d: missing", u, n)
	case n < len(rs):
		r = &rs[n]
	default:
		r = &rs[len(rs)-1]
	}
	if len(rs) > 0 {
		note("%s request %d: %s", u, n, r.Tag)
	}
	room(r.Room)
	op := func(err error) (*url.URL, error) {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: addr(req.URL.Host), Err: err}
	}
	switch r.Dial {
	case "":
	case "refused":
		return op(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case "unreachable":
		return op(os.NewSyscallError("connect", syscall.ENETUNREACH))
	case "timeout":
		return op(timeout{})
	case "dns":
		return op(&net.DNSError{Err: "no such host", Name: req.URL.Host, IsNotFound: true})
	case "tls":
		return nil, errors.New("tls: failed to verify certificate: x509: certificate has expired or is not yet valid")
	default:
		fatal(fmt.Errorf("unknown dial fault %q", r.Dial))
	}
	pending[u] = append(pending[u], r)
	return nil, nil
}

var limited bool

// room limits the size of files, as a disk does that is full until the next
// request is made.
func room(n int64) {
	if n <= 0 && !limited || plan.FileMax > 0 {
		return
	}
	l := syscall.Rlimit{Cur: uint64(n), Max: ^uint64(0)}
	if limited = n > 0; !limited {
		l.Cur = l.Max
	}
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		fatal(err)
	}
}

func dial(network, a, scheme string) (net.Conn, error) {
	c := &conn{scheme: scheme, addr: addr(a)}
	c.cond = sync.NewCond(&c.mu)
	return c, nil
}

type conn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	scheme string
	addr   addr
	in     []byte // request bytes not yet answered
	out    []byte // response bytes not yet delivered
	pieces []int
	piece  int
	end    string
	closed bool
}

func (c *conn) answer(req *http.Request) {
	u := c.scheme + "://" + req.Host + req.URL.RequestURI()
	mu.Lock()
	defer mu.Unlock()
	q := pending[u]
	if len(q) == 0 {
		fatal(fmt.Errorf("request for %s was not announced", u))
	}
	r := q[0]
	pending[u] = q[1:]
	if r.Raw == "" {
		c.out = append(c.out, "HTTP/1.1 404 Not Found\r\nContent-Type: text/html\r\nContent-Length: 22\r\n\r\n<html>not found</html>"...)
		c.pieces, c.end = nil, "keep"
		return
	}
	raw, err := os.ReadFile(r.Raw)
	if err != nil {
		fatal(err)
	}
	if r.Cut >= 0 && r.Cut < len(raw) {
		raw = raw[:r.Cut]
	}
	c.out, c.pieces, c.piece, c.end = raw, r.Pieces, 0, r.End
}

func (c *conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	c.in = append(c.in, p...)
	for {
		i := bytes.Index(c.in, []byte("\r\n\r\n"))
		if i < 0 {
			break
		}
		req, err := http.ReadRequest(newBuf(c.in[:i+4]))
		if err != nil {
			fatal(err)
		}
		c.in = c.in[i+4:]
		c.answer(req)
	}
	c.cond.Broadcast()
	return len(p), nil
}

func (c *conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(c.out) > 0 {
			n := len(c.out)
			if len(c.pieces) > 0 {
				if k := c.pieces[c.piece%len(c.pieces)]; k > 0 && k < n {
					n = k
				}
				c.piece++
			}
			n = copy(p, c.out[:n])
			c.out = c.out[n:]
			return n, nil
		}
		switch c.end {
		case "close":
			return 0, io.EOF
		case "reset":
			return 0, &net.OpError{Op: "read", Net: "tcp", Addr: c.addr, Err: os.NewSyscallError("read", syscall.ECONNRESET)}
		case "timeout":
			return 0, &net.OpError{Op: "read", Net: "tcp", Addr: c.addr, Err: timeout{}}
		case "crash":
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		}
		c.cond.Wait()
	}
}

func (c *conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed = true
	c.cond.Broadcast()
	return nil
}

func (c *conn) LocalAddr() net.Addr              { return addr("sim:1") }
func (c *conn) RemoteAddr() net.Addr             { return c.addr }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func newBuf(b []byte) *bufio.Reader { return bufio.NewReader(bytes.NewReader(b)) }
