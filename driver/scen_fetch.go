package main

// The default fetcher against servers that do what they like.

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"
)

type script struct {
	how    string // framing, or what goes wrong
	status int
	size   int // bytes of the body that are sent
	said   int // announced length, -1: none
	cut    bool
	pieces int
	slow   time.Duration
	body   []byte
}

type scripted struct {
	l  net.Listener
	mu sync.Mutex
	s  map[string]script
	wg sync.WaitGroup
	q  chan struct{}
}

func newScripted() *scripted {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &scripted{l: l, s: map[string]script{}, q: make(chan struct{})}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				defer c.Close()
				s.handle(c)
			}()
		}
	}()
	return s
}
func (s *scripted) close() {
	close(s.q)
	s.l.Close()
	s.wg.Wait()
}
func (s *scripted) handle(c net.Conn) {
	req, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return
	}
	s.mu.Lock()
	sc, ok := s.s[req.URL.EscapedPath()]
	s.mu.Unlock()
	if !ok || req.Method != http.MethodGet {
		io.WriteString(c, "HTTP/1.1 599 Unscripted\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
		return
	}
	if sc.slow > 0 {
		select {
		case <-time.After(sc.slow):
		case <-s.q:
			return
		}
	}
	body := sc.body
	head := fmt.Sprintf("HTTP/1.1 %d %s\r\nConnection: close\r\n", sc.status, pickText(sc.status))
	switch sc.how {
	case "garbage":
		io.WriteString(c, "\x00\x01 not http at all\r\n\r\n")
		return
	case "hangup":
		return
	case "length":
		io.WriteString(c, head+fmt.Sprintf("Content-Length: %d\r\n\r\n", sc.said))
		writeIn(c, body, sc.pieces)
	case "close":
		io.WriteString(c, head+"\r\n")
		writeIn(c, body, sc.pieces)
	case "gzip":
		if strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") {
			var b bytes.Buffer
			z := gzip.NewWriter(&b)
			z.Write(body)
			z.Close()
			io.WriteString(c, head+fmt.Sprintf("Content-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", b.Len()))
			c.Write(b.Bytes())
			return
		}
		io.WriteString(c, head+fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body)))
		c.Write(body)
	case "chunked", "stall":
		io.WriteString(c, head+"Transfer-Encoding: chunked\r\n\r\n")
		n := max(1, len(body)/max(1, sc.pieces))
		for i := 0; i < len(body); i += n {
			p := body[i:min(i+n, len(body))]
			if _, err := fmt.Fprintf(c, "%x\r\n%s\r\n", len(p), p); err != nil {
				return
			}
		}
		if sc.how == "stall" {
			select {
			case <-time.After(15 * time.Second):
			case <-s.q:
			}
			return
		}
		if !sc.cut {
			io.WriteString(c, "0\r\n\r\n")
		}
	}
}
func pickText(status int) string {
	if t := http.StatusText(status); t != "" {
		return t
	}
	return "Whatever"
}
func writeIn(c net.Conn, b []byte, pieces int) {
	n := max(1, len(b)/max(1, pieces))
	for i := 0; i < len(b); i += n {
		if _, err := c.Write(b[i:min(i+n, len(b))]); err != nil {
			return
		}
	}
}

// an answer of MCFetch
type fetchPlan struct {
	How    string `json:"how"`
	Status int    `json:"status"`
	Size   int    `json:"size"`
	Said   int    `json:"said"`
	Cut    bool   `json:"cut"`
	Max    int    `json:"max"`
}

var fetchPlans []fetchPlan

func scenFetchReplay(w *World, name, dir string) *Scen {
	if fetchPlans == nil {
		var in struct {
			Hist []fetchPlan `json:"hist"`
		}
		b, err := os.ReadFile(inputFile)
		if err == nil {
			err = json.Unmarshal(b, &in)
		}
		if err != nil {
			panic(err)
		}
		fetchPlans = in.Hist
	}
	var n int
	fmt.Sscanf(name[strings.LastIndexByte(name, '/')+1:], "%d", &n)
	return scenFetchPlan(w, name, fetchPlans, n*8)
}
func scenFetch(w *World, name, dir string) *Scen { return scenFetchPlan(w, name, nil, 0) }

func (w *World) planned(p fetchPlan) (script, int) {
	// one unit is this many bytes; the client reads in pieces of its own
	k := pick(w, []int{1, 1, 2, 100, 512, 4096, 50000})
	x := script{how: p.How, status: p.Status, size: p.Size * k, said: p.Said, cut: p.Cut, pieces: 1 + w.rng.Intn(4)}
	if x.how == "stall" && w.chance(80) {
		x.how = "hangup"
	}
	if x.said > 0 {
		x.said *= k
	}
	x.body = make([]byte, x.size)
	w.rng.Read(x.body)
	return x, p.Max * k
}

func scenFetchPlan(w *World, name string, plans []fetchPlan, first int) *Scen {
	sc := &Scen{N: name, Ev: []ev{}}
	s := newScripted()
	defer s.close()
	cfg, err := config.New("http://"+s.l.Addr().String(), []byte("x"))
	if err != nil {
		panic(err)
	}
	var f fetcher.Fetcher = &fetcher.DefaultFetcher{}
	if w.chance(50) {
		f = cfg.Fetcher
	}
	for i := 0; i < 8; i++ {
		par := 1
		if plans == nil && w.chance(20) {
			par = 2 + w.rng.Intn(5)
		}
		evs := make([]ev, par)
		var wg sync.WaitGroup
		for j := 0; j < par; j++ {
			x, mx := w.script()
			if plans != nil {
				x, mx = w.planned(plans[(first+i)%len(plans)])
			}
			path := fmt.Sprintf("/%d/%s", i, pick(w, []string{"a.json", "1.root.json", "a%2Fb.json", "x%20y", "d/e/f", "%C3%BC"}))
			if par > 1 {
				path = fmt.Sprintf("/%d-%d", i, j)
			}
			u := "http://" + s.l.Addr().String() + path
			timeout := 60 * time.Second
			switch x.how {
			case "stall":
				timeout = 300 * time.Millisecond
			case "refused":
				u = "http://127.0.0.1:1/x"
			case "badurl":
				u = pick(w, []string{"http://[::1", "nope://x/y", "http://127.0.0.1:99999/x", "\x7f", ""})
			default:
				if w.chance(10) {
					timeout = 0 // none
				}
			}
			s.mu.Lock()
			s.s[path] = x
			s.mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				evs[j] = get(f, u, x, mx, timeout)
			}()
		}
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
			sc.Ev = append(sc.Ev, evs...)
		case <-time.After(12 * time.Second):
			sc.Ev = append(sc.Ev, ev{"e": "hang"})
			hung = true
			return sc
		}
	}
	return sc
}
func (w *World) script() (script, int) {
	x := script{status: 200, said: -1, pieces: 1 + w.rng.Intn(4)}
	x.how = pick(w, []string{"length", "length", "length", "chunked", "chunked", "close", "gzip", "garbage", "hangup", "refused", "badurl"})
	if w.chance(2) {
		x.how = "stall"
	}
	x.size = pick(w, []int{0, 1, 2, 100, 511, 512, 513, 4095, 4096, 4097, 20000, 70000})
	if w.chance(4) {
		x.size = 1<<20 + w.rng.Intn(1<<22)
	}
	if w.chance(35) {
		x.status = pick(w, []int{403, 404, 403, 404, 400, 401, 405, 408, 410, 418, 429, 451, 500, 502, 503, 504, 599, 201, 202, 203, 206, 300, 304, 305, 204, 205, 999})
	}
	mx := x.size
	switch w.rng.Intn(8) {
	case 0, 1:
		mx = x.size - 1
	case 2:
		mx = x.size + 1
	case 3:
		mx = x.size / 2
	case 4:
		mx = 0
	case 5:
		mx = x.size + 100000
	}
	mx = max(0, mx)
	if x.status == 204 || x.status == 304 {
		x.size = 0
	}
	x.said = -1
	if x.how == "length" {
		x.said = x.size
		if w.chance(30) && x.size > 0 { // a wrong length
			x.said = max(0, x.size+pick(w, []int{-1, 1, 10, -x.size / 2, 1 << 20}))
		}
	}
	if x.how == "chunked" && w.chance(30) {
		x.cut = true
	}
	x.body = make([]byte, x.size)
	if w.chance(80) {
		w.rng.Read(x.body)
	}
	return x, mx
}
func get(f fetcher.Fetcher, u string, x script, mx int, timeout time.Duration) (e ev) {
	e = ev{"e": "get", "how": x.how, "status": x.status, "size": x.size, "said": x.said, "cut": x.cut, "max": mx}
	defer func() {
		if r := recover(); r != nil {
			e = ev{"e": "panic", "op": "get", "msg": fmt.Sprint(r)}
		}
	}()
	b, err := f.DownloadFile(u, int64(mx), timeout)
	e["err"], e["len"], e["http"], e["msg"] = err != nil, len(b), 0, ""
	if err != nil {
		e["msg"] = err.Error()
	}
	cls := []string{}
	for n, c := range map[string]error{"download": metadata.ErrDownload{}, "length": metadata.ErrDownloadLengthMismatch{}, "repository": metadata.ErrRepository{}, "http": metadata.ErrDownloadHTTP{}} {
		if errors.Is(err, c) {
			cls = append(cls, n)
		}
	}
	e["cls"] = cls
	var he metadata.ErrDownloadHTTP
	if errors.As(err, &he) {
		e["http"] = he.StatusCode
		if he.StatusCode == 0 {
			e["http"] = -1
		}
	}
	want := x.body
	if x.said >= 0 && x.said < len(want) {
		want = want[:x.said]
	}
	e["same"] = bytes.Equal(b, want)
	return e
}
