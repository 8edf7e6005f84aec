package main

// The default fetcher between the client and a real HTTP server.

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"
)

type wire struct {
	srv  *httptest.Server
	real fetcher.Fetcher
	a    answer
	how  int
}

func newWire() *wire {
	w := &wire{}
	w.srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		if req.Method != http.MethodGet {
			rw.WriteHeader(http.StatusMethodNotAllowed)
			return
		}
		serve(rw, w.a, w.how)
	}))
	return w
}

// serve gives the answer a
func serve(rw http.ResponseWriter, a answer, how int) {
	switch a.k {
	case "doc":
		switch how % 3 {
		case 0:
			rw.Header().Set("Content-Length", fmt.Sprint(len(a.body)))
			rw.Write(a.body)
		case 1: // pieces of unknown total length
			for i := 0; i < len(a.body); i += 700 {
				rw.Write(a.body[i:min(i+700, len(a.body))])
				rw.(http.Flusher).Flush()
			}
		default:
			rw.Write(a.body)
		}
	case "http":
		rw.WriteHeader(a.id)
		if how%2 == 0 {
			fmt.Fprint(rw, `{"message":"no"}`)
		}
	default: // the connection breaks
		if how%2 == 0 {
			rw.Header().Set("Content-Length", "1000")
			fmt.Fprint(rw, `{"signed":`)
		}
		h, _, err := rw.(http.Hijacker).Hijack()
		if err == nil {
			h.Close()
		}
	}
}

// get lets the real fetcher download; ok tells whether it did what it should for the answer
func (w *wire) get(u string, max int64, timeout time.Duration, a answer, how int) (b []byte, err error, ok bool) {
	w.a, w.how = a, how
	b, err = w.real.DownloadFile(u, max, timeout)
	var he metadata.ErrDownloadHTTP
	isHTTP := errors.As(err, &he)
	switch a.k {
	case "doc":
		ok = err == nil && string(b) == string(a.body)
		if int64(len(a.body)) > max {
			ok = err != nil && !isHTTP && len(b) == 0
		}
	case "http":
		ok = isHTTP && he.StatusCode == a.id && len(b) == 0
	default:
		ok = err != nil && !isHTTP && len(b) == 0
	}
	return b, err, ok
}
