package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
)

type traceFile struct {
	Docs  []*Doc              `json:"docs"`
	Paths map[string]PathInfo `json:"paths"`
	Scens []*Scen             `json:"scens"`
}

type family struct {
	run    func(w *World, name, dir string) *Scen
	shared bool // one world for all scenarios
}

var families = map[string]family{
	"client":       {run: func(w *World, n, d string) *Scen { return scenClient(w, n, d, "") }},
	"honest":       {run: func(w *World, n, d string) *Scen { return scenClient(w, n, d, "honest") }},
	"store":        {run: func(w *World, n, d string) *Scen { return scenClient(w, n, d, "store") }},
	"share":        {run: scenShare},
	"crowd":        {run: scenCrowd},
	"tworeplay":    {run: scenTwoReplay, shared: true},
	"wire":         {run: func(w *World, n, d string) *Scen { return scenClient(w, n, d, "wire") }},
	"lib":          {run: scenLib},
	"timing":       {run: scenTiming},
	"set":          {run: scenSet},
	"paths":        {run: scenPaths},
	"glob":         {run: scenGlob},
	"target":       {run: scenTarget},
	"targetreplay": {run: scenTargetReplay},
	"keys":         {run: scenKeys},
	"keysreplay":   {run: scenKeysReplay},
	"codec":        {run: scenCodec},
	"fetch":        {run: scenFetch},
	"fetchreplay":  {run: scenFetchReplay},
	"multi":        {run: scenMulti},
	"multireplay":  {run: scenMultiReplay},
	"walkreplay":   {run: scenWalkReplay},
	"setreplay":    {run: scenSetReplay, shared: true},
	"replay":       {run: scenReplay, shared: true},
	"damage":       {run: func(w *World, n, d string) *Scen { return scenClient(w, n, d, "damage") }},
	"offline":      {run: func(w *World, n, d string) *Scen { return scenClient(w, n, d, "offline") }},
}

func main() {
	log.SetOutput(io.Discard)
	signal.Ignore(syscall.SIGXFSZ)
	fam := flag.String("family", "", "")
	seed := flag.Int64("seed", 1, "")
	from := flag.Int("from", 0, "")
	n := flag.Int("n", 10, "")
	out := flag.String("out", "", "")
	scratch := flag.String("scratch", "", "")
	flag.StringVar(&inputFile, "in", "", "behaviours of the model")
	progress := flag.String("progress", "", "file that names the scenario being run")
	flag.Parse()
	f, ok := families[*fam]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such family")
		os.Exit(2)
	}
	tf := &traceFile{Docs: []*Doc{}, Paths: map[string]PathInfo{}, Scens: []*Scen{}}
	var w *World
	for i := *from; i < *from+*n; i++ {
		name := fmt.Sprintf("%s/%d/%d", *fam, *seed, i)
		dir := filepath.Join(*scratch, fmt.Sprintf("%s-%d", *fam, i))
		os.MkdirAll(dir, 0o755)
		if *progress != "" {
			os.WriteFile(*progress, []byte(fmt.Sprint(i)), 0o644)
		}
		if w == nil || !f.shared {
			w = newWorld(*seed*1000003 + int64(i))
			w.base = len(tf.Docs)
		}
		s := f.run(w, name, dir)
		os.RemoveAll(dir)
		if s.Data == nil {
			s.Data = map[string]any{}
		}
		tf.Docs = append(tf.Docs[:w.base], w.docs...)
		for p := range w.paths {
			tf.Paths[p] = pathInfo(p)
		}
		tf.Scens = append(tf.Scens, s)
		if hung {
			break
		}
	}
	b, err := json.Marshal(tf)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		panic(err)
	}
}
