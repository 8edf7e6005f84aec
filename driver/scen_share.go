package main

// Clients that use one cache directory at the same time.  They take turns: one
// is at work until it waits for an answer or has come to the end of a call,
// then any of them goes on.

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

// a client at work in its own goroutine, which runs only when it is its turn
type turns struct {
	c      *client
	resume chan bool
	yield  chan bool // true: there is nothing left to do
	begun  bool
	done   bool
	script func(t *turns)
	i      int
}

// wait for the next turn; false: the client is killed
func (t *turns) wait() bool {
	t.c.parked.Store(true)
	t.yield <- false
	ok := <-t.resume
	t.c.parked.Store(false)
	return ok
}

// another client of the same directory
func (c *client) another() *client {
	return &client{w: c.w, base: c.base, dir: c.dir, log: c.log, sc: c.sc, blocked: map[string]bool{}, url: c.url, respond: c.respond}
}

type table struct {
	first *client
	ts    []*turns
	cur   int
}

func newTable(first *client, n int, script func(t *turns)) *table {
	tb := &table{first: first, cur: -1}
	for i := 0; i < n; i++ {
		c := first
		if i > 0 {
			c = first.another()
		}
		t := &turns{c: c, resume: make(chan bool), yield: make(chan bool), script: script, i: i}
		c.park = t.wait
		tb.ts = append(tb.ts, t)
	}
	return tb
}

// turn lets client i go on; false: something is wrong with the process
func (tb *table) turn(i int, live bool) bool {
	t := tb.ts[i]
	c := tb.first
	if tb.cur != i {
		c.log.drain()
		c.sc.Ev = append(c.sc.Ev, ev{"e": "switch", "to": i + 1, "disk": c.w.diskState(c.md())})
		tb.cur = i
	}
	if !t.begun {
		t.begun = true
		go func() {
			t.script(t)
			t.c.parked.Store(true)
			t.yield <- true
		}()
	} else {
		t.resume <- live
	}
	t.done = <-t.yield
	return !t.c.dead
}

// end kills those that still wait
func (tb *table) end() {
	for _, t := range tb.ts {
		for t.begun && !t.done && !t.c.dead {
			t.resume <- false
			t.done = <-t.yield
		}
	}
}

// env: others have changed the files of the cache
func (tb *table) env() {
	c := tb.first
	c.learn()
	c.log.drain()
	c.sc.Ev = append(c.sc.Ev, ev{"e": "env", "disk": c.w.diskState(c.md())})
}

func scenShare(w *World, name, dir string) *Scen {
	x := newClientWorld(w, pick(w, []string{"", "honest", "honest"}), []int{0, 1, 3, 6})
	x.alone = false
	c := newClient(w, name, dir)
	defer c.close()
	c.respond = x.answer
	tb := newTable(c, 2+w.rng.Intn(2), func(t *turns) {
		for i := 0; i < 1+w.rng.Intn(3) && !t.c.dead; i++ {
			if i > 0 && !t.wait() {
				return
			}
			x.session(t.c, false)
		}
	})
	meddle := pick(w, []int{0, 0, 10, 30}) // somebody else writes into the cache, too
	busy := pick(w, []int{0, 50, 80})
	for left := 0; left < 400; left++ {
		open := []int{}
		for i, t := range tb.ts {
			if !t.done {
				open = append(open, i)
			}
		}
		if len(open) == 0 {
			break
		}
		i := pick(w, open)
		if tb.cur >= 0 && !tb.ts[tb.cur].done && w.chance(busy) {
			i = tb.cur
		}
		if w.chance(8) {
			x.evolve()
		}
		if w.chance(meddle) {
			role := pick(w, append([]string{"root", "timestamp", "snapshot", "targets"}, x.r.order...))
			if src := x.r.all[role]; w.chance(60) && len(src) > 0 {
				id := pick(w, src)
				if x.adv && w.chance(50) {
					id = x.r.mutate(id, role)
				}
				os.WriteFile(c.file(role), w.bytes(id), 0o644)
			} else {
				c.corrupt()
			}
			tb.env()
		}
		if !tb.turn(i, !w.chance(3)) {
			break
		}
	}
	tb.end()
	return c.sc
}

func (c *client) file(role string) string {
	return filepath.Join(c.md(), url.QueryEscape(role)+".json")
}

func behaviour(name string) (int, []step) {
	var n int
	fmt.Sscanf(name[strings.LastIndexByte(name, '/')+1:], "%d", &n)
	h := []step{}
	if err := json.Unmarshal(replays.Hist[n%len(replays.Hist)], &h); err != nil {
		panic(err)
	}
	return n % len(replays.Hist), h
}
func (c *client) fill(d json.RawMessage) {
	m := map[string]int{}
	json.Unmarshal(d, &m)
	for role, id := range m {
		os.WriteFile(c.file(role), c.w.bytes(poolReal[id]), 0o644)
	}
}

// scenTwoReplay: the behaviours of MCTwo; every client has its own list of
// steps, and the order in which they take turns is that of the behaviour
func scenTwoReplay(w *World, name, dir string) *Scen {
	if replays == nil {
		loadReplays(w)
	}
	n, h := behaviour(name)
	c := newClient(w, name, dir)
	defer c.close()
	own := map[int][]step{}
	order := []int{}
	k := 0
	for _, s := range h {
		switch {
		case s.Disk != nil:
			c.fill(s.Disk)
		case s.K > 0:
			k = s.K - 1
		default:
			own[k] = append(own[k], s)
			if s.Call == nil { // a new client and its call are one step
				order = append(order, k)
			}
		}
	}
	at := map[*client]*int{}
	tb := newTable(c, 2, func(t *turns) {
		i := at[t.c]
		steps := own[t.i]
		for first := true; *i < len(steps) && !t.c.dead; first = false {
			if !first && !t.wait() {
				return
			}
			s := steps[*i]
			*i++
			switch {
			case s.New > 0:
				cc := defaultCfg()
				cc.MaxRot, cc.MaxDel, cc.Offline = s.Cfg[0], s.Cfg[1], s.Cfg[2] == 1
				t.c.newSession(poolReal[s.New], cc)
				p := steps[*i].Call
				*i++
				if *p == "" {
					t.c.refresh()
				} else {
					t.c.info(*p)
				}
			case s.End > 0:
				t.c.endSession()
			}
		}
	})
	for k, t := range tb.ts {
		at[t.c] = new(int)
		cl, k := t.c, k
		cl.respond = func(role string, ver int, max int64) answer {
			i := at[cl]
			if *i >= len(own[k]) || own[k][*i].Ans == "" {
				return answer{k: "crash"}
			}
			s := own[k][*i]
			*i++
			if s.Ans == "doc" {
				return answer{k: "doc", id: poolReal[s.ID]}
			}
			return answer{k: s.Ans, id: s.ID}
		}
	}
	for _, k := range order {
		if tb.ts[k].done {
			continue
		}
		if !tb.turn(k, true) {
			break
		}
	}
	tb.end()
	c.sc.Data = map[string]any{"behaviour": n}
	return c.sc
}

// a client among many that all run at once
type crowdClient struct {
	pub  map[string][]byte
	up   *updater.Updater
	path string
	err  error
	died string
	tf   *metadata.TargetFiles
}

func (c *crowdClient) DownloadFile(u string, max int64, timeout time.Duration) ([]byte, error) {
	runtime.Gosched()
	if b, ok := c.pub[u]; ok {
		return append([]byte{}, b...), nil
	}
	return nil, metadata.ErrDownloadHTTP{StatusCode: 404, URL: u}
}

// scenCrowd: many clients of a correct repository start on one directory at
// the same moment; somebody else reads the files all the time
func scenCrowd(w *World, name, dir string) *Scen {
	x := newClientWorld(w, "steady", []int{0, 0, 2, 4})
	r := x.r
	r.pad = pick(w, []int{0, 2000, 100000, 100000})
	x.evolve()
	c := newClient(w, name, dir)
	defer c.close()
	for round := 0; round < 1+w.rng.Intn(3) && !hung; round++ {
		if round > 0 || w.chance(50) {
			x.evolve()
		}
		pub := map[string][]byte{}
		list := []ev{}
		for _, k := range sortedKeys(r.files) {
			id := r.files[k]
			role, ver := k, -1
			if i := strings.IndexByte(k, '.'); i > 0 {
				n := 0
				if _, err := fmt.Sscanf(k[:i+1], "%d.", &n); err == nil {
					role, ver = k[i+1:], n
				}
			}
			real := url.QueryEscape(role)
			if ver >= 0 {
				real = fmt.Sprintf("%d.%s", w.vbase+int64(ver), real)
			}
			pub[metaURL+"/"+real+".json"] = w.bytes(id)
			list = append(list, ev{"role": role, "ver": ver, "id": id})
		}
		known := map[string]map[[32]byte]int{}
		for role, ids := range r.all {
			known[role] = map[[32]byte]int{}
			for _, id := range ids {
				known[role][sha256.Sum256(w.bytes(id))] = id
			}
		}
		cc := defaultCfg()
		cs := []*crowdClient{}
		for i := 2 + w.rng.Intn(7); i > 0; i-- {
			cs = append(cs, &crowdClient{pub: pub, path: pick(w, append([]string{""}, tgtPaths...))})
		}
		for _, k := range cs {
			w.paths[k.path] = true
		}
		start := make(chan bool)
		wg := sync.WaitGroup{}
		for _, k := range cs {
			k := k
			cfg, err := config.New(metaURL, w.bytes(x.root0))
			if err != nil {
				panic(err)
			}
			cfg.LocalMetadataDir = c.md()
			cfg.LocalTargetsDir = filepath.Join(c.dir, "targets")
			cfg.MaxRootRotations, cfg.MaxDelegations = int64(cc.MaxRot), cc.MaxDel
			cfg.RootMaxLength, cfg.TimestampMaxLength, cfg.SnapshotMaxLength, cfg.TargetsMaxLength = int64(cc.RootMax), int64(cc.TsMax), int64(cc.SnMax), int64(cc.TgMax)
			cfg.Fetcher = k
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						k.died = fmt.Sprint(r) + "\n" + string(debug.Stack())
					}
				}()
				<-start
				if k.up, k.err = updater.New(cfg); k.err != nil {
					k.up = nil
					return
				}
				if k.path == "" {
					k.err = k.up.Refresh()
				} else {
					k.tf, k.err = k.up.GetTargetInfo(k.path)
				}
			}()
		}
		// the reader
		torn, gone := map[string]bool{}, map[string]bool{}
		stop, read := make(chan bool), make(chan bool)
		go func() {
			defer close(read)
			seen := map[string]bool{}
			for {
				select {
				case <-stop:
					return
				default:
				}
				for _, role := range sortedKeys(known) {
					b, err := os.ReadFile(c.file(role))
					if errors.Is(err, fs.ErrNotExist) {
						if seen[role] {
							gone[role] = true
						}
						continue
					}
					if _, ok := known[role][sha256.Sum256(b)]; err != nil || !ok {
						torn[role] = true
					}
					seen[role] = true
				}
			}
		}()
		close(start)
		all := make(chan bool)
		go func() { wg.Wait(); close(all) }()
		select {
		case <-all:
		case <-time.After(60 * time.Second):
			c.sc.Ev = append(c.sc.Ev, ev{"e": "hang"})
			hung = true
			return c.sc
		}
		close(stop)
		<-read
		outs := []ev{}
		for _, k := range cs {
			if k.died != "" {
				c.sc.Ev = append(c.sc.Ev, ev{"e": "panic", "msg": k.died})
				return c.sc
			}
			o := ev{"path": k.path, "err": k.err != nil, "role": "", "doc": 0, "tm": noTm()}
			if k.err != nil {
				o["msg"] = k.err.Error()
			}
			if k.up != nil {
				o["tm"] = w.observe(k.up.GetTrustedMetadataSet())
			}
			if k.tf != nil {
				c.up = k.up
				o["role"], o["doc"] = c.source(k.tf, k.path)
			}
			outs = append(outs, o)
		}
		c.log.drain()
		c.sc.Ev = append(c.sc.Ev, ev{"e": "crowd", "cfg": cc, "root": x.root0, "pub": list, "outs": outs, "disk": w.diskState(c.md()),
			"torn": sortedKeys(torn), "gone": sortedKeys(gone), "stray": c.strays()})
	}
	return c.sc
}
