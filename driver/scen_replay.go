package main

// Behaviours of the model (spec/MCClient.tla), written by TLC, carried out on
// the real updater: the same cache, calls, answers and interruptions.

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"
)

// one of: the cache at the beginning, a new client, a call, an answer, the end
type step struct {
	Disk json.RawMessage `json:"d"`
	New  int             `json:"n"`
	Cfg  []int           `json:"c"` // root rotations, delegations, local mode
	Call *string         `json:"p"` // "": refresh, else look the path up
	Ans  string          `json:"a"`
	ID   int             `json:"i"`
	End  int             `json:"x"`
	Env  string          `json:"e"` // the file of this role is changed, 0: removed
	K    int             `json:"k"` // the client that goes on
}
type behaviours struct {
	Docs []struct {
		Name string          `json:"name"`
		Doc  json.RawMessage `json:"doc"`
	} `json:"docs"`
	Hist []json.RawMessage `json:"hist"`
}

var (
	replays   *behaviours
	poolReal  map[int]int // position in the pool -> document
	inputFile string
)

// a function of TLA+ that is empty is written as an empty list
func unlist(b []byte) []byte {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return b
	}
	m, ok := v.(map[string]any)
	if !ok {
		return b
	}
	var walk func(m map[string]any)
	walk = func(m map[string]any) {
		for k, x := range m {
			switch k {
			case "keys", "roles", "meta", "tgts", "dkeys", "disk":
				if l, is := x.([]any); is && len(l) == 0 {
					m[k] = map[string]any{}
				}
			}
		}
	}
	walk(m)
	b, _ = json.Marshal(m)
	return b
}
func str(cs []int) string {
	b := strings.Builder{}
	for _, c := range cs {
		b.WriteRune(rune(c))
	}
	return b.String()
}

func loadReplays(w *World) {
	b, err := os.ReadFile(inputFile)
	if err == nil {
		replays = &behaviours{}
		err = json.Unmarshal(b, replays)
	}
	if err != nil {
		panic(err)
	}
	w.vbase = pick(w, []int64{0, 0, 0, 1<<31 - 3, 1 << 40})
	poolReal = map[int]int{}
	docs := map[int]*Doc{}
	for i, p := range replays.Docs {
		d := &Doc{}
		if err := json.Unmarshal(unlist(p.Doc), d); err != nil {
			panic(fmt.Sprint(p.Name, err))
		}
		for j := range d.DRoles {
			r := &d.DRoles[j]
			for _, q := range r.Paths {
				ss := []string{}
				for _, s := range q {
					ss = append(ss, str(s))
				}
				r.RawPaths = append(r.RawPaths, strings.Join(ss, "/"))
			}
			for _, q := range r.Prefixes {
				r.RawPrefixes = append(r.RawPrefixes, str(q))
			}
		}
		d.ID = 0
		d.WS = w.rng.Intn(4)
		if !d.JSON {
			d.Raw = []byte(pick(w, []string{"junk", "{", "null", "[]", "{}"}))
		}
		docs[i+1] = d
	}
	var make func(i int) int
	make = func(i int) int {
		if id, ok := poolReal[i]; ok {
			return id
		}
		d := docs[i]
		if d == nil {
			return -1
		}
		for n, e := range d.Meta {
			for k := range e.Hs {
				e.Hs[k].Of = make(e.Hs[k].Of)
			}
			if e.Len > 0 {
				e.Len = w.doc(make(e.Len/100)).Size + e.Len%100 - 10
			}
			d.Meta[n] = e
		}
		poolReal[i] = w.add(d)
		return poolReal[i]
	}
	for i := 1; i <= len(replays.Docs); i++ {
		make(i)
	}
}

func scenReplay(w *World, name, dir string) *Scen {
	if replays == nil {
		loadReplays(w)
	}
	n, h := behaviour(name)
	c := newClient(w, name, dir)
	defer c.close()
	i := 0
	env := []step{}
	meddle := func() bool {
		for _, s := range env {
			os.Remove(c.file(s.Env))
			if s.ID > 0 {
				os.WriteFile(c.file(s.Env), w.bytes(poolReal[s.ID]), 0o644)
			}
			c.log.drain()
			c.sc.Ev = append(c.sc.Ev, ev{"e": "env", "disk": w.diskState(c.md())})
		}
		env = nil
		return true
	}
	c.park = meddle // while the client waits for the answer
	c.respond = func(role string, ver int, max int64) answer {
		for ; i < len(h) && h[i].Env != ""; i++ {
			env = append(env, h[i])
		}
		if i >= len(h) || h[i].Ans == "" {
			return answer{k: "crash"}
		}
		s := h[i]
		i++
		if s.Ans == "doc" {
			return answer{k: "doc", id: poolReal[s.ID]}
		}
		return answer{k: s.Ans, id: s.ID}
	}
	for i < len(h) && !c.dead {
		s := h[i]
		i++
		switch {
		case s.Disk != nil:
			c.fill(s.Disk)
		case s.New > 0:
			cc := defaultCfg()
			cc.MaxRot, cc.MaxDel, cc.Offline = s.Cfg[0], s.Cfg[1], s.Cfg[2] == 1
			c.newSession(poolReal[s.New], cc)
		case s.Call != nil && *s.Call == "":
			c.refresh()
		case s.Call != nil:
			c.info(*s.Call)
		case s.End > 0:
			c.endSession()
		}
		meddle()
	}
	if !c.dead {
		c.endSession()
	}
	c.sc.Data = map[string]any{"behaviour": n}
	return c.sc
}

// a step with the trusted metadata set
type setStep struct {
	New     int    `json:"n"`
	Now     int    `json:"now"`
	Op      string `json:"o"`
	ID      int    `json:"i"`
	Role    string `json:"r"`
	Parent  string `json:"p"`
	Trusted int    `json:"t"`
	Rest    int    `json:"z"` // what follows is refused, in any order
}

func scenSetReplay(w *World, name, dir string) *Scen {
	if replays == nil {
		w.unit = pick(w, []time.Duration{time.Nanosecond, time.Millisecond, time.Second, time.Hour, 24 * 365 * time.Hour})
		loadReplays(w)
	}
	var n int
	fmt.Sscanf(name[strings.LastIndexByte(name, '/')+1:], "%d", &n)
	h := []setStep{}
	if err := json.Unmarshal(replays.Hist[n%len(replays.Hist)], &h); err != nil {
		panic(err)
	}
	sr := &setRun{w: w, sc: &Scen{N: name, Ev: []ev{}, Data: map[string]any{"behaviour": n % len(replays.Hist)}}, now: h[0].Now}
	if !sr.create(poolReal[h[0].New]) {
		return sr.sc
	}
	for i, s := range h {
		if s.Rest > 0 {
			rest := h[i+1:]
			w.rng.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
			break
		}
	}
	for _, s := range h[1:] {
		if s.Rest > 0 {
			continue
		}
		if !sr.op(s.Op, poolReal[s.ID], s.Role, s.Parent, s.Trusted == 1) {
			break
		}
	}
	return sr.sc
}

// a graph of MCWalk: who delegates to whom (and terminating), who lists the target, the limit
type walkPlan struct {
	G map[string][][2]any `json:"g"`
	H []string            `json:"h"`
	L int                 `json:"l"`
}

var walkPlans []walkPlan

func scenWalkReplay(w *World, name, dir string) *Scen {
	if walkPlans == nil {
		var in struct {
			Hist []walkPlan `json:"hist"`
		}
		b, err := os.ReadFile(inputFile)
		if err == nil {
			err = json.Unmarshal(b, &in)
		}
		if err != nil {
			panic(err)
		}
		walkPlans = in.Hist
	}
	var n int
	fmt.Sscanf(name[strings.LastIndexByte(name, '/')+1:], "%d", &n)
	p := walkPlans[n%len(walkPlans)]
	r := newRepo(w, false)
	r.fresh = true
	r.buildGraph(0)
	path := pick(w, []string{"a", "b", "a/b", "a/c", "b/x.txt", "ü/é"})
	cover := map[string][]string{"a": {"*", "a", "?", "[ab]", "[a-c]"}, "b": {"b", "?", "[^a]"}, "a/b": {"a/*", "*/b", "*/*", "a/b"}, "a/c": {"*/*", "a/?"},
		"b/x.txt": {"*/*.txt", "b/*"}, "ü/é": {"*/*", "ü/?"}}[path]
	other := []string{"nothing", "a/b/c", "x*", "z", "[", "*/*/*", ""}
	real := map[string]string{"targets": "targets"}
	each := w.chance(50)
	for i, k := range w.rng.Perm(len(roleNames))[:3] {
		real[[]string{"a", "b", "c"}[i]] = roleNames[k]
	}
	for k := range p.G {
		if k != "targets" {
			r.nodes[real[k]] = &node{name: real[k], ks: r.freshSet(), tgts: map[string]TgtEnt{}}
		}
	}
	for _, k := range sortedKeys(p.G) {
		if k != "targets" {
			r.order = append(r.order, real[k])
		}
	}
	top := r.nodes["targets"]
	top.tgts = map[string]TgtEnt{}
	for _, k := range sortedKeys(p.G) {
		nd := r.nodes[real[k]]
		for _, h := range p.H {
			if h == k {
				nd.tgts[path] = r.entTgt(path)
			}
		}
		if w.chance(20) {
			nd.tgts["other"] = r.entTgt("other")
		}
		if len(p.G[k]) == 0 && w.chance(50) {
			continue
		}
		nd.dk, nd.dkeys = "roles", map[string]string{}
		add := func(to string, term, covers bool) {
			ks := r.nodes[to].ks
			if each && w.chance(70) { // every delegator asks for other keys, and may ask in vain
				ks = r.freshSet()
				if w.chance(65) {
					r.nodes[to].alts = append(r.nodes[to].alts, ks)
				}
			}
			dr := DRole{Name: to, Kids: append([]string{}, ks.Kids...), Thr: ks.Thr, Term: term}
			if w.chance(30) || !covers {
				dr.RawPaths = append(dr.RawPaths, pick(w, other))
			}
			if covers {
				dr.RawPaths = append(dr.RawPaths, pick(w, cover))
			}
			if w.chance(15) {
				dr.RawPaths = append(dr.RawPaths, pick(w, other))
			}
			if covers && w.chance(10) {
				dr.RawPaths, dr.RawPrefixes = nil, []string{""}
			}
			for _, k := range ks.Kids {
				nd.dkeys[k] = matOf(k)
			}
			nd.droles = append(nd.droles, dr)
		}
		for _, e := range p.G[k] {
			if w.chance(15) { // one that does not count
				x := r.order[w.rng.Intn(len(r.order))]
				dup := x == "targets"
				for _, o := range nd.droles {
					dup = dup || o.Name == x
				}
				for _, o := range p.G[k] {
					dup = dup || real[o[0].(string)] == x
				}
				if !dup {
					add(x, w.chance(50), false)
				}
			}
			add(real[e[0].(string)], e[1].(bool), true)
		}
	}
	root := r.publishRoot()
	r.publish()
	c := newClient(w, name, dir)
	defer c.close()
	gone := ""
	if w.chance(15) && len(r.order) > 1 {
		gone = r.order[1+w.rng.Intn(len(r.order)-1)]
	}
	c.respond = func(role string, ver int, max int64) answer {
		key := role
		if ver >= 0 {
			key = fmt.Sprintf("%d.%s", ver, role)
		}
		id, ok := r.files[key]
		if !ok || role == gone {
			return answer{k: "http", id: pick(w, []int{404, 403})}
		}
		return answer{k: "doc", id: id}
	}
	for sess := 0; sess < 1+w.rng.Intn(2) && !c.dead; sess++ {
		cc := defaultCfg()
		cc.MaxDel = p.L
		cc.Cache = !w.chance(10)
		cc.Offline = sess > 0 && w.chance(30)
		if c.newSession(root, cc) {
			if c.info(path) && w.chance(50) {
				c.info(pick(w, []string{"other", path}))
			}
			if w.chance(20) {
				c.info("none")
			}
		}
		c.endSession()
	}
	c.sc.Data = map[string]any{"behaviour": n % len(walkPlans)}
	return c.sc
}
