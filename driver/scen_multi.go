package main

// Several repositories behind one map file (TAP 4).

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
)

type mrepo struct {
	name  string
	url   string
	r     *repo
	root  int // the root the client is given
	ok    bool
	how   string
	tgts  map[string]tdesc
	serve map[string]int // target path -> content, 0: not found
	docs  map[int]bool
}
type mapping struct {
	Paths [][][]int `json:"paths"`
	Raw   []string  `json:"raw"`
	Repos []string  `json:"repos"`
	Thr   int       `json:"thr"`
	Term  bool      `json:"term"`
}

// ---- one server for all scenarios of the process
type mserver struct {
	mu      sync.Mutex
	url     string
	handler func(path string, rw http.ResponseWriter)
	log     []string
}

var (
	theServer *mserver
	serveOnce sync.Once
)

func server() *mserver {
	serveOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		s := &mserver{url: "http://" + l.Addr().String()}
		go http.Serve(l, http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			s.mu.Lock()
			h := s.handler
			p := q.URL.EscapedPath()
			s.log = append(s.log, p)
			s.mu.Unlock()
			h(p, rw)
		}))
		theServer = s
	})
	return theServer
}
func (s *mserver) set(h func(string, http.ResponseWriter)) {
	s.mu.Lock()
	s.handler, s.log = h, nil
	s.mu.Unlock()
}
func (s *mserver) take() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.log
	s.log = nil
	if l == nil {
		l = []string{}
	}
	return l
}

var mPaths = []string{"a", "b", "dir/a", "dir/b.txt", "c.txt", "x/y/z"}
var mPatterns = []string{"*", "a", "b", "dir/*", "*/*", "*.txt", "dir/?", "?", "[ab]", "*/*/*", "x/*/z", "nothing", "dir/*.txt", "[^a]"}

// a behaviour of MCMulti: a map, and what every repository says about the path
type multiPlan struct {
	Maps []struct {
		P bool     `json:"p"`
		R []string `json:"r"`
		T int      `json:"t"`
		X bool     `json:"x"`
	} `json:"m"`
	Ans  map[string]string `json:"a"`
	name map[string]string
	path string
	down map[string]bool
}

var multiPlans []multiPlan

func scenMultiReplay(w *World, name, dir string) *Scen {
	if multiPlans == nil {
		var in struct {
			Hist []multiPlan `json:"hist"`
		}
		b, err := os.ReadFile(inputFile)
		if err == nil {
			err = json.Unmarshal(b, &in)
		}
		if err != nil {
			panic(err)
		}
		multiPlans = in.Hist
	}
	var n int
	fmt.Sscanf(name[strings.LastIndexByte(name, '/')+1:], "%d", &n)
	p := multiPlans[n%len(multiPlans)]
	ans := map[string]string{}
	for k, v := range p.Ans {
		ans[k] = v
	}
	p.Ans = ans
	return scenMultiPlan(w, name, dir, &p)
}
func scenMulti(w *World, name, dir string) *Scen { return scenMultiPlan(w, name, dir, nil) }

func scenMultiPlan(w *World, name, dir string, plan *multiPlan) *Scen {
	c := &contents{byHash: map[[32]byte]int{}}
	sc := &Scen{N: name, Ev: []ev{}}
	s := server()
	names := []string{"a", "b", "c", "repo-1", "R 2", "é", "x/main", "y/main", "main", "x"}
	w.rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	if plan == nil {
		names = names[:1+w.rng.Intn(4)]
	} else {
		names = names[:len(plan.Ans)]
		plan.name, plan.down = map[string]string{}, map[string]bool{}
		for i, k := range sortedKeys(plan.Ans) {
			plan.name[k] = names[i]
			plan.Ans[names[i]] = plan.Ans[k]
			plan.down[names[i]] = plan.Ans[k] == "none" && w.chance(40)
		}
		plan.path = pick(w, mPaths)
	}
	data := []int{}
	for i := 0; i < 3; i++ {
		data = append(data, c.id([]byte(fmt.Sprintf("target content %d %s", i, w.randStr("xyz", w.rng.Intn(9))))))
	}
	repos := map[string]*mrepo{}
	simple := w.chance(40)
	agree := simple || w.chance(50) // the repositories mostly agree
	algs := []string{}
	for i, n := range names {
		m := &mrepo{name: n, url: fmt.Sprintf("%s/%d", s.url, i), ok: true, how: "ok", tgts: map[string]tdesc{}, serve: map[string]int{}, docs: map[int]bool{}}
		w.keyBase = 1 + 20*i
		m.r = newRepo(w, false)
		m.r.fresh = true
		m.r.buildGraph(0)
		top := m.r.nodes["targets"]
		top.tgts = map[string]TgtEnt{}
		if simple && i > 0 {
			algs = pick(w, [][]string{algs, algs, {"sha256"}})
		} else {
			algs = pick(w, [][]string{{"sha256"}, {"sha256", "sha512"}})
		}
		for _, p := range mPaths {
			if !w.chance(75) && (plan == nil || p != plan.path) {
				continue
			}
			if plan != nil && p == plan.path {
				switch plan.Ans[n] {
				case "none":
					if !plan.down[n] {
						continue
					}
				}
			}
			id := data[0]
			if !agree || w.chance(20) && !simple {
				id = pick(w, data)
			}
			algs := algs
			if plan != nil && p == plan.path {
				switch plan.Ans[n] {
				case "A":
					id, algs = data[0], []string{"sha256"}
				case "AA":
					id, algs = data[0], []string{"sha256", "sha512"}
				case "B":
					id, algs = data[1], []string{"sha256"}
				}
			}
			t := c.describe(p, id, algs...)
			m.tgts[p] = t
			te := TgtEnt{Len: t.Len}
			for _, a := range algs {
				te.Hs = append(te.Hs, Hs{a, 1000000 + id})
			}
			top.tgts[p] = te
			m.serve[p] = id
			switch w.rng.Intn(8) {
			case 0:
				m.serve[p] = 0
			case 1:
				m.serve[p] = pick(w, data)
			case 2:
				m.serve[p] = c.id(w.variant(c.data[id-1]))
			}
		}
		w.content = func(of int) []byte { return c.data[of-1000000-1] }
		first := len(w.docs)
		m.root = m.r.publishRoot()
		m.r.publish()
		if w.chance(30) {
			m.r.publishRoot("root", "timestamp")
			m.r.publish()
		}
		for k := first; k < len(w.docs); k++ {
			m.docs[w.docs[k].ID] = true
		}
		repos[n] = m
	}
	// some repositories do not work
	own := map[string]int{}
	for _, n := range names {
		own[n] = repos[n].root
	}
	for _, n := range names {
		m := repos[n]
		if plan != nil && !plan.down[n] || plan == nil && (!w.chance(18) || simple && w.chance(60)) {
			continue
		}
		m.ok = false
		if plan != nil {
			m.how = pick(w, []string{"down", "garbage"})
			continue
		}
		m.how = pick(w, []string{"down", "garbage", "other", "badroot", "otherroot"})
		on := pick(w, names)
		o := repos[on]
		switch m.how {
		case "other", "otherroot":
			if o == m {
				m.how = "down"
			} else if m.how == "otherroot" {
				m.root = own[on]
				// a root of another repository: nothing of this one verifies
			}
		case "badroot":
			m.root = m.r.mutate(m.root, "root")
			m.ok = false
		}
	}
	handler := func(p string, rw http.ResponseWriter) {
		parts := strings.SplitN(strings.TrimPrefix(p, "/"), "/", 2)
		var i int
		if len(parts) != 2 {
			rw.WriteHeader(404)
			return
		}
		fmt.Sscan(parts[0], &i)
		m := repos[names[i%len(names)]]
		f := parts[1]
		if t, ok := strings.CutPrefix(f, "targets/"); ok {
			id := 0
			for path, x := range m.serve {
				if t == path {
					id = x
				}
				// hash-prefixed, by whatever hash
				k := strings.LastIndexByte(path, '/') + 1
				if rest, ok := strings.CutPrefix(t, path[:k]); ok {
					if j := strings.IndexByte(rest, '.'); j >= 64 && !strings.Contains(rest[:j], "/") && rest[j+1:] == path[k:] {
						id = x
					}
				}
			}
			if id == 0 {
				rw.WriteHeader(404)
				return
			}
			rw.Write(c.data[id-1])
			return
		}
		src := m
		switch m.how {
		case "down":
			if strings.HasSuffix(f, "timestamp.json") {
				rw.WriteHeader(503)
				return
			}
		case "garbage":
			if strings.HasSuffix(f, "snapshot.json") {
				rw.Write([]byte(`{"signed":{},"signatures":[]}`))
				return
			}
		case "other":
			for _, n := range names {
				if repos[n] != m && repos[n].ok {
					src = repos[n]
				}
			}
			if src == m {
				rw.WriteHeader(500)
				return
			}
		}
		id, ok := src.r.files[strings.TrimSuffix(f, ".json")]
		if !ok {
			rw.WriteHeader(404)
			return
		}
		rw.Write(w.bytes(id))
	}
	s.set(handler)

	// --- the map
	maps := []mapping{}
	for k := w.rng.Intn(4); k >= 0; k-- {
		mp := mapping{Paths: [][][]int{}, Raw: []string{}, Repos: []string{}, Thr: pick(w, []int{1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 0, -1}), Term: w.chance(40)}
		for j := 1 + w.rng.Intn(2); j > 0; j-- {
			p := pick(w, mPatterns)
			mp.Raw = append(mp.Raw, p)
			mp.Paths = append(mp.Paths, segs(p))
		}
		for _, i := range w.rng.Perm(len(names)) {
			if w.chance(75) {
				mp.Repos = append(mp.Repos, names[i])
			}
		}
		if len(mp.Repos) > 0 && w.chance(20) {
			mp.Repos = append(mp.Repos, mp.Repos[w.rng.Intn(len(mp.Repos))])
		}
		if simple && k == 0 {
			mp.Thr = 1 + w.rng.Intn(2)
			mp.Raw, mp.Paths = []string{}, [][][]int{}
			for _, p := range []string{"*", "*/*", "*/*/*"} {
				mp.Raw = append(mp.Raw, p)
				mp.Paths = append(mp.Paths, segs(p))
			}
		}
		maps = append(maps, mp)
	}
	if plan != nil {
		maps = []mapping{}
		yes, no := []string{}, []string{}
		for _, p := range mPatterns {
			if ok, _ := filepath.Match(p, plan.path); ok {
				yes = append(yes, p)
			} else {
				no = append(no, p)
			}
		}
		for _, pm := range plan.Maps {
			mp := mapping{Paths: [][][]int{}, Raw: []string{}, Repos: []string{}, Thr: pm.T, Term: pm.X}
			if w.chance(30) || !pm.P {
				mp.Raw = append(mp.Raw, pick(w, no))
			}
			if pm.P {
				mp.Raw = append(mp.Raw, pick(w, yes))
			}
			if w.chance(20) {
				mp.Raw = append(mp.Raw, pick(w, no))
			}
			if pm.P && w.chance(20) {
				mp.Raw = append(mp.Raw, pick(w, yes))
			}
			for _, r := range mp.Raw {
				mp.Paths = append(mp.Paths, segs(r))
			}
			for _, i := range w.rng.Perm(len(pm.R)) {
				mp.Repos = append(mp.Repos, plan.name[pm.R[i]])
			}
			if w.chance(20) {
				mp.Repos = append(mp.Repos, pick(w, mp.Repos))
			}
			maps = append(maps, mp)
		}
	}
	urls, roots, rootIDs := map[string][]string{}, map[string][]byte{}, map[string]int{}
	for _, n := range names {
		urls[n] = []string{repos[n].url}
		roots[n] = w.bytes(repos[n].root)
		rootIDs[n] = repos[n].root
	}
	// something may be wrong with the configuration
	wrong := ""
	if plan == nil && w.chance(15) {
		wrong = pick(w, []string{"undefined", "nourl", "noroot", "null", "empty", "noroots", "nullmapping", "notjson", "nullurl",
			"kind", "kind", "badurl", "lateroot", "undefined", "inway"})
		n := pick(w, names)
		switch wrong {
		case "undefined":
			mp := &maps[w.rng.Intn(len(maps))]
			rs := append([]string{}, mp.Repos...)
			at := w.rng.Intn(len(rs) + 1)
			mp.Repos = append(append(append([]string{}, rs[:at]...), "nobody"), rs[at:]...)
		case "badurl":
			urls[n] = []string{pick(w, []string{"http://[::1", ":", "http://a b:x/", "http://%zz/"})}
		case "nourl":
			urls[n] = []string{}
		case "nullurl":
			urls[n] = nil
		case "noroot":
			delete(roots, n)
			if len(roots) == 0 {
				roots["other"] = w.bytes(repos[n].root)
			}
		case "noroots":
			roots = map[string][]byte{}
		}
	}
	jm := []any{}
	for _, m := range maps {
		jm = append(jm, map[string]any{"paths": m.Raw, "repositories": m.Repos, "threshold": m.Thr, "terminating": m.Term})
	}
	if (wrong == "nourl" || wrong == "nullurl" || wrong == "noroot") && w.chance(40) { // even if nothing is mapped to it
		jm = []any{}
	}
	if wrong == "nullmapping" {
		jm = append(jm, nil)
	}
	top := map[string]any{"repositories": urls, "mapping": jm}
	if wrong == "kind" {
		// a value of another JSON kind somewhere
		other := func(not string) any {
			vs := map[string]any{"string": "x", "int": 3, "list": []any{1, true}, "object": map[string]any{"a": 1}, "bool": true, "float": 1.5}
			delete(vs, not)
			if not == "int" {
				// a number of the same kind is none of another
				vs["big"] = json.Number("99999999999999999999")
			}
			return vs[pick(w, sortedKeys(vs))]
		}
		m0 := jm[w.rng.Intn(len(jm))].(map[string]any)
		switch w.rng.Intn(9) {
		case 0:
			top["repositories"] = other("object")
		case 1:
			top["mapping"] = other("list")
		case 2:
			m0["paths"] = other("list")
		case 3:
			m0["repositories"] = other("list")
		case 4:
			m0["threshold"] = other("int")
		case 5:
			m0["terminating"] = other("bool")
		case 6:
			m0["paths"] = []any{"a", other("string")}
		case 7:
			m0["repositories"] = []any{names[0], other("string")}
		case 8:
			jm[w.rng.Intn(len(jm))] = other("object")
		}
	}
	mapBytes, _ := json.Marshal(top)
	switch wrong {
	case "null":
		mapBytes = []byte("null")
	case "empty":
		mapBytes = nil
	case "notjson":
		mapBytes = mapBytes[:len(mapBytes)-1]
	}
	tree := func() map[string]int { return c.treeDocs(w, dir) }
	e := ev{"e": "config", "wrong": wrong, "maps": maps}
	var cfg *multirepo.MultiRepoConfig
	record(sc, e, func() {
		var err error
		cfg, err = multirepo.NewConfig(mapBytes, roots)
		e["err"] = err != nil
		if err != nil {
			cfg = nil
		}
	})
	desc := map[string]any{}
	for _, n := range names {
		m := repos[n]
		ds := []int{}
		for id := range m.docs {
			ds = append(ds, id)
		}
		desc[n] = map[string]any{"ok": m.ok, "how": m.how, "root": m.root, "tgts": m.tgts, "url": strings.TrimPrefix(m.url, s.url), "docs": ds,
			"cs": m.r.cs}
	}
	fin := func() *Scen {
		sc.Data = map[string]any{"contents": c.table(), "repos": desc}
		return sc
	}
	late := wrong == "badurl" || wrong == "lateroot" || wrong == "inway"
	if cfg == nil || wrong != "" && !late {
		return fin()
	}
	work := filepath.Join(dir, "l1", "l2")
	os.MkdirAll(work, 0o755)
	cfg.LocalMetadataDir = filepath.Join(work, "md")
	shared := w.chance(40)
	if shared {
		cfg.LocalTargetsDir = filepath.Join(work, "targets")
	}
	cfg.DisableLocalCache = w.chance(15) && wrong != "inway"
	switch wrong {
	case "lateroot":
		delete(cfg.TrustedRoots, pick(w, names))
	case "inway":
		os.WriteFile(cfg.LocalMetadataDir, []byte("a file"), 0o644)
	}
	for sess := 0; sess < 1+w.rng.Intn(2); sess++ {
		var cl *multirepo.MultiRepoClient
		s.take()
		e = ev{"e": "new", "cache": !cfg.DisableLocalCache, "mdir": "l1/l2/md", "tdir": "l1/l2/targets", "shared": shared}
		bad := false
		record(sc, e, func() {
			var err error
			cl, err = multirepo.New(cfg)
			e["err"], e["nil"], e["wrong"] = err != nil, cl == nil, wrong
			bad = err != nil || late
			e["post"], e["reqs"] = tree(), s.take()
		})
		for _, n := range names {
			bad = bad || repos[n].how == "badroot"
		}
		if cl == nil || bad {
			return fin()
		}
		stamp := func(e ev) {
			tm := map[string]tmObs{}
			for _, n := range sortedKeys(cl.TUFClients) {
				tm[n] = w.observe(cl.TUFClients[n].GetTrustedMetadataSet())
			}
			e["tm"] = tm
			e["post"], e["reqs"] = tree(), s.take()
		}
		var got *metadata.TargetFiles
		var gotRepos []string
		for n := 3 + w.rng.Intn(6); n > 0; n-- {
			what := w.rng.Intn(10)
			if plan != nil {
				if n > 3 {
					continue
				}
				what = []int{9, 2, 0}[n-1]
			}
			switch what {
			case 0, 1:
				e := ev{"e": "refresh", "pre": tree()}
				record(sc, e, func() {
					err := cl.Refresh()
					e["err"] = err != nil
					stamp(e)
				})
				if w.chance(50) {
					break
				}
				e2 := ev{"e": "top", "pre": tree()}
				ready := []string{}
				for _, n := range names {
					if cl.TUFClients[n].GetTrustedMetadataSet().Targets["targets"] != nil {
						ready = append(ready, n)
					}
				}
				e2["ready"] = ready
				record(sc, e2, func() {
					res, err := cl.GetTopLevelTargets()
					e2["err"] = err != nil
					r := map[string]tdesc{}
					for p, t := range res {
						r[p] = c.fromGo(t)
					}
					e2["got"] = r
					stamp(e2)
				})
			case 2, 3, 4, 5:
				p := pick(w, mPaths)
				if plan != nil {
					p = plan.path
				}
				w.paths[p] = true
				e := ev{"e": "info", "path": p, "pre": tree()}
				record(sc, e, func() {
					t, rs, err := cl.GetTargetInfo(p)
					e["err"] = err != nil
					e["got"], e["repos"] = tdesc{Hs: []tdescHash{}}, []string{}
					if err == nil {
						if t == nil {
							t = &metadata.TargetFiles{}
						}
						e["got"] = c.fromGo(t)
						if rs != nil {
							e["repos"] = rs
						}
						got, gotRepos = t, rs
					}
					stamp(e)
				})
			default:
				if got == nil {
					continue
				}
				rs := append([]string{}, gotRepos...)
				if w.chance(25) {
					rs = []string{}
					for _, i := range w.rng.Perm(len(names)) {
						rs = append(rs, names[i])
					}
				}
				// what the repositories serve changes
				if plan == nil && w.chance(25) {
					n := pick(w, names)
					repos[n].serve[got.Path] = pick(w, []int{0, 0, pick(w, data)})
				}
				serves := map[string]int{}
				for _, n := range names {
					serves[n] = repos[n].serve[got.Path]
				}
				e := ev{"e": "download", "ti": c.fromGo(got), "repos": rs, "pre": tree(), "serves": serves}
				record(sc, e, func() {
					p, b, err := cl.DownloadTarget(rs, got, "", "")
					e["err"] = err != nil
					e["got"], e["path"] = 0, ""
					if b != nil {
						e["got"] = c.id(b)
					}
					if p != "" {
						if x, err := filepath.Rel(dir, p); err == nil {
							e["path"] = x
						} else {
							e["path"] = "?" + p
						}
					}
					stamp(e)
				})
			}
		}
	}
	return fin()
}

// treeDocs: like tree; metadata documents have their id, targets -100-content
func (c *contents) treeDocs(w *World, dir string) map[string]int {
	m := c.tree(dir)
	for k, v := range m {
		if v >= 1 {
			if id := w.idOf(c.data[v-1]); id >= 1 {
				m[k] = id
			} else {
				m[k] = -100 - v
			}
		}
	}
	return m
}
