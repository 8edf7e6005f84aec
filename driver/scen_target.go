package main

// Target descriptions, downloads of targets and cached targets.

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

// contents gives numbers to byte strings
type contents struct {
	byHash map[[32]byte]int
	data   [][]byte
}

func (c *contents) id(b []byte) int {
	h := sha256.Sum256(b)
	if i, ok := c.byHash[h]; ok {
		return i
	}
	c.data = append(c.data, append([]byte{}, b...))
	c.byHash[h] = len(c.data)
	return len(c.data)
}
func (c *contents) table() []map[string]any {
	r := []map[string]any{}
	for _, d := range c.data {
		r = append(r, map[string]any{"size": len(d), "sha256": digest("sha256", d), "sha512": digest("sha512", d)})
	}
	return r
}

// tree: every file below dir, by relative name, as content number; directories and others as -1
func (c *contents) tree(dir string) map[string]int {
	m := map[string]int{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if err != nil {
			m[rel] = -2
			return nil
		}
		st, serr := os.Stat(p)
		if d.Type().IsRegular() || d.Type()&fs.ModeSymlink != 0 && serr == nil && st.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				m[rel] = -2
				return nil
			}
			m[rel] = c.id(b)
			return nil
		}
		m[rel] = -1
		return nil
	})
	return m
}

type tdesc struct {
	Path string      `json:"path"`
	Len  int         `json:"len"`
	Hs   []tdescHash `json:"hs"`
}
type tdescHash struct {
	Alg string `json:"alg"`
	Of  int    `json:"of"`
	Raw string `json:"raw"`
}

func (c *contents) describe(path string, id int, algs ...string) tdesc {
	t := tdesc{Path: path, Len: len(c.data[id-1]), Hs: []tdescHash{}}
	for _, a := range algs {
		t.Hs = append(t.Hs, tdescHash{a, id, ""})
	}
	return t
}
func (c *contents) goFiles(t tdesc) *metadata.TargetFiles {
	f := &metadata.TargetFiles{Length: int64(t.Len), Hashes: metadata.Hashes{}, Path: t.Path}
	for _, h := range t.Hs {
		x := h.Raw
		if h.Of > 0 {
			x = digest(h.Alg, c.data[h.Of-1])
		}
		b, err := hex.DecodeString(x)
		if err != nil {
			panic(err)
		}
		f.Hashes[h.Alg] = b
	}
	return f
}

// fromGo is the abstract form of a description made by the library
func (c *contents) fromGo(f *metadata.TargetFiles) tdesc {
	t := tdesc{Path: f.Path, Len: int(f.Length), Hs: []tdescHash{}}
	for _, a := range sortedKeys(f.Hashes) {
		h := tdescHash{Alg: a, Raw: hex.EncodeToString(f.Hashes[a])}
		for i, d := range c.data {
			if digest(a, d) == h.Raw {
				h.Of, h.Raw = i+1, ""
				break
			}
		}
		t.Hs = append(t.Hs, h)
	}
	return t
}

var targetPaths = []string{"a", "b", "dir/a", "dir%2Fa", "a b", "a+b", "a%20b", "..", "../x", "../../x", "../../../md/root.json", "../md/root.json", "/abs/a", "a/../b", "ü/é",
	"a?x=1", "a#f", ".", "%", "a\\b", "a:b", "dir/", "x.json", "a//b", "", "d/e/f", ".hidden", "~", "root.json", "a/.", "%2E%2E", "deep/er/..", "dir/a "}

func (w *World) randContent() []byte {
	n := pick(w, []int{0, 1, 2, 10, 100, 1000})
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(w.rng.Intn(3)) + 'a'
	}
	return b
}

// variant: nearly the same bytes
func (w *World) variant(b []byte) []byte {
	v := append([]byte{}, b...)
	switch w.rng.Intn(6) {
	case 0:
		v = append(v, 'x')
	case 1:
		v = append(v, 0)
	case 2:
		if len(v) > 0 {
			v = v[:len(v)-1]
		}
	case 3, 4:
		if len(v) > 0 {
			v[w.rng.Intn(len(v))] ^= byte(1 << w.rng.Intn(8))
		}
	default:
		v = append([]byte("x"), v...)
	}
	return v
}

type targetRun struct {
	w    *World
	c    *contents
	sc   *Scen
	dir  string
	work string
	up   *updater.Updater
	// of the current call
	ans  answer
	reqs []ev
}

func (r *targetRun) DownloadFile(u string, max int64, timeout time.Duration) ([]byte, error) {
	m := max
	if m > 1<<30 || m < -1 {
		m = -7
	}
	r.reqs = append(r.reqs, ev{"url": u, "max": m, "timeout": timeout > 0})
	switch r.ans.k {
	case "content":
		b := r.c.data[r.ans.id-1]
		if r.ans.err == nil && int64(len(b)) > max {
			r.ans.k, r.ans.id = "err", 2
			return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long"}
		}
		return append([]byte{}, b...), nil
	case "http":
		return nil, metadata.ErrDownloadHTTP{StatusCode: r.ans.id, URL: u}
	}
	return nil, errors.New("network is down")
}

func (w *World) randDesc(c *contents, path string, id int) tdesc {
	algs := pick(w, [][]string{{"sha256"}, {"sha512"}, {"sha256", "sha512"}})
	t := c.describe(path, id, algs...)
	if w.chance(25) {
		switch w.rng.Intn(6) {
		case 5: // nothing but a length
			t.Hs = []tdescHash{}
		case 0:
			t.Len++
		case 1:
			if t.Len > 0 {
				t.Len--
			}
		case 2: // one hash of other content
			o := c.id(w.variant(c.data[id-1]))
			t.Hs[w.rng.Intn(len(t.Hs))].Of = o
		case 3:
			t.Hs = append(t.Hs, tdescHash{"md5", 0, "00112233445566778899aabbccddeeff"})
		case 4: // a truncated hash
			h := &t.Hs[w.rng.Intn(len(t.Hs))]
			h.Raw = digest(h.Alg, c.data[id-1])[:pick(w, []int{0, 2, 62})]
			h.Of = 0
		}
	}
	return t
}

// near is a description that differs from t in little or nothing
func (w *World) near(c *contents, t tdesc) tdesc {
	n := t
	n.Hs = append([]tdescHash{}, t.Hs...)
	if len(n.Hs) == 0 {
		return n
	}
	h := &n.Hs[w.rng.Intn(len(n.Hs))]
	raw := h.Raw
	if h.Of > 0 {
		raw = digest(h.Alg, c.data[h.Of-1])
	}
	switch w.rng.Intn(10) {
	case 0, 1: // part of the hash, or nothing
		h.Of, h.Raw = 0, raw[:pick(w, []int{0, 0, min(2, len(raw)), len(raw) / 4 * 2})]
	case 2: // more than the hash
		h.Of, h.Raw = 0, raw+"00"
	case 3: // the last bit of it
		if raw != "" {
			x := raw[len(raw)-1:]
			h.Of, h.Raw = 0, raw[:len(raw)-1]+map[bool]string{true: "1", false: "0"}[x == "0"]
		}
	case 4:
		n.Len += 1 - 2*w.rng.Intn(2)
		if n.Len < 0 {
			n.Len = 1
		}
	case 5: // by one algorithm less, maybe none
		n.Hs = append(append([]tdescHash{}, n.Hs[:0]...), n.Hs[1:]...)
	case 6, 7: // and by another algorithm
		for _, x := range n.Hs {
			if x.Alg == "sha384" {
				return n
			}
		}
		n.Hs = append(n.Hs, tdescHash{"sha384", 0, pick(w, []string{"", "00", "ff"})})
	case 8: // the hash under another name
		if len(n.Hs) == 1 {
			h.Of, h.Raw, h.Alg = 0, raw, pick(w, []string{"sha384", "SHA256", ""})
		}
	}
	return n
}

func (r *targetRun) rel(p string) string {
	if p == "" {
		return ""
	}
	if x, err := filepath.Rel(r.dir, p); err == nil {
		return x
	}
	return "?" + p
}

func (r *targetRun) download(ti tdesc, file, base string) string {
	at := ""
	e := ev{"e": "download", "ti": ti, "file": r.rel(file), "base": base}
	record(r.sc, e, func() {
		e["pre"] = r.c.tree(r.dir)
		r.reqs = []ev{}
		p, b, err := r.up.DownloadTarget(r.c.goFiles(ti), file, base)
		e["k"], e["id"] = r.ans.k, r.ans.id
		e["reqs"] = r.reqs
		e["err"], e["path"], e["got"] = err != nil, r.rel(p), 0
		if b != nil || err == nil {
			e["got"] = r.c.id(b)
		}
		at = p
		e["post"] = r.c.tree(r.dir)
	})
	return at
}
func (r *targetRun) find(ti tdesc, file string) {
	e := ev{"e": "find", "ti": ti, "file": r.rel(file)}
	record(r.sc, e, func() {
		e["pre"] = r.c.tree(r.dir)
		r.reqs = []ev{}
		p, b, err := r.up.FindCachedTarget(r.c.goFiles(ti), file)
		e["reqs"] = r.reqs
		e["err"], e["path"], e["got"] = err != nil, r.rel(p), 0
		if p != "" || b != nil {
			e["got"] = r.c.id(b)
		}
		e["post"] = r.c.tree(r.dir)
	})
}

// a step of MCTarget
type targetStep struct {
	Op     string `json:"o"`
	Target string `json:"t"`
	File   string `json:"f"`
	V      int    `json:"v"`
	Ans    string `json:"a"`
}

var targetPlans [][]targetStep

func scenTargetReplay(w *World, name, dir string) *Scen {
	if targetPlans == nil {
		var in struct {
			Hist [][]targetStep `json:"hist"`
		}
		b, err := os.ReadFile(inputFile)
		if err == nil {
			err = json.Unmarshal(b, &in)
		}
		if err != nil {
			panic(err)
		}
		targetPlans = in.Hist
	}
	var n int
	fmt.Sscanf(name[strings.LastIndexByte(name, '/')+1:], "%d", &n)
	return scenTargetPlan(w, name, dir, targetPlans[n%len(targetPlans)])
}
func scenTarget(w *World, name, dir string) *Scen { return scenTargetPlan(w, name, dir, nil) }

// follow carries out the steps of a behaviour
func (r *targetRun) follow(plan []targetStep, tg, out string, again func() bool) {
	w := r.w
	a := w.randContent()
	if len(a) == 0 {
		a = []byte("x")
	}
	b := append([]byte{}, a...)
	b[w.rng.Intn(len(b))] ^= byte(1 << w.rng.Intn(8))
	ids := []int{0, r.c.id(a), r.c.id(b), r.c.id(append(append([]byte{}, a...), 'x'))}
	algs := pick(w, [][]string{{"sha256"}, {"sha512"}, {"sha256", "sha512"}})
	names := [][2]string{{"a", "b"}, {"a", "dir/a"}, {"dir/a", "dir%2Fa"}, {"../x", "x"}, {"a b", "a+b"}, {"a%20b", "a b"}, {"/abs/a", "abs/a"},
		{"ü/é", "ü%2Fé"}, {"../md/root.json", "md/root.json"}, {"d/e/f", "d/e"}}
	pq := pick(w, names)
	path := map[string]string{"p": pq[0], "q": pq[1]}
	where := map[string]string{"f": filepath.Join(out, "f1"), "g": filepath.Join(out, "f2")}
	for _, s := range plan {
		if w.chance(10) && !again() {
			return
		}
		switch s.Op {
		case "d", "s":
			ti := r.c.describe(path[s.Target], ids[s.V], algs...)
			file := ""
			if s.File != "" {
				file = where[s.File]
			}
			if s.Op == "s" {
				r.find(ti, file)
				continue
			}
			switch s.Ans {
			case "http":
				r.ans = answer{k: "http", id: pick(w, []int{404, 403, 500})}
			case "err":
				r.ans = answer{k: "err", id: 1}
			default:
				r.ans = answer{k: "content", id: ids[int(s.Ans[0]-'0')]}
				if w.chance(50) { // a fetcher that does not keep to the limit
					r.ans.err = errors.New("no limit")
				}
			}
			base := ""
			if w.chance(10) {
				base = "https://mirror.test"
			}
			if at := r.download(ti, file, base); at != "" && s.File == "" {
				where[s.Target] = at
			}
		case "x":
			f := where[s.File]
			if f == "" {
				continue
			}
			os.RemoveAll(f)
			switch {
			case s.V < 0:
				os.MkdirAll(f, 0o755)
			case s.V > 0:
				os.WriteFile(f, r.c.data[ids[s.V]-1], 0o644)
			}
		}
	}
}

func scenTargetPlan(w *World, name, dir string, plan []targetStep) *Scen {
	c := &contents{byHash: map[[32]byte]int{}}
	sc := &Scen{N: name, Ev: []ev{}}
	r := &targetRun{w: w, c: c, sc: sc, dir: dir, work: filepath.Join(dir, "l1", "l2", "l3")}
	md, tg, out := filepath.Join(r.work, "md"), filepath.Join(r.work, "targets"), filepath.Join(r.work, "out")
	if w.chance(15) {
		tg = filepath.Join(r.work, "some", "targets")
	} else if w.chance(20) { // names that mean something in URLs
		tg = filepath.Join(r.work, pick(w, []string{"my targets", "t#1", "t?a=b", "50%", "a%2Fb", "t+u&v", "täg"}))
	}
	if w.chance(15) {
		md = filepath.Join(r.work, "meta", "data")
	} else if w.chance(20) {
		md = filepath.Join(r.work, pick(w, []string{"my metadata", "m#1", "m?a=b", "50% off", "m%2Fd", "m+n&o", "mé"}))
	}
	os.MkdirAll(out, 0o755)
	for _, d := range []string{md, tg} {
		if w.chance(60) {
			os.MkdirAll(d, 0o755)
		}
	}
	os.WriteFile(filepath.Join(r.work, "decoy"), []byte("decoy"), 0o644)
	os.WriteFile(filepath.Join(dir, "l1", "a"), []byte("another decoy"), 0o644)
	os.WriteFile(filepath.Join(r.work, "x"), []byte("a third"), 0o644)
	ids := []int{}
	for i := 0; i < 3; i++ {
		b := w.randContent()
		ids = append(ids, c.id(b))
		ids = append(ids, c.id(w.variant(b)))
	}
	// --- a client that trusts some root
	rp := newRepo(w, false)
	rp.cs = w.chance(60)
	root := rp.publishRoot()
	baseURL := pick(w, []string{"https://repo.test/md", "https://repo.test/md/", "https://repo.test"})
	cfg, err := config.New(baseURL, w.bytes(root))
	if err != nil {
		panic(err)
	}
	cfg.LocalMetadataDir, cfg.LocalTargetsDir = md, tg
	cfg.DisableLocalCache = w.chance(20)
	cfg.PrefixTargetsWithHash = w.chance(60)
	tURL := strings.TrimSuffix(baseURL, "/") + "/targets"
	if w.chance(30) {
		tURL = pick(w, []string{"https://cdn.test", "https://cdn.test/t/", "https://cdn.test/t/u"})
		cfg.RemoteTargetsURL = tURL
	} else if w.chance(10) {
		tURL = ""
		cfg.RemoteTargetsURL = ""
	}
	cfg.Fetcher = r
	if plan != nil && tURL == "" {
		tURL = "https://cdn.test"
		cfg.RemoteTargetsURL = tURL
	}
	if plan != nil {
		cfg.DisableLocalCache = false
	}
	again := func() bool {
		e := ev{"e": "new", "cache": !cfg.DisableLocalCache, "prefix": cfg.PrefixTargetsWithHash && rp.cs, "url": tURL, "dir": r.rel(tg), "md": r.rel(md)}
		record(sc, e, func() {
			e["pre"] = c.tree(dir)
			up, err := updater.New(cfg)
			e["err"] = err != nil
			r.up = up
			e["post"] = c.tree(dir)
		})
		return r.up != nil
	}
	if again() && plan != nil {
		r.follow(plan, tg, out, again)
		r.up = nil
	}
	if r.up == nil {
		sc.Data = map[string]any{"contents": c.table()}
		return sc
	}
	paths := []string{}
	for i := 0; i < 3; i++ {
		paths = append(paths, pick(w, targetPaths))
	}
	if w.chance(30) {
		paths = append(paths, paths[0]+"/x", strings.ReplaceAll(paths[0], "/", "%2F"))
	}
	descs := []tdesc{}
	for n := 6 + w.rng.Intn(10); n > 0; n-- {
		var ti tdesc
		if len(descs) > 0 && w.chance(72) {
			ti = pick(w, descs)
		} else {
			ti = w.randDesc(c, pick(w, paths), pick(w, ids))
			descs = append(descs, ti)
		}
		file := ""
		if w.chance(8) && !again() {
			break
		}
		if w.chance(25) {
			file = filepath.Join(out, pick(w, []string{"f1", "f2", "no/dir"}))
		}
		switch w.rng.Intn(12) {
		case 0, 1, 2, 3, 4: // download
			r.ans = answer{k: "content", id: pick(w, ids)}
			if w.chance(75) {
				for _, h := range ti.Hs {
					if h.Of > 0 {
						r.ans.id = h.Of
					}
				}
			}
			switch w.rng.Intn(10) {
			case 0:
				r.ans = answer{k: "http", id: pick(w, []int{404, 403, 500, 200})}
			case 1:
				r.ans = answer{k: "err", id: 1}
			case 2, 3:
				if w.chance(50) { // a fetcher that does not keep to the limit
					r.ans.err = errors.New("no limit")
				}
				if w.chance(60) {
					r.ans.id = c.id(w.variant(c.data[r.ans.id-1]))
				}
			}
			base := ""
			if w.chance(25) {
				base = pick(w, []string{"https://mirror.test", "https://mirror.test/x/"})
			}
			r.download(ti, file, base)
		case 5, 6, 7: // look for a cached copy
			st, err := os.Lstat(file)
			if file != "" && err == nil && st.Mode().IsRegular() && w.chance(15) { // it is kept somewhere else
				away := dir + "-away"
				if os.Rename(file, away) == nil && os.Symlink(away, file) == nil {
					r.find(ti, file)
				}
				os.Remove(file)
				os.Rename(away, file)
				continue
			}
			r.find(ti, file)
		case 8: // something happens to a file
			es := []string{}
			for _, d := range []string{tg, out} {
				xs, _ := os.ReadDir(d)
				for _, x := range xs {
					es = append(es, filepath.Join(d, x.Name()))
				}
			}
			if len(es) == 0 {
				continue
			}
			f := pick(w, es)
			b, rerr := os.ReadFile(f)
			switch w.rng.Intn(6) {
			case 0:
				os.RemoveAll(f)
			case 1:
				os.RemoveAll(f)
				os.MkdirAll(f, 0o755)
			case 2:
				if rerr == nil {
					os.WriteFile(f, c.data[pick(w, ids)-1], 0o644)
				}
			default:
				if rerr == nil {
					os.WriteFile(f, w.variant(b), 0o644)
				}
			}
		case 9: // a description computed by the library
			id := pick(w, ids)
			algs := pick(w, [][]string{{}, {"sha256"}, {"sha512"}, {"sha256", "sha512"}, {"sha512", "sha256"}, {"md5"}, {"sha256", "sha1"}, {"SHA256"}, {"sha256", "sha256"}})
			e := ev{"e": "describe", "id": id, "algs": algs}
			record(sc, e, func() {
				var f *metadata.TargetFiles
				var err error
				if w.chance(50) {
					f, err = metadata.TargetFile().FromBytes("p", append([]byte{}, c.data[id-1]...), algs...)
				} else {
					p := filepath.Join(dir, "tmpfile")
					os.WriteFile(p, c.data[id-1], 0o644)
					f, err = metadata.TargetFile().FromFile(p, algs...)
					os.Remove(p)
				}
				e["err"] = err != nil
				e["ti"] = tdesc{Hs: []tdescHash{}}
				if f != nil && err == nil {
					e["ti"] = c.fromGo(f)
				}
			})
		case 10: // verify some content
			id := pick(w, ids)
			for _, h := range ti.Hs {
				if h.Of > 0 && w.chance(60) {
					id = h.Of
				}
			}
			e := ev{"e": "verify", "ti": ti, "id": id}
			record(sc, e, func() {
				err := c.goFiles(ti).VerifyLengthHashes(append([]byte{}, c.data[id-1]...))
				e["err"] = err != nil
				e["mismatch"] = errors.Is(err, metadata.ErrLengthOrHashMismatch{})
			})
		case 11:
			tj := pick(w, append(descs, w.randDesc(c, ti.Path, pick(w, ids))))
			if w.chance(60) { // nearly the same one
				tj = w.near(c, ti)
			}
			e := ev{"e": "equal", "a": ti, "b": tj}
			record(sc, e, func() { e["got"] = c.goFiles(ti).Equal(*c.goFiles(tj)) })
		}
	}
	sc.Data = map[string]any{"contents": c.table()}
	return sc
}
