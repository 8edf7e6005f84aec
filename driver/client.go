package main

// Runs sessions of the updater and records what it does.

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

type ev = map[string]any

type Scen struct {
	N    string `json:"n"`
	Ev   []ev   `json:"ev"`
	Data any    `json:"data"`
}

const metaURL = "https://repo.test/md"

type tmObs struct {
	Root int            `json:"root"`
	Ts   int            `json:"ts"`
	Sn   int            `json:"sn"`
	Tg   map[string]int `json:"tg"`
}

func noTm() tmObs { return tmObs{Tg: map[string]int{}} }

func mfp[T metadata.Roles](typ string, ver int64, m *metadata.Metadata[T]) (string, map[string]any) {
	fps := []string{}
	for _, s := range m.Signatures {
		fps = append(fps, s.KeyID+"="+hex.EncodeToString(s.Signature))
	}
	return fingerprint(typ, ver, fps), m.UnrecognizedFields
}
func (w *World) idOfMeta(fp string, unrec map[string]any) int {
	c := w.byFP[fp]
	if x, ok := unrec["x-env"]; ok {
		if f, ok := x.(float64); ok {
			for _, id := range c {
				if id-w.base == int(f) {
					return id
				}
			}
		}
		return -2
	}
	for _, id := range c {
		if !w.doc(id).xenv {
			return id
		}
	}
	return -1
}
func (w *World) observe(t trustedmetadata.TrustedMetadata) tmObs {
	o := noTm()
	if t.Root != nil {
		o.Root = w.idOfMeta(mfp(t.Root.Signed.Type, t.Root.Signed.Version, t.Root))
	}
	if t.Timestamp != nil {
		o.Ts = w.idOfMeta(mfp(t.Timestamp.Signed.Type, t.Timestamp.Signed.Version, t.Timestamp))
	}
	if t.Snapshot != nil {
		o.Sn = w.idOfMeta(mfp(t.Snapshot.Signed.Type, t.Snapshot.Signed.Version, t.Snapshot))
	}
	for r, m := range t.Targets {
		if m == nil {
			continue
		}
		o.Tg[r] = w.idOfMeta(mfp(m.Signed.Type, m.Signed.Version, m))
	}
	return o
}

// diskState: role -> content id of the files of the cache directory
func (w *World) diskState(dir string) map[string]int {
	m := map[string]int{}
	es, err := os.ReadDir(dir)
	if err != nil {
		return m
	}
	for _, e := range es {
		if !e.Type().IsRegular() || !strings.HasSuffix(e.Name(), ".json") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			continue
		}
		n := "?" + e.Name()
		if q, err := url.QueryUnescape(strings.TrimSuffix(e.Name(), ".json")); err == nil {
			n = q
		}
		m[n] = w.idOf(b)
	}
	return m
}

type cliCfg struct {
	MaxRot  int      `json:"maxRot"`
	MaxDel  int      `json:"maxDel"`
	RootMax int      `json:"rootMax"`
	TsMax   int      `json:"tsMax"`
	SnMax   int      `json:"snMax"`
	TgMax   int      `json:"tgMax"`
	Cache   bool     `json:"cache"`
	Offline bool     `json:"offline"`
	Now     int      `json:"now"`
	Blocked []string `json:"blocked"`
	FSize   int      `json:"fsize"` // no file can grow beyond this size, 0: no limit
	NoDir   bool     `json:"nodir"` // the directory disappears
}

func defaultCfg() cliCfg {
	return cliCfg{MaxRot: 32, MaxDel: 32, RootMax: 512000, TsMax: 16384, SnMax: 2000000, TgMax: 5000000, Cache: true, Blocked: []string{}}
}

type client struct {
	w       *World
	base    string
	dir     string
	log     *fsLog
	blocked map[string]bool
	cfg     cliCfg
	nodir   int // per cent of requests that make the directory disappear
	gone    bool
	wire    *wire
	url     string
	tooLong []byte
	sc      *Scen
	up      *updater.Updater
	respond func(role string, ver int, max int64) answer
	nreq    int
	dead    bool
	live    bool
	caught  *metadata.TargetFiles
	park    func() bool // others go on, until it comes back; false: the client is killed
	parked  atomic.Bool
}

func newClient(w *World, name, dir string) *client {
	c := &client{w: w, base: dir, dir: filepath.Join(dir, "a", "b", "c"), sc: &Scen{N: name, Ev: []ev{}}, blocked: map[string]bool{}, url: metaURL}
	os.MkdirAll(c.md(), 0o755)
	for _, d := range []string{"tmp", "home", "cwd", "a/b/c/targets"} {
		os.MkdirAll(filepath.Join(dir, d), 0o755)
	}
	os.Setenv("TMPDIR", filepath.Join(dir, "tmp"))
	os.Setenv("HOME", filepath.Join(dir, "home"))
	os.Chdir(filepath.Join(dir, "cwd"))
	c.log = newFsLog(c.md())
	c.log.guard("tmp", filepath.Join(dir, "tmp"))
	c.log.guard("else", filepath.Join(dir, "home"))
	c.log.guard("else", filepath.Join(dir, "cwd"))
	c.log.final = func(n string) bool { return strings.HasSuffix(n, ".json") }
	return c
}
func (c *client) close() {
	c.log.close()
	if c.wire != nil {
		c.wire.srv.Close()
	}
	os.Chdir("/")
}
func (c *client) md() string { return filepath.Join(c.dir, "md") }

type abortT struct{ why string }

// DownloadFile implements fetcher.Fetcher
func (c *client) DownloadFile(u string, max int64, timeout time.Duration) ([]byte, error) {
	role, ver := c.parse(u)
	c.nreq++
	if c.nreq > 600 {
		panic(abortT{"flood"})
	}
	a := c.respond(role, ver, max)
	if a.k == "doc" {
		a.body = c.w.bytes(a.id)
		c.tooLong = nil
		if int64(len(a.body)) > max {
			c.tooLong = a.body
			a = answer{k: "err", id: 2}
		}
	}
	if c.nodir > 0 && !c.gone && c.w.chance(c.nodir) {
		c.gone = true
		fs := c.log.drain()
		os.RemoveAll(c.md())
		c.sc.Ev = append(c.sc.Ev, ev{"e": "nodir", "fs": fs})
		c.log.drain()
	}
	m := max
	if m > 1<<30 || m < -1 {
		m = -7
	}
	if timeout <= 0 {
		m = -8
	}
	e := ev{"e": "fetch", "role": role, "ver": ver, "max": m, "k": a.k, "id": a.id, "wire": true}
	c.stamp(e)
	c.sc.Ev = append(c.sc.Ev, e)
	if a.k == "crash" || c.park != nil && !c.park() {
		panic(abortT{"crash"})
	}
	if c.wire != nil {
		if a.body == nil && a.k == "err" && a.id == 2 && c.tooLong != nil {
			a = answer{k: "doc", body: c.tooLong}
		}
		b, err, ok := c.wire.get(u, max, timeout, a, c.w.rng.Intn(12))
		e["wire"] = ok
		return b, err
	}
	switch a.k {
	case "doc":
		return append([]byte{}, a.body...), nil
	case "http":
		err := error(metadata.ErrDownloadHTTP{StatusCode: a.id, URL: u})
		if a.id%2 == 0 && c.nreq%5 == 0 {
			err = fmt.Errorf("fetching: %w", err)
		}
		return nil, err
	}
	switch a.id {
	case 2:
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long"}
	case 3:
		return nil, os.ErrDeadlineExceeded
	}
	return nil, errors.New("network is down")
}
func (c *client) parse(u string) (string, int) {
	rest, ok := strings.CutPrefix(u, c.url+"/")
	if !ok || strings.Contains(rest, "/") || !strings.HasSuffix(rest, ".json") {
		return "?" + u, -99
	}
	rest = strings.TrimSuffix(rest, ".json")
	ver := -1
	if i := strings.IndexByte(rest, '.'); i > 0 {
		if n, err := strconv.ParseInt(rest[:i], 10, 64); err == nil {
			v := n - c.w.vbase
			if v < 0 || v > 1<<30 {
				v = -98
			}
			ver = int(v)
			rest = rest[i+1:]
		}
	}
	q, err := url.QueryUnescape(rest)
	if err != nil {
		return "?" + u, -99
	}
	return q, ver
}
func (c *client) stamp(e ev) {
	if c.up == nil {
		e["tm"] = noTm()
	} else {
		e["tm"] = c.w.observe(c.up.GetTrustedMetadataSet())
	}
	e["disk"] = c.w.diskState(c.md())
	e["fs"] = c.log.drain()
	e["stray"] = c.strays()
}

// guard runs f; it reports panics, endless loops and simulated crashes
func (c *client) guard(f func()) (ok bool) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if a, is := r.(abortT); is {
					done <- a.why
					return
				}
				done <- "panic: " + fmt.Sprint(r) + "\n" + string(debug.Stack())
				return
			}
			done <- ""
		}()
		withFileLimit(c.cfg.FSize, func() bool { f(); return true })
	}()
	var s string
	for waits := true; waits; {
		select {
		case s = <-done:
			waits = false
		case <-time.After(20 * time.Second):
			if !c.parked.Load() {
				s, waits = "hang", false
			}
		}
	}
	switch {
	case s == "":
		return true
	case s == "crash":
		c.live = false
		return false
	case s == "flood":
		c.sc.Ev = append(c.sc.Ev, ev{"e": "flood"})
	case s == "hang":
		c.sc.Ev = append(c.sc.Ev, ev{"e": "hang"})
		hung = true
	default:
		c.sc.Ev = append(c.sc.Ev, ev{"e": "panic", "msg": s})
	}
	c.dead, c.live = true, false
	return false
}

var hung bool

func (c *client) newSession(root int, cc cliCfg) bool {
	if c.dead {
		return false
	}
	if c.gone {
		os.MkdirAll(c.md(), 0o755)
		c.log.watch()
		c.gone = false
	}
	c.cfg = cc
	c.blocked = map[string]bool{}
	for _, b := range cc.Blocked {
		c.blocked[b] = true
		f := filepath.Join(c.md(), url.QueryEscape(b)+".json")
		os.RemoveAll(f)
		os.MkdirAll(filepath.Join(f, "x"), 0o755)
	}
	pre := c.w.diskState(c.md())
	c.log.drain()
	cfg, err := config.New(c.url, c.w.bytes(root))
	if err != nil {
		panic(err)
	}
	cfg.LocalMetadataDir = c.md()
	cfg.LocalTargetsDir = filepath.Join(c.dir, "targets")
	cfg.MaxRootRotations, cfg.MaxDelegations = int64(cc.MaxRot), cc.MaxDel
	cfg.RootMaxLength, cfg.TimestampMaxLength, cfg.SnapshotMaxLength, cfg.TargetsMaxLength = int64(cc.RootMax), int64(cc.TsMax), int64(cc.SnMax), int64(cc.TgMax)
	cfg.DisableLocalCache = !cc.Cache
	cfg.UnsafeLocalMode = cc.Offline
	if c.wire != nil {
		c.wire.real = cfg.Fetcher
	}
	cfg.Fetcher = c
	c.up, c.nreq = nil, 0
	var up *updater.Updater
	if !c.guard(func() { up, err = updater.New(cfg) }) {
		return false
	}
	if err == nil {
		c.up = up
	}
	e := ev{"e": "new", "root": root, "pre": pre, "cfg": cc, "err": err != nil}
	if err != nil {
		e["msg"] = err.Error()
	}
	c.stamp(e)
	c.sc.Ev = append(c.sc.Ev, e)
	c.live = err == nil
	return c.live
}
func (c *client) endSession() {
	es, _ := os.ReadDir(c.md())
	for _, e := range es {
		if e.IsDir() {
			os.RemoveAll(filepath.Join(c.md(), e.Name()))
		}
	}
	c.cfg = cliCfg{}
	c.live = false
}
func (c *client) refresh() bool {
	if !c.live {
		return false
	}
	c.sc.Ev = append(c.sc.Ev, ev{"e": "call", "op": "refresh", "path": ""})
	var err error
	if !c.guard(func() { err = c.up.Refresh() }) {
		return false
	}
	c.ret(err, "", 0)
	return err == nil
}

func (c *client) info(path string) bool {
	if !c.live {
		return false
	}
	c.w.paths[path] = true
	c.sc.Ev = append(c.sc.Ev, ev{"e": "call", "op": "info", "path": path})
	var err error
	var tf *metadata.TargetFiles
	if !c.guard(func() { tf, err = c.up.GetTargetInfo(path) }) {
		return false
	}
	role, doc := "", 0
	if err == nil {
		role, doc = c.source(tf, path)
		c.caught = tf
	}
	c.ret(err, role, doc)
	return err == nil
}

// source tells which role's document the answer was taken from
func (c *client) source(tf *metadata.TargetFiles, path string) (string, int) {
	if tf == nil {
		return "?nil", -1
	}
	t := c.up.GetTrustedMetadataSet()
	o := c.w.observe(t)
	if tf.Path != path {
		return "?path", -1
	}
	for _, r := range sortedKeys(t.Targets) {
		if t.Targets[r].Signed.Targets[path] == tf {
			return r, o.Tg[r]
		}
	}
	// not the same object: look for the same content
	for _, r := range sortedKeys(t.Targets) {
		if x, ok := t.Targets[r].Signed.Targets[path]; ok && x.Equal(*tf) && x.Length == tf.Length && x.Path == tf.Path && len(x.Hashes) == len(tf.Hashes) {
			return r, o.Tg[r]
		}
	}
	return "?none", -1
}
func (c *client) ret(err error, role string, doc int) {
	e := ev{"e": "ret", "err": err != nil, "role": role, "doc": doc}
	if err != nil {
		e["msg"] = err.Error()
	}
	c.stamp(e)
	c.sc.Ev = append(c.sc.Ev, e)
}

// corrupt does something to the cache between sessions
func (c *client) corrupt() {
	w := c.w
	es, _ := os.ReadDir(c.md())
	if len(es) == 0 {
		return
	}
	f := filepath.Join(c.md(), es[w.rng.Intn(len(es))].Name())
	b, _ := os.ReadFile(f)
	switch w.rng.Intn(7) {
	case 0:
		os.Remove(f)
	case 1:
		os.WriteFile(f, b[:len(b)/2], 0o644)
	case 2:
		os.WriteFile(f, nil, 0o644)
	case 3:
		os.WriteFile(f, []byte(pick(w, []string{"{}", "null", "{\"signed\":{}}", "[]", "\x00", `{"signed":{"_type":"timestamp"},"signatures":[]}`,
			`{"signed":{"_type":"targets"}}`, `{"signed":{"_type":"snapshot","version":1}}`})), 0o644)
	case 4:
		if len(b) > 10 {
			i := w.rng.Intn(len(b))
			b[i] ^= byte(1 << w.rng.Intn(8))
			if json.Valid(b) { // may mean the same, or nearly
				b = b[:i]
			}
		}
		os.WriteFile(f, b, 0o644)
	default: // the content of another document
		os.WriteFile(f, w.docs[w.rng.Intn(len(w.docs))].bytes, 0o644)
	}
}

// learn gives an id to contents of the cache that no document has: bytes that
// the generator damaged
func (c *client) learn() {
	es, _ := os.ReadDir(c.md())
	for _, e := range es {
		if b, err := os.ReadFile(filepath.Join(c.md(), e.Name())); err == nil && c.w.idOf(b) < 0 {
			c.w.addRaw(b)
		}
	}
}
