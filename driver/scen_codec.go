package main

// Reading and writing documents: correct ones with unrecognized fields
// everywhere, damaged ones, bytes that are no JSON at all.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
)

type jnode struct {
	K    string   `json:"k"`
	S    string   `json:"s"`
	N    int      `json:"n"`
	Keys []string `json:"keys"`
	C    []int    `json:"c"`
}

var hexRE = regexp.MustCompile(`^([0-9a-fA-F][0-9a-fA-F])*$`)
var intRE = regexp.MustCompile(`^-?[0-9]+$`)

// arena writes the tree as a list of nodes, the first one is the root
func arena(v any) []jnode {
	r := []jnode{}
	var put func(v any) int
	put = func(v any) int {
		i := len(r)
		n := jnode{Keys: []string{}, C: []int{}}
		r = append(r, n)
		switch x := v.(type) {
		case map[string]any:
			n.K = "obj"
			for _, k := range sortedKeys(x) {
				n.Keys = append(n.Keys, k)
				n.C = append(n.C, put(x[k]))
			}
		case []any:
			n.K = "arr"
			for _, e := range x {
				n.C = append(n.C, put(e))
			}
		case string:
			n.S = x
			if len(x) > 80 {
				n.S = x[:80] + "..."
			}
			var t time.Time
			q, _ := json.Marshal(x)
			switch {
			case hexRE.MatchString(x):
				n.K = "hex"
			case t.UnmarshalJSON(q) == nil:
				n.K = "time"
			default:
				n.K = "str"
			}
		case json.Number:
			n.K = "float"
			if intRE.MatchString(x.String()) {
				if k, err := x.Int64(); err == nil && k > math.MinInt32 && k < math.MaxInt32 {
					n.K, n.N = "int", int(k)
				} else if err == nil && k > -1<<53 && k < 1<<53 {
					n.K = "big"
				} else if err == nil {
					n.K = "long"
				}
			}
		case bool:
			n.K = "bool"
		default:
			n.K = "null"
		}
		r[i] = n
		return i + 1
	}
	put(v)
	return r
}

var oddNames = []string{"x-new", "é", "a b", "_x", "x/y", "ключ", "x\"q\\", "~", "😀"}

func (w *World) oddValue(depth int) any {
	switch w.rng.Intn(9) {
	case 0:
		return json.Number(fmt.Sprint(w.rng.Intn(1 << 30)))
	case 1:
		return json.Number(fmt.Sprint(-w.rng.Intn(1000)))
	case 2:
		return pick(w, []any{true, false, nil})
	case 3:
		return pick(w, []string{"", "é", "<a>&b", "line\nbreak\ttab", "q\"uote\\", "\u2028", "日本", "2030-01-01T00:00:00Z", "00ff", "\x7f", "\x01"})
	case 4, 5:
		if depth > 0 {
			a := []any{}
			for k := w.rng.Intn(4); k > 0; k-- {
				a = append(a, w.oddValue(depth-1))
			}
			return a
		}
	case 6, 7:
		if depth > 0 {
			m := map[string]any{}
			for k := w.rng.Intn(4); k > 0; k-- {
				m[pick(w, append(oddNames, "version", "keys", "signed", ""))] = w.oddValue(depth - 1)
			}
			return m
		}
	}
	return json.Number(fmt.Sprint(w.rng.Int63n(1 << 52)))
}

// closed objects have names that mean something for all their members
func closed(path string) bool {
	for _, s := range []string{"/hashes", "/signed/keys", "/signed/roles", "/signed/meta", "/signed/targets", "/delegations/keys"} {
		if strings.HasSuffix(path, s) {
			return true
		}
	}
	return false
}
func inCustom(path string) bool {
	return strings.Contains(path, "/custom") || strings.Contains(path, "/x-") || strings.Contains(path, "/signatures")
}

// correct makes a correct document of the type, signed by key
func (w *World) correct(typ, key string) map[string]any {
	d := &Doc{Typ: typ, Ver: 1 + w.rng.Intn(5), Exp: 1 + w.rng.Intn(99), JSON: true}
	some := func() ([]string, int) {
		ks := []string{}
		for _, k := range []string{"e1", "e2", "p1", "q2", "r1", "e7~b"} {
			if w.chance(40) {
				ks = append(ks, k)
			}
		}
		return ks, 1 + w.rng.Intn(3)
	}
	hs := func() []Hs {
		return pick(w, [][]Hs{{{"sha256", -1}}, {{"sha512", -2}}, {{"sha256", -1}, {"sha512", -2}}})
	}
	keys := map[string]string{"e1": "e1", "p1": "p1", "e7~b": "e7"}
	if w.chance(50) {
		keys["r1"], keys["q2"] = "r1", "q2"
	}
	switch typ {
	case "root":
		d.CS = w.chance(50)
		d.Keys, d.Roles = keys, map[string]RoleSpec{}
		for _, r := range []string{"root", "timestamp", "snapshot", "targets", "mirrors"} {
			if w.chance(90) {
				k, t := some()
				d.Roles[r] = RoleSpec{k, t}
			}
		}
	case "timestamp", "snapshot":
		d.Meta = map[string]MetaEnt{}
		for _, n := range []string{"snapshot.json", "targets.json", "a/b.json", "ü <&>.json", ""} {
			if w.chance(60) {
				e := MetaEnt{Ver: 1 + w.rng.Intn(9)}
				if w.chance(50) {
					e.Len = 1 + w.rng.Intn(999)
				}
				if w.chance(50) {
					e.Hs = hs()
				}
				d.Meta[n] = e
			}
		}
	default:
		d.Tgts = map[string]TgtEnt{}
		for _, n := range []string{"a", "b/c", "é <&>", "x y", ""} {
			if w.chance(60) {
				d.Tgts[n] = TgtEnt{Len: w.rng.Intn(3) * w.rng.Intn(999), Hs: hs()}
			}
		}
		switch w.rng.Intn(4) {
		case 0:
			d.DK, d.DKeys = "succinct", keys
			d.SKids, d.SThr = some()
			d.BL, d.Pre = 1+w.rng.Intn(32), pick(w, []string{"bin", "ü", "a/b", ""})
		case 1, 2:
			d.DK, d.DKeys = "roles", keys
			for _, n := range []string{"r", "s/t", "é", "Root"} {
				if !w.chance(70) {
					continue
				}
				k, t := some()
				r := DRole{Name: n, Kids: k, Thr: t, Term: w.chance(50)}
				if w.chance(70) {
					r.RawPaths = []string{"*", "a/?", "[a-z]*", "é/*"}[w.rng.Intn(3):]
				} else {
					r.RawPrefixes = []string{"00", "a", "ff01"}[w.rng.Intn(3):]
				}
				d.DRoles = append(d.DRoles, r)
			}
		}
	}
	d.norm()
	v, err := parseJSON(canonBytes(w.signedJSON(d)))
	if err != nil {
		panic(err)
	}
	if w.chance(15) { // times written in other ways
		v.(map[string]any)["expires"] = pick(w, []string{"2031-05-06T07:08:09+02:00", "2031-05-06T07:08:09-05:30", "2031-05-06T07:08:09.25Z", "9999-12-31T23:59:59Z", "2031-05-06T07:08:09.000000001+14:00"})
	}
	if typ == "targets" {
		ts := v.(map[string]any)["targets"].(map[string]any)
		for _, n := range sortedKeys(ts) {
			t := ts[n].(map[string]any)
			delete(t, "custom")
			if w.chance(50) {
				for t["custom"] == nil {
					t["custom"] = w.oddValue(3)
				}
			}
		}
	}
	// unrecognized fields wherever there may be some
	inject := func(v *any, base string) {
		for _, s := range spots(v) {
			m, ok := s.val.(map[string]any)
			if !ok || closed(base+s.path) || inCustom(s.path) || !w.chance(35) {
				continue
			}
			for k := 1 + w.rng.Intn(2); k > 0; k-- {
				n := pick(w, oddNames)
				if _, has := m[n]; !has {
					m[n] = w.oddValue(2)
				}
			}
		}
	}
	if w.chance(80) {
		inject(&v, "/signed")
	}
	sigs := []any{}
	sig := func(k string, ok bool) {
		b := mat(k).sign(canon(v))
		if !ok {
			b = []byte(w.randStr("\x00\xffabc", w.rng.Intn(70)))
		}
		sigs = append(sigs, map[string]any{"keyid": mat(k).kid, "sig": hex.EncodeToString(b)})
	}
	sig(key, true)
	for _, k := range []string{"e2", "p1", "r2"} {
		if w.chance(25) {
			sig(k, w.chance(60))
		}
	}
	w.rng.Shuffle(len(sigs), func(i, j int) { sigs[i], sigs[j] = sigs[j], sigs[i] })
	var env any = map[string]any{"signed": v, "signatures": sigs}
	if w.chance(60) {
		m := env.(map[string]any)
		for k := w.rng.Intn(3); k > 0; k-- {
			m[pick(w, oddNames)] = w.oddValue(2)
		}
		for _, s := range sigs {
			if w.chance(40) {
				s.(map[string]any)[pick(w, oddNames)] = w.oddValue(2)
			}
		}
	}
	return env.(map[string]any)
}

// a delegator that trusts key for everything
func (w *World) truster(key string) (*metadata.Metadata[metadata.RootType], error) {
	m := metadata.Root(T0.Add(1000 * time.Hour))
	k, err := metadata.KeyFromPublicKey(mat(key).priv.Public())
	if err != nil {
		return nil, err
	}
	for _, r := range metadata.TOP_LEVEL_ROLE_NAMES {
		if err := m.Signed.AddKey(k, r); err != nil {
			return nil, err
		}
	}
	return m, nil
}

type codec struct {
	w    *World
	sc   *Scen
	dir  string
	key  string
	tr   *metadata.Metadata[metadata.RootType]
	self *held[metadata.RootType]
}

// read gives the bytes to the library as metadata of type typ
func (c *codec) read(b []byte, typ, how string, odd bool) {
	w := c.w
	e := ev{"e": "read", "as": typ, "how": how, "odd": odd, "json": json.Valid(b), "in": []jnode{{K: "null", Keys: []string{}, C: []int{}}},
		"errs": map[string]bool{}, "same": false, "again": false, "sigok": false, "werr": false, "diff": []string{}}
	var v any
	if json.Valid(b) {
		v, _ = parseJSON(b)
		e["in"] = arena(v)
	}
	errs := map[string]bool{}
	record(c.sc, e, func() {
		h := newHolder(typ)
		err := h.read(b)
		errs["bytes"] = err != nil
		if err != nil {
			e["msg"] = err.Error()
		}
		// the other ways in
		file := filepath.Join(c.dir, "doc.json")
		os.WriteFile(file, b, 0o644)
		switch typ {
		case "root":
			_, ferr := new(metadata.Metadata[metadata.RootType]).FromFile(file)
			errs["file"] = ferr != nil
		case "timestamp":
			_, ferr := new(metadata.Metadata[metadata.TimestampType]).FromFile(file)
			errs["file"] = ferr != nil
		case "snapshot":
			_, ferr := new(metadata.Metadata[metadata.SnapshotType]).FromFile(file)
			errs["file"] = ferr != nil
		case "targets":
			_, ferr := new(metadata.Metadata[metadata.TargetsType]).FromFile(file)
			errs["file"] = ferr != nil
		}
		os.Remove(file)
		if err == nil {
			e["errs"] = errs
			c.use(e, h, v)
			return
		}
		// what is refused is refused by the trusted set as well
		errs["set"] = true
		if typ == "root" {
			_, serr := trustedmetadata.New(b)
			errs["set"] = serr != nil
		} else if rb, rerr := c.rootBytes(); rerr == nil {
			set, serr := trustedmetadata.New(rb)
			if serr == nil && typ == "timestamp" {
				_, serr = set.UpdateTimestamp(b)
				errs["set"] = serr != nil
			}
			if serr == nil && typ == "root" {
				_, serr = set.UpdateRoot(b)
				errs["set"] = serr != nil
			}
		}
		e["errs"] = errs
	})
	_ = w
}
func (c *codec) rootBytes() ([]byte, error) {
	if c.self == nil {
		s, err := signerOf(c.key, false)
		if err != nil {
			return nil, err
		}
		if _, err := c.tr.Sign(s); err != nil {
			return nil, err
		}
		c.self = &held[metadata.RootType]{"root", c.tr}
	}
	return c.self.bytes(false)
}

// use works with a document that was read
func (c *codec) use(e ev, h holder, v any) {
	a, err := h.bytes(false)
	e["werr"] = err != nil
	if err != nil {
		e["msg"] = err.Error()
		return
	}
	b, err := h.bytes(c.w.chance(50))
	if err != nil {
		e["werr"] = true
		return
	}
	av, aerr := parseJSON(a)
	bv, berr := parseJSON(b)
	if aerr == nil && berr == nil {
		x, y, z := leaves(v), leaves(av), leaves(bv)
		e["same"] = strings.Join(x, "\n") == strings.Join(y, "\n") && strings.Join(x, "\n") == strings.Join(z, "\n")
		e["diff"] = listDiff(x, y)
	}
	// written twice, and read and written again
	a2, err2 := h.bytes(false)
	h2 := newHolder(h.typ())
	again := err2 == nil && bytes.Equal(a, a2) && h2.read(b) == nil
	if again {
		a3, err3 := h2.bytes(false)
		again = err3 == nil && bytes.Equal(a, a3)
	}
	// and by way of a file
	file := filepath.Join(c.dir, "out.json")
	if err := toFile(h, file); err == nil {
		fb, _ := os.ReadFile(file)
		again = again && bytes.Equal(fb, a)
	} else {
		again = false
	}
	os.Remove(file)
	e["again"] = again
	e["sigok"] = c.tr.VerifyDelegate(h.typ(), h.any()) == nil && c.tr.VerifyDelegate(h.typ(), h2.any()) == nil
	// nothing that was read makes the other operations panic
	exercise(c.w, h)
}
func toFile(h holder, f string) error {
	switch m := h.any().(type) {
	case *metadata.Metadata[metadata.RootType]:
		return m.ToFile(f, false)
	case *metadata.Metadata[metadata.TimestampType]:
		return m.ToFile(f, false)
	case *metadata.Metadata[metadata.SnapshotType]:
		return m.ToFile(f, false)
	case *metadata.Metadata[metadata.TargetsType]:
		return m.ToFile(f, false)
	}
	return nil
}
func listDiff(x, y []string) []string {
	r := []string{}
	in := map[string]bool{}
	for _, s := range y {
		in[s] = true
	}
	for _, s := range x {
		if !in[s] && len(r) < 4 {
			r = append(r, "- "+cut(s))
		}
		delete(in, s)
	}
	for _, s := range sortedKeys(in) {
		if len(r) < 8 {
			r = append(r, "+ "+cut(s))
		}
	}
	return r
}
func cut(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}
func exercise(w *World, h holder) {
	now := T0
	key, _ := metadata.KeyFromPublicKey(mat("e5").priv.Public())
	switch m := h.any().(type) {
	case *metadata.Metadata[metadata.RootType]:
		m.Signed.IsExpired(now)
		for r := range m.Signed.Roles {
			m.VerifyDelegate(r, m)
		}
		for _, k := range m.Signed.Keys {
			keyID(k)
			k.ToPublicKey()
		}
	case *metadata.Metadata[metadata.TimestampType]:
		m.Signed.IsExpired(now)
		for _, f := range m.Signed.Meta {
			f.VerifyLengthHashes([]byte("x"))
		}
	case *metadata.Metadata[metadata.SnapshotType]:
		m.Signed.IsExpired(now)
		for _, f := range m.Signed.Meta {
			f.VerifyLengthHashes([]byte("x"))
		}
	case *metadata.Metadata[metadata.TargetsType]:
		m.Signed.IsExpired(now)
		for _, f := range m.Signed.Targets {
			f.VerifyLengthHashes([]byte("x"))
			f.Equal(*f)
		}
		m.VerifyDelegate("r", m)
		if d := m.Signed.Delegations; d != nil {
			for _, p := range []string{"a", "a/b", "", "é"} {
				d.GetRolesForTarget(p)
				if s := d.SuccinctRoles; s != nil && s.BitLength < 12 {
					s.GetRolesForTarget(p)
					s.IsDelegatedRole(p)
					s.GetRoles()
				}
			}
			for _, r := range d.Roles {
				m.VerifyDelegate(r.Name, m)
				r.IsDelegatedPath("a/b")
				m.Signed.RevokeKey("nokey", r.Name)
			}
			for _, k := range d.Keys {
				keyID(k)
				k.ToPublicKey()
			}
			if d.Keys != nil {
				m.Signed.AddKey(key, "r")
			}
		}
	}
	h.clear()
}

func copyJSON(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = copyJSON(e)
		}
		return m
	case []any:
		a := []any{}
		for _, e := range x {
			a = append(a, copyJSON(e))
		}
		return a
	}
	return v
}

// keyID: the ID of a key with numbers that cannot be written canonically is
// undefined, ID panics by design
func keyID(k *metadata.Key) {
	defer func() {
		if r := recover(); r != nil && !strings.Contains(fmt.Sprint(r), "error creating key ID") {
			panic(r)
		}
	}()
	k.ID()
}

var wrongValues = []any{nil, true, json.Number("0"), json.Number("-1"), json.Number("1.5"), json.Number("1e3"), json.Number("33"), json.Number("99999999999"),
	json.Number("99999999999999999999999"), "", "x", "00", "zz", "root", "timestamp", "snapshot", "targets", []any{}, []any{nil}, []any{"a", json.Number("1")}, []any{map[string]any{}},
	map[string]any{}, map[string]any{"a": nil}, map[string]any{"a": map[string]any{}}, map[string]any{"a": "b"}, map[string]any{"keyval": nil}}

func scenCodec(w *World, name, dir string) *Scen {
	c := &codec{w: w, sc: &Scen{N: name, Ev: []ev{}}, dir: dir, key: pick(w, []string{"e8", "p8", "r2"})}
	var err error
	if c.tr, err = w.truster(c.key); err != nil {
		c.sc.Ev = append(c.sc.Ev, ev{"e": "harness", "msg": err.Error()})
		return c.sc
	}
	types := []string{"root", "timestamp", "snapshot", "targets"}
	for n := 1; n > 0; n-- {
		typ := pick(w, append(types, "root", "targets"))
		doc := w.correct(typ, c.key)
		c.read(w.scramble(doc), typ, "correct", false)
		for k := 4; k > 0; k-- {
			b := canonBytes(doc)
			v, _ := parseJSON(b)
			switch w.rng.Intn(10) {
			case 0: // as another type
				c.read(b, pick(w, types), "as", false)
			case 1, 2: // bytes
				o := append([]byte{}, b...)
				switch w.rng.Intn(6) {
				case 0:
					o = o[:w.rng.Intn(len(o))]
				case 1:
					o[w.rng.Intn(len(o))] ^= 1 << w.rng.Intn(8)
				case 2:
					i := w.rng.Intn(len(o))
					o = append(append(append([]byte{}, o[:i]...), pick(w, []string{"{", "}", ",", "\"", "null", "[", "\x00", "0"})...), o[i:]...)
				case 3:
					o = append(o, pick(w, []string{"x", "{}", "\x00", ",", "null"})...)
				case 4:
					o = append([]byte(pick(w, []string{"\xef\xbb\xbf", "x", "[", "\x00"})), o...)
				default:
					o = []byte(pick(w, []string{"", "null", "[]", "{}", "0", "\"root\"", "true", `{"signed":null}`, `{"signed":null,"signatures":[]}`, `{"signatures":[]}`,
						`{"signed":[],"signatures":[]}`, `{"signed":{},"signatures":[]}`, `{"signed":{"_type":null}}`, `{"signed":{"_type":["root"]}}`,
						strings.Repeat("[", 20000), strings.Repeat(`{"signed":`, 12000), `{"signed":{"_type":"` + typ + `"},"signatures":null}`,
						`{"signed":{"_type":"` + typ + `","x":` + strings.Repeat("[", 12000) + strings.Repeat("]", 12000) + `},"signatures":[]}`}))
				}
				c.read(o, typ, "bytes", true)
			default: // some part is something else
				times := 1
				if w.chance(20) {
					times = 2
				}
				if w.chance(15) { // two members of one object
					os := []map[string]any{}
					for _, s := range spots(&v) {
						if m, ok := s.val.(map[string]any); ok && len(m) > 1 && !inCustom(s.path) {
							os = append(os, m)
						}
					}
					m := pick(w, os)
					ks := sortedKeys(m)
					for _, i := range w.rng.Perm(len(ks))[:2] {
						switch m[ks[i]].(type) {
						case []any:
							m[ks[i]] = pick(w, []any{[]any{}, nil, []any{}})
						case map[string]any:
							m[ks[i]] = pick(w, []any{map[string]any{}, nil})
						case json.Number:
							m[ks[i]] = pick(w, []any{json.Number("0"), json.Number("0"), json.Number("-1"), nil})
						case string:
							m[ks[i]] = pick(w, []any{"", nil, "root"})
						default:
							delete(m, ks[i])
						}
					}
					times = 0
				}
				for ; times > 0; times-- {
					sp := spots(&v)
					s := sp[w.rng.Intn(len(sp))]
					for try := 0; try < 6 && inCustom(s.path) && !strings.Contains(s.path, "signatures"); try++ {
						s = sp[w.rng.Intn(len(sp))]
					}
					switch {
					case w.chance(20) && s.del != nil:
						s.del()
					case w.chance(15):
						if a, ok := s.val.([]any); ok && len(a) > 0 {
							s.set(append(append([]any{}, a...), a[w.rng.Intn(len(a))]))
						} else if m, ok := s.val.(map[string]any); ok {
							m[pick(w, oddNames)] = copyJSON(pick(w, wrongValues))
						}
					case w.chance(15):
						s.set(w.alter(s.val))
					default:
						s.set(copyJSON(pick(w, wrongValues)))
					}
				}
				c.read(canonBytes(v), typ, "parts", false)
			}
		}
	}
	c.built()
	return c.sc
}

// built: a document made with the API is the same after writing and reading it
func (c *codec) built() {
	w := c.w
	e := ev{"e": "built", "err": true, "same": false, "sigok": false}
	record(c.sc, e, func() {
		exp := T0.Add(time.Duration(w.rng.Intn(100000)) * time.Second)
		switch w.rng.Intn(3) {
		case 1:
			exp = exp.Add(time.Duration(w.rng.Intn(1e9)))
		case 2:
			exp = exp.In(time.FixedZone("x", 3600*(w.rng.Intn(24)-12)))
		}
		k, err := metadata.KeyFromPublicKey(mat(pick(w, []string{"e1", "p1", "r1"})).priv.Public())
		if err != nil {
			return
		}
		unrec := map[string]any{"x": "é<>&", "list": []any{true, nil, "s"}}
		hs := metadata.Hashes{"sha256": metadata.HexBytes{0, 1, 255}, "sha512": []byte("\x10")}
		var h holder
		switch w.rng.Intn(5) {
		case 0:
			m := metadata.Root(exp)
			m.Signed.ConsistentSnapshot = w.chance(50)
			m.Signed.Version = 1 + w.rng.Int63n(1<<40)
			m.Signed.UnrecognizedFields = unrec
			for _, r := range metadata.TOP_LEVEL_ROLE_NAMES {
				if err := m.Signed.AddKey(k, r); err != nil {
					return
				}
				m.Signed.Roles[r].Threshold = 1 + w.rng.Intn(5)
			}
			h = &held[metadata.RootType]{"root", m}
		case 1:
			m := metadata.Timestamp(exp)
			m.Signed.Meta["snapshot.json"] = &metadata.MetaFiles{Version: 7, Length: int64(w.rng.Intn(3)), Hashes: hs, UnrecognizedFields: unrec}
			h = &held[metadata.TimestampType]{"timestamp", m}
		case 2:
			m := metadata.Snapshot(exp)
			m.Signed.Meta["a/é.json"] = metadata.MetaFile(1 + w.rng.Int63n(1<<40))
			m.UnrecognizedFields = unrec
			h = &held[metadata.SnapshotType]{"snapshot", m}
		default:
			m := metadata.Targets(exp)
			t, err := metadata.TargetFile().FromBytes("p/é", []byte("content"), "sha256", "sha512")
			if err != nil {
				return
			}
			if w.chance(50) {
				raw := json.RawMessage(`{"b":1,"a":[null,"x"]}`)
				t.Custom = &raw
			}
			m.Signed.Targets["p/é"] = t
			switch w.rng.Intn(3) {
			case 0:
				m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{
					{Name: "r", KeyIDs: []string{}, Threshold: 1, Terminating: true, Paths: []string{"*"}, UnrecognizedFields: unrec},
					{Name: "s", KeyIDs: []string{}, Threshold: 2, PathHashPrefixes: []string{"a0"}}}}
				if err := m.Signed.AddKey(k, "r"); err != nil {
					return
				}
			case 1:
				m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, UnrecognizedFields: unrec,
					SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: 1 + w.rng.Intn(32), NamePrefix: "bin", UnrecognizedFields: unrec}}
				if err := m.Signed.AddKey(k, "x"); err != nil {
					return
				}
			}
			h = &held[metadata.TargetsType]{"targets", m}
		}
		s, err := signerOf(c.key, false)
		if err != nil {
			return
		}
		if _, err := h.sign(s); err != nil {
			return
		}
		b, err := h.bytes(w.chance(50))
		if err != nil {
			return
		}
		h2 := newHolder(h.typ())
		if err := h2.read(b); err != nil {
			e["msg"] = err.Error()
			return
		}
		x, err1 := h.bytes(false)
		y, err2 := h2.bytes(false)
		e["err"] = err1 != nil || err2 != nil
		e["same"] = bytes.Equal(x, y) && sameMeta(h, h2)
		e["sigok"] = c.tr.VerifyDelegate(h.typ(), h.any()) == nil && c.tr.VerifyDelegate(h.typ(), h2.any()) == nil
	})
}

// sameMeta compares the parts that programs use
func sameMeta(a, b holder) bool {
	f := func(h holder) string {
		s := ""
		hd := func(t, sv string, v int64, e time.Time) {
			s += fmt.Sprintf("%s %s %d %d;", t, sv, v, e.UnixNano())
		}
		mf := func(m map[string]*metadata.MetaFiles) {
			for _, k := range sortedKeys(m) {
				s += fmt.Sprintf("%q %d %d %v;", k, m[k].Version, m[k].Length, m[k].Hashes)
			}
		}
		key := func(m map[string]*metadata.Key) {
			for _, k := range sortedKeys(m) {
				s += fmt.Sprintf("%q %s %s %s %s;", k, m[k].Type, m[k].Scheme, m[k].Value.PublicKey, m[k].ID())
			}
		}
		switch m := h.any().(type) {
		case *metadata.Metadata[metadata.RootType]:
			hd(m.Signed.Type, m.Signed.SpecVersion, m.Signed.Version, m.Signed.Expires)
			s += fmt.Sprint(m.Signed.ConsistentSnapshot)
			key(m.Signed.Keys)
			for _, k := range sortedKeys(m.Signed.Roles) {
				s += fmt.Sprintf("%q %v %d;", k, m.Signed.Roles[k].KeyIDs, m.Signed.Roles[k].Threshold)
			}
		case *metadata.Metadata[metadata.TimestampType]:
			hd(m.Signed.Type, m.Signed.SpecVersion, m.Signed.Version, m.Signed.Expires)
			mf(m.Signed.Meta)
		case *metadata.Metadata[metadata.SnapshotType]:
			hd(m.Signed.Type, m.Signed.SpecVersion, m.Signed.Version, m.Signed.Expires)
			mf(m.Signed.Meta)
		case *metadata.Metadata[metadata.TargetsType]:
			hd(m.Signed.Type, m.Signed.SpecVersion, m.Signed.Version, m.Signed.Expires)
			for _, k := range sortedKeys(m.Signed.Targets) {
				t := m.Signed.Targets[k]
				s += fmt.Sprintf("%q %d %v %v;", k, t.Length, t.Hashes, t.Custom != nil)
			}
			if d := m.Signed.Delegations; d != nil {
				key(d.Keys)
				for _, r := range d.Roles {
					s += fmt.Sprintf("%q %v %d %v %q %q;", r.Name, r.KeyIDs, r.Threshold, r.Terminating, r.Paths, r.PathHashPrefixes)
				}
				if r := d.SuccinctRoles; r != nil {
					s += fmt.Sprintf("%q %v %d %d;", r.NamePrefix, r.KeyIDs, r.Threshold, r.BitLength)
				}
			}
		}
		for _, g := range *h.sigs() {
			s += g.KeyID + "=" + hex.EncodeToString(g.Signature) + ";"
		}
		return s
	}
	return f(a) == f(b)
}
