package main

// Abstract documents (what the TLA+ specification talks about) and their
// concretisation to bytes.  Nothing here uses the library under test: canonical
// JSON, key ids and signatures are produced independently.

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	_ "embed"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	mrand "math/rand"
	"sort"
	"strings"
	"sync"
	"time"
)

type Sig struct {
	Kid string `json:"kid"`
	Mat string `json:"mat"`
	OK  bool   `json:"ok"`
}
type RoleSpec struct {
	Kids []string `json:"kids"`
	Thr  int      `json:"thr"`
}
type Hs struct {
	Alg string `json:"alg"`
	Of  int    `json:"of"`
}
type MetaEnt struct {
	Ver int  `json:"ver"`
	Len int  `json:"len"`
	Hs  []Hs `json:"hs"`
}
type TgtEnt struct {
	Len int  `json:"len"`
	Hs  []Hs `json:"hs"`
}
type DRole struct {
	Name     string    `json:"name"`
	Kids     []string  `json:"kids"`
	Thr      int       `json:"thr"`
	Term     bool      `json:"term"`
	Paths    [][][]int `json:"paths"`
	Prefixes [][]int   `json:"prefixes"`

	RawPaths    []string `json:"-"`
	RawPrefixes []string `json:"-"`
}
type Doc struct {
	ID     int                 `json:"id"`
	JSON   bool                `json:"json"`
	Typ    string              `json:"typ"`
	Ver    int                 `json:"ver"`
	Exp    int                 `json:"exp"`
	Size   int                 `json:"size"`
	Sigs   []Sig               `json:"sigs"`
	CS     bool                `json:"cs"`
	Keys   map[string]string   `json:"keys"`
	Roles  map[string]RoleSpec `json:"roles"`
	Meta   map[string]MetaEnt  `json:"meta"`
	Tgts   map[string]TgtEnt   `json:"tgts"`
	DK     string              `json:"dk"` // "none", "roles", "succinct"
	DKeys  map[string]string   `json:"dkeys"`
	DRoles []DRole             `json:"droles"`
	BL     int                 `json:"bl"`
	Pre    string              `json:"pre"`
	SKids  []string            `json:"skids"`
	SThr   int                 `json:"sthr"`

	// concretisation only
	Raw    []byte         `json:"-"` // content that is not metadata
	Pad    int            `json:"-"`
	WS     int            `json:"-"` // formatting variant
	Extra  map[string]any `json:"-"` // unrecognised fields of signed
	forceX bool
	xenv   bool
	bytes  []byte
	signed []byte // canonical form of signed
	fp     string
	role   string // what the generator made it for
}

func (d *Doc) clone() *Doc {
	c := *d
	c.Sigs = append([]Sig{}, d.Sigs...)
	c.Keys = cpm(d.Keys)
	c.Roles = cpm(d.Roles)
	for k, v := range c.Roles {
		v.Kids = append([]string{}, v.Kids...)
		c.Roles[k] = v
	}
	c.Meta = cpm(d.Meta)
	for k, v := range c.Meta {
		v.Hs = append([]Hs{}, v.Hs...)
		c.Meta[k] = v
	}
	c.Tgts = cpm(d.Tgts)
	for k, v := range c.Tgts {
		v.Hs = append([]Hs{}, v.Hs...)
		c.Tgts[k] = v
	}
	c.DKeys = cpm(d.DKeys)
	c.DRoles = append([]DRole{}, d.DRoles...)
	c.SKids = append([]string{}, d.SKids...)
	c.bytes, c.signed, c.fp = nil, nil, ""
	c.forceX, c.xenv = false, false
	return &c
}
func cpm[K comparable, V any](m map[K]V) map[K]V {
	r := map[K]V{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// ---------------------------------------------------------------- keys

//go:embed rsa1.pem
var rsa1 []byte

//go:embed rsa2.pem
var rsa2 []byte

type material struct {
	name    string
	priv    crypto.Signer
	keytype string
	scheme  string
	public  string
	kid     string
}

var (
	mats   = map[string]*material{}
	matsMu sync.Mutex
)

// mat returns the key material of the given name: e<n> ed25519, p<n> ecdsa,
// q<n> ecdsa with the long key type, r<n> rsa
func mat(name string) *material {
	matsMu.Lock()
	defer matsMu.Unlock()
	if m, ok := mats[name]; ok {
		return m
	}
	m := &material{name: name}
	seed := sha256.Sum256([]byte("verif key " + name))
	switch name[0] {
	case 'e':
		k := ed25519.NewKeyFromSeed(seed[:])
		m.priv = k
		m.keytype, m.scheme = "ed25519", "ed25519"
		m.public = hex.EncodeToString(k.Public().(ed25519.PublicKey))
	case 'p', 'q':
		k := new(ecdsa.PrivateKey)
		k.Curve = elliptic.P256()
		n := new(big.Int).Sub(k.Curve.Params().N, big.NewInt(1))
		k.D = new(big.Int).SetBytes(seed[:])
		k.D.Mod(k.D, n)
		k.D.Add(k.D, big.NewInt(1))
		k.X, k.Y = k.Curve.ScalarBaseMult(k.D.Bytes())
		m.priv = k
		m.keytype, m.scheme = "ecdsa", "ecdsa-sha2-nistp256"
		if name[0] == 'q' {
			m.keytype = "ecdsa-sha2-nistp256"
		}
		m.public = pemPub(&k.PublicKey)
	case 'r':
		b := rsa1
		if name == "r2" {
			b = rsa2
		}
		blk, _ := pem.Decode(b)
		k, err := x509.ParsePKCS1PrivateKey(blk.Bytes)
		if err != nil {
			k8, err8 := x509.ParsePKCS8PrivateKey(blk.Bytes)
			if err8 != nil {
				panic(err8)
			}
			k = k8.(*rsa.PrivateKey)
		}
		m.priv = k
		m.keytype, m.scheme = "rsa", "rsassa-pss-sha256"
		m.public = pemPub(&k.PublicKey)
	default:
		panic("key name " + name)
	}
	d := sha256.Sum256(canon(m.keyJSON()))
	m.kid = hex.EncodeToString(d[:])
	mats[name] = m
	return m
}
func pemPub(k any) string {
	b, err := x509.MarshalPKIXPublicKey(k)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}
func (m *material) keyJSON() map[string]any {
	return map[string]any{"keytype": m.keytype, "scheme": m.scheme, "keyval": map[string]any{"public": m.public}}
}

// otherJSON is another way to write the key, which gives another key id
func (m *material) otherJSON() map[string]any {
	t, p := m.keytype, m.public
	switch t {
	case "ed25519":
		p = strings.ToUpper(p)
	case "ecdsa":
		t = "ecdsa-sha2-nistp256"
	case "ecdsa-sha2-nistp256":
		t = "ecdsa"
	default:
		p += "\n"
	}
	return map[string]any{"keytype": t, "scheme": m.scheme, "keyval": map[string]any{"public": p}}
}
func (m *material) sign(msg []byte) []byte {
	var s []byte
	var err error
	if m.keytype == "ed25519" {
		s, err = m.priv.Sign(rand.Reader, msg, crypto.Hash(0))
	} else {
		h := sha256.Sum256(msg)
		s, err = m.priv.Sign(rand.Reader, h[:], crypto.SHA256)
	}
	if err != nil {
		panic(err)
	}
	return s
}

// kidOf gives the key id that the abstract key id k stands for: the id of the
// material of that name, or, for an alias (e1~b) or an unknown key, some other id
func kidOf(k string) string {
	if n, ok := strings.CutSuffix(k, "^"); ok { // written in upper case
		return strings.ToUpper(kidOf(n))
	}
	if n, ok := strings.CutSuffix(k, "~k"); ok { // the same key, written in another way
		d := sha256.Sum256(canon(mat(n).otherJSON()))
		return hex.EncodeToString(d[:])
	}
	if len(k) > 1 && strings.ContainsRune("epqr", rune(k[0])) && !strings.Contains(k, "~") {
		return mat(k).kid
	}
	d := sha256.Sum256([]byte("key id " + k))
	return hex.EncodeToString(d[:])
}

// ---------------------------------------------------------------- canonical JSON

func canon(v any) []byte {
	var b bytes.Buffer
	canonTo(&b, v)
	return b.Bytes()
}
func canonStr(b *bytes.Buffer, s string) {
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	b.WriteByte('"')
}
func canonTo(b *bytes.Buffer, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		fmt.Fprintf(b, "%t", x)
	case int:
		fmt.Fprintf(b, "%d", x)
	case int64:
		fmt.Fprintf(b, "%d", x)
	case json.Number:
		b.WriteString(x.String())
	case string:
		canonStr(b, x)
	case []string:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canonStr(b, e)
		}
		b.WriteByte(']')
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canonTo(b, e)
		}
		b.WriteByte(']')
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			canonStr(b, k)
			b.WriteByte(':')
			canonTo(b, x[k])
		}
		b.WriteByte('}')
	default:
		panic(fmt.Sprintf("canon %T", v))
	}
}

// ---------------------------------------------------------------- worlds

// T0 is the time the abstract time 0 stands for
var T0 = time.Now().UTC().Truncate(time.Second)

type World struct {
	rng     *mrand.Rand
	docs    []*Doc // docs[i].ID == i+1
	byHex   map[[32]byte]int
	byFP    map[string][]int
	vbase   int64         // version v of the model is v+vbase
	unit    time.Duration // of model time
	t0      time.Time     // the time 0 of the model
	lib     bool          // documents are made with the library
	paths   map[string]bool
	content func(of int) []byte
	keyBase int // keys of the next repository start here
	base    int // ids of the documents of this world are base+1, base+2, ...
}

func newWorld(seed int64) *World {
	w := &World{rng: mrand.New(mrand.NewSource(seed)), byHex: map[[32]byte]int{}, byFP: map[string][]int{},
		unit: time.Hour, t0: T0, paths: map[string]bool{}}
	return w
}

func (w *World) doc(id int) *Doc {
	if id <= w.base || id > w.base+len(w.docs) {
		return &Doc{}
	}
	return w.docs[id-w.base-1]
}
func (w *World) bytes(id int) []byte { return w.doc(id).bytes }
func (w *World) when(exp int) time.Time {
	return w.t0.Add(time.Duration(exp) * w.unit)
}

func (w *World) hashes(hs []Hs) map[string]any {
	m := map[string]any{}
	for _, h := range hs {
		var content []byte
		if h.Of > 1000000 && w.content != nil {
			content = w.content(h.Of)
		} else if h.Of >= 1 {
			content = w.bytes(h.Of)
		} else {
			content = []byte(fmt.Sprintf("no such content %d", h.Of))
		}
		m[h.Alg] = digest(h.Alg, content)
	}
	return m
}
func digest(alg string, b []byte) string {
	switch alg {
	case "sha512":
		d := sha512.Sum512(b)
		return hex.EncodeToString(d[:])
	default:
		d := sha256.Sum256(b)
		return hex.EncodeToString(d[:])
	}
}
func keysJSON(keys map[string]string) map[string]any {
	m := map[string]any{}
	for k, name := range keys {
		kid := kidOf(k)
		if name == "" { // a key nobody can use
			t, p := brokenKey(k, int(kid[0])+int(kid[1]))
			m[kid] = map[string]any{"keytype": t, "scheme": "ed25519", "keyval": map[string]any{"public": p}}
			continue
		}
		m[kid] = mat(name).keyJSON()
		if strings.HasSuffix(k, "~k") {
			m[kid] = mat(name).otherJSON()
		}
	}
	return m
}

// brokenKey is the type and value number n of a key like k that nobody can use
func brokenKey(k string, n int) (string, string) {
	m := &material{keytype: "ed25519", public: mat("e1").public}
	if strings.ContainsRune("epqr", rune(k[0])) {
		m = mat(matOf(k))
	}
	types := []string{}
	for _, t := range []string{"rsa", "ed25519", "ecdsa", "ecdsa-sha2-nistp256", "", "RSA", "x509"} {
		if t != m.keytype && !(strings.HasPrefix(t, "ecdsa") && strings.HasPrefix(m.keytype, "ecdsa")) {
			types = append(types, t)
		}
	}
	if m.keytype == "rsa" {
		types = append(types, "ecdsa", "ecdsa", "ecdsa")
	} else if m.keytype != "ed25519" {
		types = append(types, "rsa", "rsa", "rsa", "rsa")
	}
	if n%2 == 0 {
		return types[n/2%len(types)], m.public
	}
	p := m.public
	pub := "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n"
	vals := []string{"00ff", "", p[:len(p)/2], "zz" + p, pub, "00" + p, p[:len(p)-1]}
	if m.keytype == "ed25519" {
		vals = append(vals, p+"00", p[1:], p+p)
	}
	if v := vals[n/2%len(vals)]; v != p && !(m.keytype != "ed25519" && (v == "00"+p || v == "zz"+p || v == p[:len(p)-1])) {
		return m.keytype, v
	}
	return m.keytype, "00ff"
}
func kids(s []string) []any {
	r := []any{}
	for _, x := range s {
		r = append(r, kidOf(x))
	}
	return r
}
func strs(s []string) []any {
	r := []any{}
	for _, x := range s {
		r = append(r, x)
	}
	return r
}

func (w *World) signedJSON(d *Doc) map[string]any {
	m := map[string]any{}
	for k, v := range d.Extra {
		m[k] = v
	}
	m["_type"] = d.Typ
	m["spec_version"] = "1.0.31"
	m["version"] = w.vbase + int64(d.Ver)
	m["expires"] = w.when(d.Exp).Format(time.RFC3339Nano)
	if d.Pad > 0 {
		m["x-pad"] = strings.Repeat("p", d.Pad)
	}
	switch d.Typ {
	case "root":
		m["consistent_snapshot"] = d.CS
		m["keys"] = keysJSON(d.Keys)
		roles := map[string]any{}
		for r, s := range d.Roles {
			roles[r] = map[string]any{"keyids": kids(s.Kids), "threshold": s.Thr}
		}
		m["roles"] = roles
	case "timestamp", "snapshot":
		meta := map[string]any{}
		for n, e := range d.Meta {
			o := map[string]any{"version": w.vbase + int64(e.Ver)}
			if e.Len != 0 {
				o["length"] = e.Len
			}
			if len(e.Hs) > 0 {
				o["hashes"] = w.hashes(e.Hs)
			}
			meta[n] = o
		}
		m["meta"] = meta
	default:
		tg := map[string]any{}
		for n, e := range d.Tgts {
			tg[n] = map[string]any{"length": e.Len, "hashes": w.hashes(e.Hs),
				"custom": map[string]any{"n": n}}
		}
		m["targets"] = tg
		switch d.DK {
		case "roles":
			rs := []any{}
			for _, r := range d.DRoles {
				o := map[string]any{"name": r.Name, "keyids": kids(r.Kids), "threshold": r.Thr, "terminating": r.Term}
				if len(r.RawPaths) > 0 || len(r.RawPrefixes) == 0 {
					o["paths"] = strs(r.RawPaths)
				} else {
					o["path_hash_prefixes"] = strs(r.RawPrefixes)
				}
				rs = append(rs, o)
			}
			m["delegations"] = map[string]any{"keys": keysJSON(d.DKeys), "roles": rs}
		case "succinct":
			m["delegations"] = map[string]any{"keys": keysJSON(d.DKeys), "succinct_roles": map[string]any{
				"keyids": kids(d.SKids), "threshold": d.SThr, "bit_length": d.BL, "name_prefix": d.Pre}}
		}
	}
	return m
}

// add gives the document an id and bytes
func (w *World) add(d *Doc) int {
	d.norm()
	id := w.base + len(w.docs) + 1
	if d.Raw != nil || !d.JSON {
		d.JSON = false
		d.bytes = d.Raw
		d.Sigs = []Sig{}
	} else if w.lib {
		n := 0
		if d.forceX || w.rng.Intn(2) == 0 {
			n, d.xenv = id-w.base, true
		}
		var fps []string
		d.bytes, fps = w.libDoc(d, n)
		d.fp = fingerprint(d.Typ, w.vbase+int64(d.Ver), fps)
	} else {
		signed := w.signedJSON(d)
		d.signed = canon(signed)
		sigs := []any{}
		fps := []string{}
		for i, s := range d.Sigs {
			msg := d.signed
			if !s.OK {
				msg = append([]byte(fmt.Sprintf("%d", i)), msg...)
			}
			var sb []byte
			switch {
			case !s.OK && s.Mat == "":
				sb = []byte("garbage")
			case !s.OK && s.Mat == "empty":
				sb = []byte{}
			default:
				sb = mat(s.Mat).sign(msg)
			}
			h := hex.EncodeToString(sb)
			sigs = append(sigs, map[string]any{"keyid": kidOf(s.Kid), "sig": h})
			fps = append(fps, kidOf(s.Kid)+"="+h)
		}
		d.fp = fingerprint(d.Typ, w.vbase+int64(d.Ver), fps)
		env := map[string]any{"signed": signed, "signatures": sigs}
		if d.forceX || len(w.byFP[d.fp]) > 0 || w.rng.Intn(2) == 0 {
			env["x-env"] = id - w.base
			d.xenv = true
		}
		d.bytes = render(env, d.WS)
	}
	h := sha256.Sum256(d.bytes)
	if old, ok := w.byHex[h]; ok {
		return old
	}
	d.ID = id
	d.Size = len(d.bytes)
	w.docs = append(w.docs, d)
	w.byHex[h] = id
	if d.fp != "" {
		w.byFP[d.fp] = append(w.byFP[d.fp], id)
	}
	for p := range d.Tgts {
		w.paths[p] = true
	}
	return id
}
func fingerprint(typ string, ver int64, sigs []string) string {
	sort.Strings(sigs)
	return fmt.Sprintf("%s|%d|%s", typ, ver, strings.Join(sigs, ","))
}
func render(env map[string]any, ws int) []byte {
	switch ws % 4 {
	case 1:
		b, _ := json.MarshalIndent(env, "", "  ")
		return b
	case 2:
		b, _ := json.MarshalIndent(env, "\t", " ")
		return b
	case 3:
		b, _ := json.Marshal(env)
		return append(append([]byte(" "), b...), '\n')
	}
	b, _ := json.Marshal(env)
	return b
}

// norm makes sure that nothing is encoded as null
func (d *Doc) norm() {
	if d.Sigs == nil {
		d.Sigs = []Sig{}
	}
	if d.Keys == nil {
		d.Keys = map[string]string{}
	}
	if d.Roles == nil {
		d.Roles = map[string]RoleSpec{}
	}
	for k, v := range d.Roles {
		if v.Kids == nil {
			v.Kids = []string{}
			d.Roles[k] = v
		}
	}
	if d.Meta == nil {
		d.Meta = map[string]MetaEnt{}
	}
	for k, v := range d.Meta {
		if v.Hs == nil {
			v.Hs = []Hs{}
			d.Meta[k] = v
		}
	}
	if d.Tgts == nil {
		d.Tgts = map[string]TgtEnt{}
	}
	for k, v := range d.Tgts {
		if v.Hs == nil {
			v.Hs = []Hs{}
			d.Tgts[k] = v
		}
	}
	if d.DK == "" {
		d.DK = "none"
	}
	if d.DKeys == nil {
		d.DKeys = map[string]string{}
	}
	if d.DRoles == nil {
		d.DRoles = []DRole{}
	}
	for i := range d.DRoles {
		r := &d.DRoles[i]
		if r.Kids == nil {
			r.Kids = []string{}
		}
		r.Paths, r.Prefixes = [][][]int{}, [][]int{}
		for _, p := range r.RawPaths {
			r.Paths = append(r.Paths, segs(p))
		}
		if len(r.RawPaths) == 0 {
			for _, p := range r.RawPrefixes {
				r.Prefixes = append(r.Prefixes, codes(p))
			}
		}
	}
	if d.SKids == nil {
		d.SKids = []string{}
	}
}
func codes(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}
func segs(p string) [][]int {
	r := [][]int{}
	for _, s := range strings.Split(p, "/") {
		r = append(r, codes(s))
	}
	return r
}

type PathInfo struct {
	Segs [][]int `json:"segs"`
	Hash []int   `json:"hash"`
	B64  []int   `json:"b64"`
	H4   []int   `json:"h4"`
}

func pathInfo(p string) PathInfo {
	h := sha256.Sum256([]byte(p))
	return PathInfo{Segs: segs(p), Hash: codes(hex.EncodeToString(h[:])), B64: codes(base64.URLEncoding.EncodeToString(h[:])),
		H4: []int{int(h[0]), int(h[1]), int(h[2]), int(h[3])}}
}

// identify content by its bytes: its id, or -1
func (w *World) idOf(b []byte) int {
	if id, ok := w.byHex[sha256.Sum256(b)]; ok {
		return id
	}
	return -1
}

// addRaw gives an id to bytes that are not metadata
func (w *World) addRaw(b []byte) int {
	return w.add(&Doc{Raw: append([]byte{}, b...), Typ: "junk"})
}
