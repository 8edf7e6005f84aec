package main

// The life of a delegating document and of a document it vouches for: keys come
// and go, documents are signed, verified, written, read, tampered with.

import (
	"crypto"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/sigstore/sigstore/pkg/signature"
)

// holder hides the type parameter of metadata
type holder interface {
	typ() string
	bytes(pretty bool) ([]byte, error)
	read([]byte) error
	sign(signature.Signer) (*metadata.Signature, error)
	sigs() *[]metadata.Signature
	clear()
	any() any
	env() map[string]any
	verify(role string, x holder) error
}
type held[T metadata.Roles] struct {
	t string
	m *metadata.Metadata[T]
}

func (h *held[T]) typ() string                       { return h.t }
func (h *held[T]) bytes(pretty bool) ([]byte, error) { return h.m.ToBytes(pretty) }
func (h *held[T]) read(b []byte) error {
	into := new(metadata.Metadata[T])
	if h.m != nil && len(b)%2 == 0 { // into one that holds something already
		into = h.m
	}
	m, err := into.FromBytes(b)
	if err == nil {
		h.m = m
	}
	return err
}
func (h *held[T]) sign(s signature.Signer) (*metadata.Signature, error) { return h.m.Sign(s) }
func (h *held[T]) sigs() *[]metadata.Signature                          { return &h.m.Signatures }
func (h *held[T]) clear()                                               { h.m.ClearSignatures() }
func (h *held[T]) env() map[string]any {
	if h.m.UnrecognizedFields == nil {
		h.m.UnrecognizedFields = map[string]any{}
	}
	return h.m.UnrecognizedFields
}
func (h *held[T]) any() any                           { return h.m }
func (h *held[T]) verify(role string, x holder) error { return h.m.VerifyDelegate(role, x.any()) }

func newHolder(typ string) holder {
	switch typ {
	case "root":
		return &held[metadata.RootType]{t: typ, m: metadata.Root(T0.Add(time.Hour))}
	case "timestamp":
		return &held[metadata.TimestampType]{t: typ, m: metadata.Timestamp(T0.Add(time.Hour))}
	case "snapshot":
		return &held[metadata.SnapshotType]{t: typ, m: metadata.Snapshot(T0.Add(time.Hour))}
	default:
		return &held[metadata.TargetsType]{t: typ, m: metadata.Targets(T0.Add(time.Hour))}
	}
}

type dState struct {
	Kind  string              `json:"kind"`
	Roles map[string]RoleSpec `json:"roles"`
	Keys  map[string]string   `json:"keys"`
	BL    int                 `json:"bl"`
	Pre   string              `json:"pre"`
}
type sState struct {
	Kid string `json:"kid"`
	N   int    `json:"n"`
}

type lab struct {
	w        *World
	sc       *Scen
	d, x     holder
	self     bool
	v        int
	nextV    int
	contents map[string]int
	saved    map[int]any // v -> signed part
	names    map[string]string
	pubs     map[string]string
	sigNum   map[string]int
	matsIn   []string
	aliases  []string
	dead     bool
}

func (l *lab) nameKid(kid string) string {
	if n, ok := l.names[kid]; ok {
		return n
	}
	return "?" + kid
}
func (l *lab) learnMat(n string) {
	l.names[mat(n).kid] = n
	l.pubs[mat(n).keytype+mat(n).public] = n
	if mat(n).keytype == "ecdsa" {
		l.pubs["ecdsa-sha2-nistp256"+mat(n).public] = n
	}
}
func (l *lab) keyName(k *metadata.Key) string {
	if k == nil {
		return "?nil"
	}
	if n, ok := l.pubs[k.Type+k.Value.PublicKey]; ok {
		return n
	}
	return ""
}

// broken is a key like the one of the given name that nobody can use
func (l *lab) broken(name string) *metadata.Key {
	if name == "" || !inList(l.matsIn, matOf(name)) {
		name = "e1"
	}
	t, p := brokenKey(name, l.w.rng.Intn(1000))
	return &metadata.Key{Type: t, Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: p}}
}
func (l *lab) dstate() dState {
	s := dState{Kind: "none", Roles: map[string]RoleSpec{}, Keys: map[string]string{}}
	ks := func(in []string) []string {
		r := []string{}
		for _, k := range in {
			r = append(r, l.nameKid(k))
		}
		return r
	}
	var keys map[string]*metadata.Key
	switch m := l.d.any().(type) {
	case *metadata.Metadata[metadata.RootType]:
		s.Kind = "root"
		for n, r := range m.Signed.Roles {
			s.Roles[n] = RoleSpec{ks(r.KeyIDs), r.Threshold}
		}
		keys = m.Signed.Keys
	case *metadata.Metadata[metadata.TargetsType]:
		dl := m.Signed.Delegations
		if dl == nil {
			break
		}
		keys = dl.Keys
		s.Kind = "empty"
		if dl.Roles != nil {
			s.Kind = "roles"
			for _, r := range dl.Roles {
				s.Roles[r.Name] = RoleSpec{ks(r.KeyIDs), r.Threshold}
			}
		} else if dl.SuccinctRoles != nil {
			s.Kind = "succinct"
			s.Roles["*"] = RoleSpec{ks(dl.SuccinctRoles.KeyIDs), dl.SuccinctRoles.Threshold}
			s.BL, s.Pre = dl.SuccinctRoles.BitLength, dl.SuccinctRoles.NamePrefix
		}
	}
	for k, v := range keys {
		s.Keys[l.nameKid(k)] = l.keyName(v)
	}
	return s
}
func (l *lab) sigID(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	n, ok := l.sigNum[string(b)]
	if !ok {
		n = len(l.sigNum) + 1
		l.sigNum[string(b)] = n
	}
	return n
}
func (l *lab) xsigs() []sState {
	r := []sState{}
	for _, s := range *l.x.sigs() {
		r = append(r, sState{l.nameKid(s.KeyID), l.sigID(s.Signature)})
	}
	return r
}

// act records what f does
func (l *lab) act(e ev, f func()) {
	if l.dead {
		return
	}
	record(l.sc, e, func() {
		f()
		e["d"], e["x"], e["v"] = l.dstate(), l.xsigs(), l.v
	})
	if n := len(l.sc.Ev); n > 0 && (l.sc.Ev[n-1]["e"] == "panic" || l.sc.Ev[n-1]["e"] == "hang") {
		l.dead = true
	}
}

// badSigner does not work
type badSigner struct {
	signature.Signer
	how string
}

func (b badSigner) SignMessage(r io.Reader, o ...signature.SignOption) ([]byte, error) {
	if b.how == "sign" {
		return nil, errors.New("the key is gone")
	}
	return b.Signer.SignMessage(r, o...)
}
func (b badSigner) PublicKey(o ...signature.PublicKeyOption) (crypto.PublicKey, error) {
	switch b.how {
	case "key":
		return nil, errors.New("no public key")
	case "foreign":
		return struct{ n int }{1}, nil
	}
	return b.Signer.PublicKey(o...)
}

func signerOf(name string, pss bool) (signature.Signer, error) {
	m := mat(name)
	switch m.keytype {
	case "ed25519":
		return signature.LoadSigner(m.priv, crypto.Hash(0))
	case "rsa":
		if pss {
			return signature.LoadRSAPSSSigner(m.priv.(*rsa.PrivateKey), crypto.SHA256, nil)
		}
	}
	return signature.LoadSigner(m.priv, crypto.SHA256)
}

// variant of a JSON leaf that means something else
func (w *World) alter(v any) any {
	switch x := v.(type) {
	case string:
		if len(x) == 64 || len(x) == 128 { // a digest or key id
			i := w.rng.Intn(len(x))
			c := byte('0')
			if x[i] == '0' {
				c = '1'
			}
			return x[:i] + string(c) + x[i+1:]
		}
		if t, err := time.Parse(time.RFC3339Nano, x); err == nil {
			return t.Add(time.Duration(1+w.rng.Intn(5)) * time.Second).Format(time.RFC3339Nano)
		}
		if w.chance(50) || len(x) == 0 {
			return x + "x"
		}
		i := w.rng.Intn(len(x))
		if x[i] >= 0x7e || x[i] < 0x21 {
			return "x" + x
		}
		return x[:i] + string(rune(x[i]+1)) + x[i+1:]
	case json.Number:
		n, err := x.Int64()
		if err != nil {
			return json.Number("1")
		}
		return json.Number(fmt.Sprint(n + 1 + int64(w.rng.Intn(3))))
	case bool:
		return !x
	case nil:
		return true
	case []any:
		if len(x) > 0 && w.chance(50) {
			return append([]any{}, x[:len(x)-1]...)
		}
		if len(x) > 0 {
			return append(append([]any{}, x...), x[0])
		}
		return []any{"x"}
	case map[string]any:
		return nil
	}
	return v
}
func falsy(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case bool:
		return !x
	case string:
		return x == ""
	case json.Number:
		return x.String() == "0"
	case []any:
		return len(x) == 0
	case map[string]any:
		return len(x) == 0
	}
	return false
}

func scenKeys(w *World, name, dir string) *Scen {
	l := &lab{w: w, sc: &Scen{N: name, Ev: []ev{}}, names: map[string]string{}, pubs: map[string]string{}, sigNum: map[string]int{}, contents: map[string]int{}, saved: map[int]any{}}
	for i := 1; i <= 5; i++ {
		l.matsIn = append(l.matsIn, fmt.Sprintf("e%d", i))
	}
	l.matsIn = append(l.matsIn, "p1", "q2", "r1", "r2")
	for _, m := range l.matsIn {
		l.learnMat(m)
	}
	l.names[altKid("q2")] = "q2~p"
	l.pubs["ecdsa"+mat("q2").public] = "q2"
	for _, a := range []string{"e1~b", "e2~b", "p1~b", "zz"} {
		l.aliases = append(l.aliases, a)
		l.names[kidOf(a)] = a
	}
	for _, m := range l.matsIn {
		l.names[kidOf(m+"^")] = m + "^"
	}
	l.names["not-a-key-id"] = "nokid"
	l.names[""] = "emptykid"
	topRoles := []string{"root", "timestamp", "snapshot", "targets"}
	roles := topRoles
	someSet := func() keyset {
		ks := keyset{Kids: []string{}}
		for _, i := range w.rng.Perm(len(l.matsIn))[:1+w.rng.Intn(3)] {
			ks.Kids = append(ks.Kids, l.matsIn[i])
		}
		if w.chance(25) {
			a := pick(w, l.aliases[:3])
			ks.Kids = append(ks.Kids, a)
			if m := matOf(a); w.chance(60) && !inList(ks.Kids, m) {
				ks.Kids = append(ks.Kids, m)
			}
		}
		ks.Thr = 1 + w.rng.Intn(len(ks.Kids))
		if w.chance(10) {
			ks.Thr = len(ks.Kids) + 1
		}
		return ks
	}
	// the delegator
	kind := pick(w, []string{"root", "root", "roles", "roles", "succinct", "none", "apiroot", "apiroles", "apisuccinct"})
	d := &Doc{Ver: 1 + w.rng.Intn(3), Exp: 5, JSON: true}
	if w.chance(60) {
		d.Extra = map[string]any{"x-ext": map[string]any{"k": []any{1, true, "s", nil}}}
	}
	switch kind {
	case "root":
		d.Typ, d.Roles = "root", map[string]RoleSpec{}
		if w.chance(20) { // roles nobody else knows
			roles = append(append([]string{}, topRoles...), pick(w, [][]string{{"mirrors"}, {"Root", "x"}, {"Targets"}, {"root ", "timestamps"}})...)
		}
		sets := []keyset{}
		for _, r := range roles {
			ks := someSet()
			d.Roles[r] = RoleSpec{ks.Kids, ks.Thr}
			sets = append(sets, ks)
		}
		d.Keys = keysOf(sets...)
		if w.chance(20) {
			d.Keys["e9"] = "e9"
			l.learnMat("e9")
		}
	case "roles":
		d.Typ, d.DK, d.DKeys = "targets", "roles", map[string]string{}
		roles = pick(w, labRoles)[:1+w.rng.Intn(4)]
		sets := []keyset{}
		for _, r := range roles {
			ks := someSet()
			d.DRoles = append(d.DRoles, DRole{Name: r, Kids: ks.Kids, Thr: ks.Thr, RawPaths: []string{"*"}})
			sets = append(sets, ks)
		}
		d.DKeys = keysOf(sets...)
	case "succinct":
		ks := someSet()
		d.Typ, d.DK, d.DKeys, d.BL, d.Pre, d.SKids, d.SThr = "targets", "succinct", keysOf(ks), pick(w, []int{1, 3, 8}), "bin", ks.Kids, ks.Thr
	case "none":
		d.Typ = "targets"
	}
	if strings.HasPrefix(kind, "api") {
		switch kind {
		case "apiroot":
			h := &held[metadata.RootType]{t: "root", m: metadata.Root(T0.Add(time.Hour))}
			if w.chance(40) {
				ids := []string{}
				for _, m := range l.matsIn[:1+w.rng.Intn(4)] {
					if k, err := metadata.KeyFromPublicKey(mat(m).priv.Public()); err == nil {
						ids = append(ids, k.ID())
						h.m.Signed.Keys[k.ID()] = k
					}
				}
				ids = ids[:len(ids):len(ids)]
				for _, r := range topRoles {
					h.m.Signed.Roles[r].KeyIDs = ids
				}
			}
			l.d = h
		case "apiroles":
			h := &held[metadata.TargetsType]{t: "targets", m: metadata.Targets(T0.Add(time.Hour))}
			h.m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
			roles = pick(w, labRoles)[:1+w.rng.Intn(3)]
			for _, r := range roles {
				h.m.Signed.Delegations.Roles = append(h.m.Signed.Delegations.Roles, metadata.DelegatedRole{Name: r, KeyIDs: []string{}, Threshold: 1 + w.rng.Intn(2), Paths: []string{"*"}})
			}
			if w.chance(40) { // roles made from one list of keys
				ids := []string{}
				for _, m := range l.matsIn[:1+w.rng.Intn(4)] {
					if k, err := metadata.KeyFromPublicKey(mat(m).priv.Public()); err == nil && m[0] != 'q' {
						ids = append(ids, k.ID())
						h.m.Signed.Delegations.Keys[k.ID()] = k
					}
				}
				ids = ids[:len(ids):len(ids)]
				for i := range h.m.Signed.Delegations.Roles {
					h.m.Signed.Delegations.Roles[i].KeyIDs = ids
				}
			}
			l.d = h
		case "apisuccinct":
			h := &held[metadata.TargetsType]{t: "targets", m: metadata.Targets(T0.Add(time.Hour))}
			h.m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
			if w.chance(80) {
				h.m.Signed.Delegations.SuccinctRoles = &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1 + w.rng.Intn(2), BitLength: 2, NamePrefix: "bin"}
			}
			l.d = h
		}
	} else {
		l.d = newHolder(d.Typ)
		id := w.add(d)
		if err := l.d.read(w.bytes(id)); err != nil {
			l.sc.Ev = append(l.sc.Ev, ev{"e": "unreadable", "msg": err.Error()})
			return l.sc
		}
	}
	if strings.Contains(kind, "succinct") {
		roles = []string{"bin-0", "bin-1", "bin-3", "bin-03", "bin-ff", "bin", "other", ""}
	}
	l.self = l.d.typ() == "root" && w.chance(35)
	if l.self {
		l.x = l.d
	} else {
		typ := pick(w, topRoles)
		if l.d.typ() == "targets" {
			typ = "targets"
		}
		l.x = newHolder(typ)
		if w.chance(75) {
			x := &Doc{Typ: typ, Ver: 1 + w.rng.Intn(3), Exp: 5, JSON: true, WS: w.rng.Intn(4),
				Extra: map[string]any{"x-ext": map[string]any{"k": []any{1, true, "é\"\\/<>&\u2028", nil, map[string]any{"z": 0}}, "y": "", "": 1}}}
			switch typ {
			case "root":
				x.Roles, x.Keys = map[string]RoleSpec{}, map[string]string{"e1": "e1", "p1": "p1", "r1": "r1"}
				for _, r := range topRoles {
					x.Roles[r] = RoleSpec{[]string{"e1", "p1"}, 1 + w.rng.Intn(2)}
				}
				x.CS = w.chance(50)
			case "timestamp":
				x.Meta = map[string]MetaEnt{"snapshot.json": {Ver: 3, Len: w.rng.Intn(2) * 77, Hs: []Hs{{"sha256", -1}, {"sha512", -2}}[:w.rng.Intn(3)]}}
			case "snapshot":
				x.Meta = map[string]MetaEnt{"targets.json": {Ver: 3}, "a/b.json": {Ver: 9, Len: 5, Hs: []Hs{{"sha256", -1}}}, "ü.json": {Ver: 2}}
			case "targets":
				x.Tgts = map[string]TgtEnt{"a": {Len: 4, Hs: []Hs{{"sha256", -1}}}, "d/<é>&": {Len: 0, Hs: []Hs{{"sha512", -1}}}}
				if w.chance(60) {
					x.DK, x.DKeys = "roles", map[string]string{"e3": "e3"}
					x.DRoles = []DRole{{Name: "r", Kids: []string{"e3"}, Thr: 1, RawPaths: []string{"*", "x/?"}, Term: w.chance(50)}, {Name: "s", Kids: []string{"e3"}, Thr: 1, RawPrefixes: []string{"0a", "ff"}}}
				}
			}
			for k, e := range x.Meta {
				if len(e.Hs) == 0 {
					e.Hs = nil
					x.Meta[k] = e
				}
			}
			id := w.add(x)
			if err := l.x.read(w.bytes(id)); err != nil {
				l.sc.Ev = append(l.sc.Ev, ev{"e": "unreadable", "msg": err.Error()})
				return l.sc
			}
		}
	}
	l.act(ev{"e": "start", "self": l.self}, func() {})
	for n := 10 + w.rng.Intn(25); n > 0 && !l.dead; n-- {
		l.step(roles)
	}
	return l.sc
}
func inList[T comparable](s []T, v T) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func (l *lab) verify(role string) {
	e := ev{"e": "verify", "role": role}
	l.act(e, func() {
		err := l.d.verify(role, l.x)
		e["err"], e["cls"] = err != nil, classes(err)
	})
}

// addKey adds the key m under the id it has, which is not its usual one if kid is not m
func (l *lab) addKey(m, kid, role string) {
	e := ev{"e": "add", "role": role, "key": m, "kid": kid}
	l.act(e, func() {
		k, err := l.aliasKey(m, kid)
		if err != nil {
			e["err"] = true
			return
		}
		switch t := l.d.any().(type) {
		case *metadata.Metadata[metadata.RootType]:
			err = t.Signed.AddKey(k, role)
		case *metadata.Metadata[metadata.TargetsType]:
			err = t.Signed.AddKey(k, role)
		}
		e["err"] = err != nil
	})
}

// aliasKey is the key m; with another id if kid is not m
func (l *lab) aliasKey(m, kid string) (*metadata.Key, error) {
	k, err := metadata.KeyFromPublicKey(mat(m).priv.Public())
	if err != nil {
		return nil, err
	}
	if mat(m).keytype == "ecdsa-sha2-nistp256" {
		k.Type = mat(m).keytype
	}
	if kid != m {
		k.UnrecognizedFields = map[string]any{"x-name": kid}
		l.names[k.ID()] = kid
	}
	return k, nil
}
func (l *lab) hexOf(kid string) string {
	for h, n := range l.names {
		if n == kid {
			return h
		}
	}
	return kidOf(kid)
}
func (l *lab) revoke(kid, role string) {
	e := ev{"e": "revoke", "role": role, "kid": kid}
	l.act(e, func() {
		var err error
		switch t := l.d.any().(type) {
		case *metadata.Metadata[metadata.RootType]:
			err = t.Signed.RevokeKey(l.hexOf(kid), role)
		case *metadata.Metadata[metadata.TargetsType]:
			err = t.Signed.RevokeKey(l.hexOf(kid), role)
		}
		e["err"] = err != nil
	})
}
func (l *lab) signWith(m, kid string, pss bool) {
	e := ev{"e": "sign", "key": m, "kid": kid, "pss": pss, "sig": 0, "ret": ""}
	l.act(e, func() {
		s, err := signerOf(m, pss)
		if err != nil {
			panic("harness: " + err.Error())
		}
		sig, err := l.x.sign(s)
		e["err"] = err != nil
		if err == nil && sig != nil {
			e["sig"], e["ret"] = l.sigID(sig.Signature), l.nameKid(sig.KeyID)
		}
	})
}

// follow carries out a behaviour of MCKeys; after every step both roles are verified
type keysStep struct {
	Op   string `json:"o"`
	Role string `json:"r"`
	Kid  string `json:"k"`
	Thr  []int  `json:"t"`
}

var keysPlans [][]keysStep

func scenKeysReplay(w *World, name, dir string) *Scen {
	if keysPlans == nil {
		keysPlans = plansOf[keysStep]()
	}
	var n int
	fmt.Sscanf(name[strings.LastIndexByte(name, '/')+1:], "%d", &n)
	plan := keysPlans[n%len(keysPlans)]
	l := &lab{w: w, sc: &Scen{N: name, Ev: []ev{}}, names: map[string]string{}, pubs: map[string]string{}, sigNum: map[string]int{}, contents: map[string]int{}, saved: map[int]any{}}
	ms := []string{"e1", "e2", "e3", "p1", "r1"}
	w.rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	for _, m := range ms {
		l.learnMat(m)
	}
	key := map[string]string{"k1": ms[0], "k2": ms[1], "k1~": ms[0] + "~x"}
	l.aliasKey(ms[0], ms[0]+"~x")
	role := map[string]string{"r1": "a", "r2": "role/b"}
	thr := plan[0].Thr
	rootly := plan[0].Role == "roles" && w.chance(50)
	typ := "targets"
	switch {
	case rootly:
		top := []string{"root", "timestamp", "snapshot", "targets"}
		w.rng.Shuffle(4, func(i, j int) { top[i], top[j] = top[j], top[i] })
		role = map[string]string{"r1": top[0], "r2": top[1]}
		h := &held[metadata.RootType]{t: "root", m: metadata.Root(T0.Add(time.Hour))}
		h.m.Signed.Roles[top[0]].Threshold, h.m.Signed.Roles[top[1]].Threshold = thr[0], thr[1]
		l.d, typ = h, top[0]
	case plan[0].Role == "roles":
		h := &held[metadata.TargetsType]{t: "targets", m: metadata.Targets(T0.Add(time.Hour))}
		h.m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
		for i, r := range []string{"r1", "r2"} {
			h.m.Signed.Delegations.Roles = append(h.m.Signed.Delegations.Roles, metadata.DelegatedRole{Name: role[r], KeyIDs: []string{}, Threshold: thr[i], Paths: []string{"*"}})
		}
		l.d = h
	default:
		h := &held[metadata.TargetsType]{t: "targets", m: metadata.Targets(T0.Add(time.Hour))}
		h.m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: thr[0], BitLength: 1, NamePrefix: "r"}}
		role = map[string]string{"r1": "r-0", "r2": "r-1"}
		l.d = h
	}
	l.x = newHolder(typ)
	l.act(ev{"e": "start", "self": false}, func() {})
	// two contents
	other := func(vv int) any {
		b, _ := l.x.bytes(false)
		v, _ := parseJSON(b)
		signed := v.(map[string]any)["signed"].(map[string]any)
		signed["version"] = json.Number(fmt.Sprint(vv + 3))
		return signed
	}
	l.act(ev{"e": "tamper", "path": "/version", "err": false}, func() {
		b, _ := l.x.bytes(false)
		v, _ := parseJSON(b)
		env := v.(map[string]any)
		l.saved[0], l.saved[1] = other(0), other(1)
		env["signed"] = l.saved[0]
		if err := l.x.read(canonBytes(env)); err != nil {
			panic(err)
		}
	})
	for _, s := range plan[1:] {
		if l.dead {
			break
		}
		switch s.Op {
		case "add":
			l.addKey(matOf(key[s.Kid]), key[s.Kid], role[s.Role])
		case "revoke":
			l.revoke(key[s.Kid], role[s.Role])
		case "sign":
			// a signer gives the usual id of its key; the other id is given afterwards
			m := matOf(key[s.Kid])
			if s.Kid == "k1~" {
				e := ev{"e": "sign", "key": m, "kid": key[s.Kid], "pss": false, "sig": 0, "ret": key[s.Kid]}
				l.act(e, func() {
					hex := l.hexOf(key[s.Kid])
					sg, err := signerOf(m, false)
					if err != nil {
						panic("harness: " + err.Error())
					}
					keep := append([]metadata.Signature{}, *l.x.sigs()...)
					l.x.clear()
					sig, err := l.x.sign(sg)
					e["err"] = err != nil
					out := []metadata.Signature{}
					for _, o := range keep {
						if o.KeyID != hex {
							out = append(out, o)
						}
					}
					if err == nil && sig != nil {
						e["sig"] = l.sigID(sig.Signature)
						out = append(out, metadata.Signature{KeyID: hex, Signature: sig.Signature})
					}
					*l.x.sigs() = out
				})
			} else {
				l.signWith(m, m, false)
			}
		case "tamper":
			e := ev{"e": "restore", "to": 1 - l.v}
			l.act(e, func() {
				b, _ := l.x.bytes(false)
				v, _ := parseJSON(b)
				env := v.(map[string]any)
				env["signed"] = l.saved[1-l.v]
				err := l.x.read(w.scramble(env))
				e["err"] = err != nil
				if err == nil {
					l.v = 1 - l.v
				}
			})
		case "relabel":
			e := ev{"e": "sigs", "how": "kid"}
			l.act(e, func() {
				from, to := l.hexOf(key[s.Role]), l.hexOf(key[s.Kid])
				ss := l.x.sigs()
				for i := range *ss {
					if (*ss)[i].KeyID == from {
						(*ss)[i].KeyID = to
					}
				}
			})
		}
		if w.chance(15) {
			e := ev{"e": "rewrite", "how": ""}
			l.act(e, func() {
				b, err := l.x.bytes(w.chance(50))
				if err == nil {
					err = l.x.read(b)
				}
				e["err"] = err != nil
			})
		}
		l.verify(role["r1"])
		l.verify(role["r2"])
	}
	return l.sc
}

// plansOf reads the behaviours of a model
func plansOf[T any]() [][]T {
	var in struct {
		Hist [][]T `json:"hist"`
	}
	b, err := os.ReadFile(inputFile)
	if err == nil {
		err = json.Unmarshal(b, &in)
	}
	if err != nil {
		panic(err)
	}
	return in.Hist
}

// names of delegated roles, also such that differ in little
var labRoles = [][]string{{"a", "b", "role/c", "ü"}, {"a", "b", "role/c", "ü"}, {"A", "a", "b", "a "}, {"a", "A", "aa", "B"}, {"root.json", "Targets", "targets.json", "Root"},
	{"r1", "r1.json", "r", "R1"}, {"a/b", "a//b", "a", "A/b"}}

func (l *lab) step(roles []string) {
	w := l.w
	role := pick(w, roles)
	if w.chance(5) {
		role = pick(w, []string{strings.ToUpper(role), strings.ToLower(role), role + " ", " " + role, role + ".json", strings.TrimSuffix(role, ".json"), role + "/", role + "x"})
	}
	if w.chance(6) {
		role = pick(w, []string{"nobody", "", "root", "Targets", "targets"})
	}
	m := pick(w, l.matsIn)
	// prefer keys of that role
	if st := l.dstate(); w.chance(55) {
		if r, ok := st.Roles[role]; ok && len(r.Kids) > 0 {
			if k := st.Keys[pick(w, r.Kids)]; k != "" {
				m = k
			}
		}
	}
	verify := func() { l.verify(role) }
	switch w.rng.Intn(24) {
	case 0, 1, 2: // add
		l.addKey(m, m, role)
	case 3, 4, 5: // revoke
		st := l.dstate()
		kid := m
		if ks := st.Roles[role].Kids; len(ks) > 0 && w.chance(60) {
			kid = pick(w, ks)
		} else if w.chance(20) {
			kid = pick(w, append(l.aliases, "nokid"))
		}
		l.revoke(kid, role)
	case 6, 7, 8, 9, 10: // sign
		pss := mat(m).keytype == "rsa" && w.chance(25)
		kid := m
		if m[0] == 'q' { // the library makes keys of the other type
			kid = l.nameKid(altKid(m))
		}
		l.signWith(m, kid, pss)
		if w.chance(60) {
			verify()
		}
	case 11, 12, 13, 14:
		verify()
	case 15, 16: // write and read
		e := ev{"e": "rewrite", "how": ""}
		l.act(e, func() {
			b, err := l.x.bytes(w.chance(50))
			if err == nil {
				if w.chance(70) {
					v, perr := parseJSON(b)
					if perr != nil {
						err = perr
					} else {
						b = w.scramble(v)
					}
				}
				if err == nil {
					err = l.x.read(b)
				}
			}
			e["err"] = err != nil
			if err != nil {
				e["how"] = err.Error()
			}
		})
		if w.chance(60) {
			verify()
		}
	case 17, 18: // change the content
		e := ev{"e": "tamper", "path": ""}
		l.act(e, func() {
			b, err := l.x.bytes(false)
			if err != nil {
				e["err"] = true
				return
			}
			v, _ := parseJSON(b)
			env, _ := v.(map[string]any)
			signed := env["signed"]
			l.saved[l.v], _ = parseJSON(canonBytes(signed))
			l.contents[l.contentKey(signed)] = l.v
			ok := false
			for try := 0; try < 20 && !ok; try++ {
				sp := spots(&signed)
				s := sp[w.rng.Intn(len(sp))]
				if l.self && (strings.HasPrefix(s.path, "/keys") || strings.HasPrefix(s.path, "/roles")) || s.path == "/_type" {
					continue
				}
				e["path"] = s.path
				mp, isMap := s.val.(map[string]any)
				switch {
				case isMap && w.chance(80):
					k := pick(w, []string{"x-new", "zz", "", "é"})
					if _, has := mp[k]; has || strings.HasSuffix(s.path, "/hashes") || strings.HasSuffix(s.path, "/meta") || strings.HasSuffix(s.path, "/targets") || strings.HasSuffix(s.path, "/roles") || strings.HasSuffix(s.path, "/keys") {
						continue
					}
					mp[k] = pick(w, []any{"v", json.Number("1"), false, nil, []any{}})
					ok = true
				case s.del != nil && !falsy(s.val) && !isMap && w.chance(25):
					s.del()
					ok = true
				case !isMap:
					s.set(w.alter(s.val))
					ok = true
				}
			}
			if !ok {
				e["err"] = true
				return
			}
			env["signed"] = signed
			err = l.x.read(canonBytes(env))
			e["err"] = err != nil
			if err == nil {
				l.v = l.versionOf(signed)
			}
		})
		if w.chance(60) {
			verify()
		}
	case 19: // change it back
		if l.self || len(l.saved) == 0 {
			return
		}
		ks := []int{}
		for k := range l.saved {
			ks = append(ks, k)
		}
		sortInts(ks)
		to := pick(w, ks)
		e := ev{"e": "restore", "to": to}
		l.act(e, func() {
			b, _ := l.x.bytes(false)
			v, _ := parseJSON(b)
			env, _ := v.(map[string]any)
			env["signed"] = l.saved[to]
			err := l.x.read(w.scramble(env))
			e["err"] = err != nil
			if err == nil {
				l.v = to
			}
		})
		verify()
	case 20: // change signatures
		e := ev{"e": "sigs", "how": ""}
		l.act(e, func() {
			ss := l.x.sigs()
			if len(*ss) == 0 {
				return
			}
			i := w.rng.Intn(len(*ss))
			s := &(*ss)[i]
			switch w.rng.Intn(8) {
			case 7: // an invalid one under nearly the same key id
				kid := strings.ToUpper(s.KeyID)
				if l.names[kid] == "" {
					return
				}
				for _, o := range *ss {
					if o.KeyID == kid {
						return
					}
				}
				b := append([]byte{}, s.Signature...)
				if len(b) > 0 {
					b[0] ^= 1
				}
				*ss, e["how"] = append([]metadata.Signature{{KeyID: kid, Signature: b}}, *ss...), "near"
				if w.chance(60) {
					*ss = append((*ss)[1:], (*ss)[0])
				}
			case 0:
				if len(s.Signature) == 0 {
					return
				}
				b := append([]byte{}, s.Signature...)
				b[w.rng.Intn(len(b))] ^= 1 << w.rng.Intn(8)
				s.Signature, e["how"] = b, "flip"
			case 1:
				*ss, e["how"] = append(append([]metadata.Signature{}, (*ss)[:i]...), (*ss)[i+1:]...), "drop"
			case 2:
				s.Signature, e["how"] = nil, "empty"
			case 3:
				if len(s.Signature) > 0 {
					s.Signature, e["how"] = s.Signature[:len(s.Signature)-1], "short"
				}
			case 4:
				j := w.rng.Intn(len(*ss))
				(*ss)[i].Signature, (*ss)[j].Signature, e["how"] = (*ss)[j].Signature, (*ss)[i].Signature, "swap"
			case 5: // claim another key id
				kid := kidOf(pick(w, append(append([]string{}, l.matsIn...), l.aliases...)))
				for _, o := range *ss {
					if o.KeyID == kid {
						return
					}
				}
				s.KeyID, e["how"] = kid, "kid"
			case 6: // the same signature under another key id as well
				kid := kidOf(pick(w, append(append([]string{}, l.aliases...), l.matsIn...)))
				for _, o := range *ss {
					if o.KeyID == kid {
						return
					}
				}
				*ss = append(*ss, metadata.Signature{KeyID: kid, Signature: append([]byte{}, s.Signature...)})
				e["how"] = "copy"
			}
		})
		if w.chance(70) {
			verify()
		}
	case 21: // change keys
		e := ev{"e": "keys", "how": ""}
		l.act(e, func() {
			var keys map[string]*metadata.Key
			switch t := l.d.any().(type) {
			case *metadata.Metadata[metadata.RootType]:
				keys = t.Signed.Keys
				if r := t.Signed.Roles[role]; r != nil && w.chance(40) {
					r.Threshold = 1 + w.rng.Intn(len(r.KeyIDs)+2)
					e["how"] = "threshold"
					return
				}
			case *metadata.Metadata[metadata.TargetsType]:
				if t.Signed.Delegations != nil {
					keys = t.Signed.Delegations.Keys
				}
			}
			ks := sortedKeys(keys)
			if len(ks) == 0 {
				return
			}
			o := pick(w, ks)
			switch w.rng.Intn(5) {
			case 3, 4:
				// the key as it is, but for its type or value
				for _, k := range ks {
					if n := l.keyName(keys[k]); n != "" && n[0] != 'e' && w.chance(60) {
						o = k
					}
				}
				keys[o], e["how"] = l.broken(l.keyName(keys[o])), "unusable"
			case 0:
				k, _ := metadata.KeyFromPublicKey(mat(pick(w, l.matsIn[:6])).priv.Public())
				keys[o], e["how"] = k, "other"
			case 1:
				keys[o], e["how"] = l.broken(l.nameKid(o)), "unusable"
			case 2:
				delete(keys, o)
				e["how"] = "gone"
			}
		})
		if w.chance(60) {
			verify()
		}
	case 22:
		if w.chance(40) {
			l.act(ev{"e": "clear"}, func() { l.x.clear() })
		}
	case 23:
		if w.chance(30) { // a signer that fails, or whose key cannot be one of TUF
			how := pick(w, []string{"sign", "key", "foreign"})
			e := ev{"e": "badsign", "how": how}
			l.act(e, func() {
				sg, err := signerOf(m, false)
				if err == nil {
					_, err = l.x.sign(badSigner{sg, how})
				}
				e["err"] = err != nil
			})
			return
		}
		if w.chance(30) {
			how := pick(w, []string{"nil", "private", "string", "curve", "value"})
			e := ev{"e": "badsign", "how": "from:" + how}
			l.act(e, func() {
				var pk any
				switch how {
				case "private":
					pk = mat(m).priv
				case "string":
					pk = mat(m).public
				case "curve":
					k, _ := ecdh.X25519().NewPrivateKey(make([]byte, 32))
					pk = k.PublicKey()
				case "value":
					pk = *(mat("p1").priv.Public().(*ecdsa.PublicKey))
				}
				_, err := metadata.KeyFromPublicKey(pk)
				e["err"] = err != nil
			})
			return
		}
		// documents that cannot delegate
		e := ev{"e": "wrong"}
		l.act(e, func() {
			h := newHolder(pick(w, []string{"timestamp", "snapshot"}))
			err := h.verify(role, l.x)
			e["err"] = err != nil
			var te metadata.ErrType
			e["type"] = errors.As(err, &te)
		})
	}
}
func (l *lab) contentKey(signed any) string {
	r := []string{}
	for _, x := range leaves(signed) {
		if l.self && (strings.HasPrefix(x, "/keys") || strings.HasPrefix(x, "/roles")) {
			continue
		}
		// leaving these out and writing their zero value is the same
		zero := false
		for _, z := range []string{"/length #0", "/version #0", "/threshold #0", "/consistent_snapshot =false", "/terminating =false", "/spec_version $", "/name $"} {
			zero = zero || strings.HasSuffix(x, z)
		}
		if zero && !strings.Contains(x, "/custom") {
			continue
		}
		r = append(r, x)
	}
	return strings.Join(r, "\n")
}
func (l *lab) versionOf(signed any) int {
	k := l.contentKey(signed)
	if v, ok := l.contents[k]; ok {
		return v
	}
	l.nextV++
	l.contents[k] = l.nextV
	return l.nextV
}
func canonBytes(v any) []byte { b, _ := json.Marshal(v); return b }
func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// altKid is the key id the library gives to the key when it makes it from the public key
func altKid(name string) string {
	m := mat(name)
	j := m.keyJSON()
	j["keytype"] = "ecdsa"
	h := sha256.Sum256(canon(j))
	return hex.EncodeToString(h[:])
}
