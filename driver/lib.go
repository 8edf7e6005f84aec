package main

// Documents made with the library's own API instead of by the driver.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

type libFail struct{ msg string }

func must(err error) {
	if err != nil {
		panic(libFail{err.Error() + "\n" + string(debug.Stack())})
	}
}
func libKey(name string) *metadata.Key {
	k, err := metadata.KeyFromPublicKey(mat(name).priv.Public())
	must(err)
	return k
}
func libHashes(m map[string]any) metadata.Hashes {
	h := metadata.Hashes{}
	for a, x := range m {
		b, _ := hex.DecodeString(x.(string))
		h[a] = b
	}
	return h
}
func (w *World) libMeta(es map[string]MetaEnt) map[string]*metadata.MetaFiles {
	m := map[string]*metadata.MetaFiles{}
	for n, e := range es {
		f := metadata.MetaFile(w.vbase + int64(e.Ver))
		f.Length = int64(e.Len)
		if len(e.Hs) > 0 {
			f.Hashes = libHashes(w.hashes(e.Hs))
		}
		m[n] = f
	}
	return m
}

// libDoc: the bytes of d and the signatures in it
func (w *World) libDoc(d *Doc, xenv int) ([]byte, []string) {
	unrec := map[string]any{}
	for k, v := range d.Extra {
		unrec[k] = v
	}
	if d.Pad > 0 {
		unrec["x-pad"] = strings.Repeat("p", d.Pad)
	}
	ver := w.vbase + int64(d.Ver)
	var h holder
	switch d.Typ {
	case "root":
		m := metadata.Root(w.when(d.Exp))
		m.Signed.Version, m.Signed.ConsistentSnapshot, m.Signed.UnrecognizedFields = ver, d.CS, unrec
		used := map[string]bool{}
		for _, r := range sortedKeys(d.Roles) {
			// as it happens in a life: other keys come and go
			other := libKey("e97")
			churn := w.chance(30)
			if churn {
				must(m.Signed.AddKey(other, r))
			}
			for _, k := range d.Roles[r].Kids {
				used[k] = true
				must(m.Signed.AddKey(libKey(matOf(k)), r))
				if w.chance(20) {
					must(m.Signed.AddKey(libKey(matOf(k)), r))
				}
			}
			if churn {
				must(m.Signed.RevokeKey(other.ID(), r))
			}
			m.Signed.Roles[r].Threshold = d.Roles[r].Thr
		}
		for k := range d.Keys {
			if !used[k] {
				m.Signed.Keys[kidOf(k)] = libKey(matOf(k))
			}
		}
		h = &held[metadata.RootType]{"root", m}
	case "timestamp":
		m := metadata.Timestamp(w.when(d.Exp))
		m.Signed.Version, m.Signed.Meta, m.Signed.UnrecognizedFields = ver, w.libMeta(d.Meta), unrec
		h = &held[metadata.TimestampType]{"timestamp", m}
	case "snapshot":
		m := metadata.Snapshot(w.when(d.Exp))
		m.Signed.Version, m.Signed.Meta, m.Signed.UnrecognizedFields = ver, w.libMeta(d.Meta), unrec
		h = &held[metadata.SnapshotType]{"snapshot", m}
	default:
		m := metadata.Targets(w.when(d.Exp))
		m.Signed.Version, m.Signed.UnrecognizedFields = ver, unrec
		for n, e := range d.Tgts {
			c := json.RawMessage(`{"n":1}`)
			m.Signed.Targets[n] = &metadata.TargetFiles{Length: int64(e.Len), Hashes: libHashes(w.hashes(e.Hs)), Custom: &c, Path: n}
		}
		if d.DK != "none" {
			m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
		}
		switch d.DK {
		case "roles":
			for _, r := range d.DRoles {
				m.Signed.Delegations.Roles = append(m.Signed.Delegations.Roles, metadata.DelegatedRole{Name: r.Name, KeyIDs: []string{}, Threshold: r.Thr,
					Terminating: r.Term, Paths: r.RawPaths, PathHashPrefixes: r.RawPrefixes})
			}
			for _, r := range d.DRoles {
				for _, k := range r.Kids {
					must(m.Signed.AddKey(libKey(matOf(k)), r.Name))
				}
				if w.chance(30) {
					must(m.Signed.AddKey(libKey("e97"), r.Name))
					must(m.Signed.RevokeKey(libKey("e97").ID(), r.Name))
				}
			}
		case "succinct":
			m.Signed.Delegations.SuccinctRoles = &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: d.SThr, BitLength: d.BL, NamePrefix: d.Pre}
			for _, k := range d.SKids {
				must(m.Signed.AddKey(libKey(matOf(k)), d.Pre))
			}
		}
		h = &held[metadata.TargetsType]{"targets", m}
	}
	if xenv > 0 {
		h.env()["x-env"] = xenv
	}
	for _, s := range d.Sigs {
		sg, err := signerOf(s.Mat, false)
		must(err)
		if w.chance(15) {
			_, err = h.sign(sg)
			must(err)
		}
		_, err = h.sign(sg)
		must(err)
	}
	if w.chance(30) { // by way of a file
		b, err := h.bytes(true)
		must(err)
		h2 := newHolder(d.Typ)
		must(h2.read(b))
		h = h2
	}
	b, err := h.bytes(d.WS%2 == 1)
	must(err)
	fps := []string{}
	for _, g := range *h.sigs() {
		fps = append(fps, g.KeyID+"="+hex.EncodeToString(g.Signature))
	}
	sort.Strings(fps)
	if len(fps) != len(d.Sigs) {
		panic(libFail{fmt.Sprintf("%d signatures instead of %d", len(fps), len(d.Sigs))})
	}
	return b, fps
}

// scenLib: an honest repository made with the library
func scenLib(w *World, name, dir string) (s *Scen) {
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(libFail)
			msg := f.msg
			if !ok {
				msg = fmt.Sprint(r) + "\n" + string(debug.Stack())
			}
			s = &Scen{N: name, Ev: []ev{{"e": "libfail", "msg": msg}}}
		}
	}()
	w.lib = true
	return scenClient(w, name, dir, "honest")
}
