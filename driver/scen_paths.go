package main

// The functions that decide which delegated role is responsible for a path.

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

// record runs f and turns a panic into an event
func record(sc *Scen, e ev, f func()) {
	defer func() {
		if r := recover(); r != nil {
			sc.Ev = append(sc.Ev, ev{"e": "panic", "op": e["e"], "msg": fmt.Sprint(r) + "\n" + string(debug.Stack())})
		}
	}()
	f()
	sc.Ev = append(sc.Ev, e)
}

const segAlpha = "aab*?[]^-\\cü."

func (w *World) randStr(alpha string, n int) string {
	rs := []rune(alpha)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[w.rng.Intn(len(rs))])
	}
	return b.String()
}
func (w *World) randPath() string {
	if w.chance(30) {
		return pick(w, tgtPaths)
	}
	ss := []string{}
	for k := 1 + w.rng.Intn(3); k > 0; k-- {
		al := "aabc-.ü"
		if w.chance(15) {
			al = segAlpha
		}
		ss = append(ss, w.randStr(al, w.rng.Intn(6)))
	}
	return strings.Join(ss, "/")
}

// a pattern that has a chance to match p
func (w *World) randPattern(p string) string {
	if w.chance(15) {
		return pick(w, patterns)
	}
	ss := strings.Split(p, "/")
	if w.chance(8) {
		ss = append(ss, "*")
	} else if w.chance(8) && len(ss) > 1 {
		ss = ss[1:]
	} else if w.chance(5) && len(ss) > 1 { // one wildcard for two segments
		ss = append([]string{"*"}, ss[2:]...)
	}
	for i, s := range ss {
		rs := []rune(s)
		var b strings.Builder
		for j := 0; j < len(rs); j++ {
			switch w.rng.Intn(12) {
			case 0:
				b.WriteByte('?')
			case 1:
				b.WriteByte('*')
				j += w.rng.Intn(4) - 1
				if j < 0 {
					j = 0
				}
			case 2:
				fmt.Fprintf(&b, "[%c]", rs[j])
			case 3:
				fmt.Fprintf(&b, "[^%c]", pick(w, []rune("abcx")))
			case 4:
				fmt.Fprintf(&b, "[%c-%c]", pick(w, []rune("a`b")), pick(w, []rune("abcü")))
			case 5:
				b.WriteByte('\\')
				b.WriteRune(rs[j])
			case 6:
				b.WriteRune(pick(w, []rune(segAlpha)))
			default:
				b.WriteRune(rs[j])
			}
		}
		if w.chance(10) {
			b.WriteByte('*')
		}
		ss[i] = b.String()
	}
	if w.chance(5) {
		return w.randStr(segAlpha+"/", 1+w.rng.Intn(7))
	}
	return strings.Join(ss, "/")
}
func (w *World) randPrefix(p string) string {
	h := sha256.Sum256([]byte(p))
	x := hex.EncodeToString(h[:])
	b := base64.URLEncoding.EncodeToString(h[:])
	switch w.rng.Intn(9) {
	case 0:
		return ""
	case 8: // with something that does not belong there
		x = pick(w, []string{x, b})[:1+w.rng.Intn(3)]
		return pick(w, []string{x + " ", " " + x, x + "\n", x + "*", "0x" + x, x + "/", x + "=", " "})
	case 1, 2:
		return x[:1+w.rng.Intn(4)]
	case 3:
		return x[:pick(w, []int{1, 2, 8, 63, 64})]
	case 4:
		return x[:1+w.rng.Intn(3)] + pick(w, []string{"0", "f", "8"})
	case 5:
		return strings.ToUpper(x[:2+w.rng.Intn(5)])
	case 6:
		return b[:1+w.rng.Intn(3)]
	default:
		return pick(w, []string{"0", "7", "a", "f", "00", "x", x[1:4]})
	}
}
func (w *World) randDRole(p string, name string) DRole {
	dr := DRole{Name: name, Kids: []string{"e1"}, Thr: 1, Term: w.chance(40)}
	if w.chance(35) {
		for k := 1 + w.rng.Intn(3); k > 0; k-- {
			dr.RawPrefixes = append(dr.RawPrefixes, w.randPrefix(p))
		}
	} else {
		for k := 1 + w.rng.Intn(3); k > 0; k-- {
			dr.RawPaths = append(dr.RawPaths, w.randPattern(p))
		}
	}
	if w.chance(4) {
		dr.RawPaths, dr.RawPrefixes = nil, nil
	}
	return dr
}
func goRole(dr DRole) metadata.DelegatedRole {
	return metadata.DelegatedRole{Name: dr.Name, KeyIDs: []string{kidOf("e1")}, Threshold: 1, Terminating: dr.Term,
		Paths: append([]string{}, dr.RawPaths...), PathHashPrefixes: append([]string{}, dr.RawPrefixes...)}
}
func boolMap(m map[string]bool) []map[string]any {
	r := []map[string]any{}
	for _, k := range sortedKeys(m) {
		r = append(r, map[string]any{"name": k, "term": m[k]})
	}
	return r
}

func scenPaths(w *World, name, dir string) *Scen {
	sc := &Scen{N: name, Ev: []ev{}}
	for n := 4 + w.rng.Intn(8); n > 0; n-- {
		p := w.randPath()
		w.paths[p] = true
		switch w.rng.Intn(6) {
		case 0, 1, 2: // one delegated role
			d := &Doc{DRoles: []DRole{w.randDRole(p, "r")}}
			d.norm()
			role := goRole(d.DRoles[0])
			e := ev{"e": "covers", "role": d.DRoles[0], "raw": append(append([]string{}, d.DRoles[0].RawPaths...), d.DRoles[0].RawPrefixes...), "path": p}
			record(sc, e, func() {
				ok, err := role.IsDelegatedPath(p)
				e["got"], e["err"] = ok, err != nil
			})
		case 3: // a list of roles, read from a document
			d := &Doc{JSON: true, Typ: "targets", Ver: 1, Exp: 5, DK: "roles", DKeys: map[string]string{"e1": "e1"}}
			for k := w.rng.Intn(5); k >= 0; k-- {
				d.DRoles = append(d.DRoles, w.randDRole(p, fmt.Sprintf("r%d", k)))
			}
			id := w.add(d)
			e := ev{"e": "roles", "id": id, "path": p}
			record(sc, e, func() {
				m, err := metadata.Targets().FromBytes(w.bytes(id))
				if err != nil {
					e["err"], e["got"], e["msg"] = true, []string{}, err.Error()
					return
				}
				e["err"], e["got"] = false, boolMap(m.Signed.Delegations.GetRolesForTarget(p))
			})
		case 4: // bins
			bl := 1 + w.rng.Intn(32)
			pre := pick(w, []string{"bin", "b", "a-b", "", "x/y", "ü", "00"})
			sr := &metadata.SuccinctRoles{KeyIDs: []string{kidOf("e1")}, Threshold: 1, BitLength: bl, NamePrefix: pre}
			for k := 3; k > 0; k-- {
				p := w.randPath()
				w.paths[p] = true
				e := ev{"e": "bin", "bl": bl, "pre": pre, "path": p}
				record(sc, e, func() {
					del := &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: sr}
					var m map[string]bool
					if k%2 == 0 {
						m = sr.GetRolesForTarget(p)
					} else {
						m = del.GetRolesForTarget(p)
					}
					e["got"] = boolMap(m)
					is := []bool{}
					for _, x := range sortedKeys(m) {
						is = append(is, sr.IsDelegatedRole(x))
					}
					e["is"] = is
				})
			}
			for k := 3; k > 0; k-- {
				nd := (bl + 3) / 4
				h := hex.EncodeToString([]byte{byte(w.rng.Intn(256)), byte(w.rng.Intn(256)), byte(w.rng.Intn(256)), byte(w.rng.Intn(256))})
				if w.chance(40) {
					h = pick(w, []string{"00000000", "ffffffff", "10000000", "7fffffff", "80000000", "3fffffff", "1fffffff", "20000000", "40000000", "0fffffff", "01ffffff", "02000000"})
				}
				nm := pre + "-" + h[:nd]
				switch w.rng.Intn(10) {
				case 0:
					nm = strings.ToUpper(nm)
				case 1:
					nm = pre + h[:nd]
				case 2:
					nm += "0"
				case 3:
					nm = nm[:len(nm)-1]
				case 4:
					nm = pre + "-" + pick(w, []string{"+", "-", "0x", " ", "_", "g"}) + h[:nd-1]
				case 5:
					nm = pre + "--" + h[:nd-1]
				case 6:
					nm = "x" + nm
				}
				e := ev{"e": "isbin", "bl": bl, "pre": pre, "name": nm}
				record(sc, e, func() { e["got"] = sr.IsDelegatedRole(nm) })
			}
		case 5:
			bl := 1 + w.rng.Intn(8)
			if w.chance(5) {
				bl = 9 + w.rng.Intn(2)
			}
			pre := pick(w, []string{"bin", "b", "a-b", "", "x/y"})
			sr := &metadata.SuccinctRoles{KeyIDs: []string{kidOf("e1")}, Threshold: 1, BitLength: bl, NamePrefix: pre}
			e := ev{"e": "bins", "bl": bl, "pre": pre}
			record(sc, e, func() {
				e["got"] = sr.GetRoles()
				l, n := sr.GetSuffixLen()
				e["len"], e["n"] = l, n
				all := true
				for _, x := range sr.GetRoles() {
					all = all && sr.IsDelegatedRole(x)
				}
				e["all"] = all
			})
		}
	}
	// every event can be written as JSON
	if _, err := json.Marshal(sc); err != nil {
		panic(err)
	}
	return sc
}

// every pattern of up to five characters against a fixed set of paths
const globAlpha = "a*?[]^-\\"

var globPaths = func() []string {
	r := []string{}
	all := []string{""}
	for n := 0; n < 3; n++ {
		next := []string{}
		for _, s := range all {
			for _, c := range []string{"a", "b", "/"} {
				next = append(next, s+c)
			}
		}
		r = append(r, next...)
		all = next
	}
	return append(r, "aaaa", "abab", "a/a/a", "*", "?", "[", "]", "^", "-", "\\", "a-", "[a]", "a]", "]a", "^a", "é", "aé", "A", "`", "\\a", "--", "*a", "[]", "a\\")
}()

func longPattern(w *World) string {
	pat := ""
	one := func() string {
		return pick(w, []string{"a", "b", "A", "`", "\\]", "\\-", "\\\\", "\\a", "\\z", "^", "*", "?", "[", "/"})
	}
	for n := 1 + w.rng.Intn(3); n > 0; n-- {
		switch w.rng.Intn(6) {
		case 0:
			pat += "*"
		case 1:
			pat += "?"
		case 2:
			pat += one()
		default:
			c := "["
			if w.chance(30) {
				c += "^"
			}
			for m := 1 + w.rng.Intn(3); m > 0; m-- {
				c += one()
				if w.chance(50) {
					c += "-" + one()
				}
			}
			pat += c + "]"
		}
	}
	for w.chance(15) && pat != "" { // not well-formed any more
		i := w.rng.Intn(len(pat))
		pat = pat[:i] + pick(w, []string{"", "-", "\\", "]", "["}) + pat[i+1:]
	}
	return strings.ToValidUTF8(pat, "b")
}

func scenGlob(w *World, name, dir string) *Scen {
	sc := &Scen{N: name, Ev: []ev{}}
	var i, seed int
	fmt.Sscanf(strings.TrimPrefix(name, "glob/"), "%d/%d", &seed, &i)
	total := 8 + 64 + 512 + 4096 + 32768
	for k := 0; k < 8; k++ {
		// 7919 and total have no common divisor: a permutation
		n := int((int64(i*8+k)*7919 + int64(seed)*8) % int64(total))
		length, m := 1, 8
		for n >= m {
			n -= m
			m *= 8
			length++
		}
		pat := ""
		for ; length > 0; length-- {
			pat += string(globAlpha[n%8])
			n /= 8
		}
		pats := []string{pat}
		switch k {
		case 1: // a segment before or after it
			pats = append(pats, pat+"/a")
		case 2:
			pats = append(pats, "?/"+pat)
		}
		if k >= 5 { // longer ones, mostly well-formed
			pats = append(pats, longPattern(w))
		}
		for _, pat := range pats {
			role := metadata.DelegatedRole{Name: "r", KeyIDs: []string{kidOf("e1")}, Threshold: 1, Paths: []string{pat}}
			e := ev{"e": "glob", "raw": pat, "pat": segs(pat), "paths": globPaths}
			got, errs := []string{}, 0
			record(sc, e, func() {
				for _, p := range globPaths {
					w.paths[p] = true
					ok, err := role.IsDelegatedPath(p)
					if err != nil {
						errs++
					}
					if ok {
						got = append(got, p)
					}
				}
				e["got"], e["err"] = got, errs
			})
		}
	}
	return sc
}
