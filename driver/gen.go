package main

// A publisher of repositories (honest or not) and an adversary that answers
// requests.  Everything is chosen by the rng of the world.

import (
	"fmt"
	"slices"
	"sort"
	"strings"
)

type keyset struct {
	Kids []string
	Thr  int
}

// node is a delegated targets role
type node struct {
	name   string
	ks     keyset
	alts   []keyset // what other delegators ask for
	dk     string
	droles []DRole
	dkeys  map[string]string
	bl     int
	pre    string
	sk     keyset
	tgts   map[string]TgtEnt
	ver    int
	doc    int
}

type repo struct {
	w        *World
	adv      bool // releases may be wrong
	keys     map[string]keyset
	cs       bool
	rootVer  int
	rootDoc  int
	tsVer    int
	snVer    int
	nodes    map[string]*node
	order    []string
	files    map[string]int
	all      map[string][]int
	hashes   int // 0 none, 1 some, 2 all entries have hashes
	lens     int
	badRate  int // percent of documents of a release that are wrong
	nextKey  int
	even     bool // expiry times are even, so that odd reference times never equal one
	prevRoot keyset
	rootPrev map[int]keyset // root document -> the keys of the root before
	rootKeys map[int]keyset
	kinds    string
	soon     int               // percent of documents that expire at time 0
	pad      int               // documents are this big
	steady   bool              // what is listed once stays listed
	fresh    bool              // no expired roots
	twins    map[string]string // names of roles that differ in little
	lastTS   int
	lastSN   int
}

func (w *World) chance(p int) bool { return w.rng.Intn(100) < p }
func pick[T any](w *World, s []T) T {
	return s[w.rng.Intn(len(s))]
}

// the material of an abstract key id
func matOf(kid string) string {
	for i := range kid {
		if kid[i] == '~' {
			return kid[:i]
		}
	}
	return kid
}

func (r *repo) freshKid() string {
	r.nextKey++
	c := "e"
	if len(r.kinds) > 0 && r.w.chance(25) {
		c = string(r.kinds[r.w.rng.Intn(len(r.kinds))])
	}
	if c == "r" {
		return fmt.Sprintf("r%d", 1+r.nextKey%2)
	}
	return fmt.Sprintf("%s%d", c, r.nextKey)
}
func (r *repo) freshSet() keyset {
	n := 1 + r.w.rng.Intn(3)
	ks := keyset{}
	for i := 0; i < n; i++ {
		k := r.freshKid()
		dup := false
		for _, o := range ks.Kids {
			dup = dup || o == k
		}
		if !dup {
			ks.Kids = append(ks.Kids, k)
		}
	}
	ks.Thr = 1 + r.w.rng.Intn(len(ks.Kids))
	if r.w.chance(20) && !r.w.lib { // the same key under a second key id
		k := pick(r.w, ks.Kids)
		for _, o := range ks.Kids { // most likely one that has two key types
			if strings.ContainsAny(o[:1], "pq") && r.w.chance(70) {
				k = o
			}
		}
		if n > 1 && r.w.chance(60) {
			ks.Thr = max(ks.Thr, min(2, len(ks.Kids)))
		}
		ks.Kids = append(ks.Kids, k+pick(r.w, []string{"~b", "~k", "~k"}))
	}
	return ks
}
func keysOf(sets ...keyset) map[string]string {
	m := map[string]string{}
	for _, s := range sets {
		for _, k := range s.Kids {
			m[k] = matOf(k)
		}
	}
	return m
}

// valid signatures by at least the threshold of every set
func (r *repo) signBy(d *Doc, sets ...keyset) {
	d.Sigs = []Sig{}
	seen := map[string]bool{}
	for _, s := range sets {
		mats := map[string]bool{}
		for _, k := range s.Kids {
			mats[matOf(k)] = true
		}
		need := s.Thr
		if r.w.chance(60) {
			need = len(s.Kids)
		}
		got := map[string]bool{}
		for _, i := range r.w.rng.Perm(len(s.Kids)) {
			k := s.Kids[i]
			if seen[k] {
				got[matOf(k)] = true
				continue
			}
			if len(got) >= need && len(got) >= s.Thr {
				continue
			}
			seen[k] = true
			got[matOf(k)] = true
			d.Sigs = append(d.Sigs, Sig{k, matOf(k), true})
		}
	}
	if r.w.chance(10) {
		d.Sigs = append(d.Sigs, Sig{"e99", "e99", true})
	}
	if len(d.Sigs) > 0 && !r.w.lib && r.w.chance(10) { // an invalid one under a key id that is nearly the same
		d.Sigs = append(d.Sigs, Sig{pick(r.w, d.Sigs).Kid + "^", pick(r.w, []string{"", "empty", "e97"}), false})
	}
	r.w.rng.Shuffle(len(d.Sigs), func(i, j int) { d.Sigs[i], d.Sigs[j] = d.Sigs[j], d.Sigs[i] })
}

func newRepo(w *World, adv bool) *repo {
	r := &repo{w: w, adv: adv, keys: map[string]keyset{}, files: map[string]int{}, all: map[string][]int{},
		rootPrev: map[int]keyset{}, rootKeys: map[int]keyset{}, nodes: map[string]*node{}, hashes: w.rng.Intn(3), lens: w.rng.Intn(3), cs: w.chance(60)}
	r.nextKey = w.keyBase
	if w.chance(25) && w.keyBase == 0 {
		r.kinds = pick(w, []string{"p", "q", "r", "pqr"})
	}
	if w.lib && r.kinds != "" {
		r.kinds = pick(w, []string{"p", "r", "pr"})
	}
	if adv {
		r.badRate = pick(w, []int{0, 0, 5, 15})
	}
	for _, role := range []string{"root", "timestamp", "snapshot", "targets"} {
		r.keys[role] = r.freshSet()
	}
	if w.chance(15) {
		r.keys["snapshot"] = r.keys["timestamp"]
	}
	return r
}
func (r *repo) put(role string, id int, ver int) {
	r.files[role] = id
	r.files[fmt.Sprintf("%d.%s", ver, role)] = id
	r.all[role] = append(r.all[role], id)
}
func (r *repo) exp() int {
	if r.soon > 0 && r.w.chance(r.soon) {
		return 0
	}
	if r.even {
		return 2 + 2*r.w.rng.Intn(6)
	}
	return 1 + r.w.rng.Intn(6)
}

// past is an expiry time before 0
func (r *repo) past() int {
	if r.even {
		return -2 - 2*r.w.rng.Intn(3)
	}
	return -1 - r.w.rng.Intn(3)
}
func verName(role string, ver int) string { return fmt.Sprintf("%d.%s", ver, role) }
func (r *repo) fmtDoc(d *Doc) {
	d.JSON = true
	d.WS = r.w.rng.Intn(4)
	if r.pad > 0 {
		d.Pad = 1 + r.w.rng.Intn(r.pad)
		if d.Typ == "timestamp" {
			d.Pad %= 8000
		}
	}
	if r.w.chance(20) {
		d.Extra = map[string]any{"x-ext": map[string]any{"a": []any{1, "two", nil, true}}}
	}
}

func (r *repo) rootTemplate() *Doc {
	d := &Doc{Typ: "root", Ver: r.rootVer, Exp: r.exp(), CS: r.cs, Roles: map[string]RoleSpec{}}
	r.fmtDoc(d)
	sets := []keyset{}
	names := []string{"root", "timestamp", "snapshot", "targets"}
	for _, role := range names {
		ks := r.keys[role]
		d.Roles[role] = RoleSpec{append([]string{}, ks.Kids...), ks.Thr}
		sets = append(sets, ks)
	}
	d.Keys = keysOf(sets...)
	if r.w.chance(10) {
		d.Keys["e98"] = "e98"
	}
	return d
}

// mats is the number of different keys of a set
func (r *repo) mats(ks keyset) int {
	m := map[string]bool{}
	for _, k := range ks.Kids {
		m[matOf(k)] = true
	}
	return len(m)
}

// publishRoot makes the next root, rotating the given roles
func (r *repo) publishRoot(rotate ...string) int {
	old := r.keys["root"]
	for _, role := range rotate {
		ks := r.freshSet()
		if role == "root" && r.w.chance(30) { // keep a key
			ks.Kids = append(ks.Kids, old.Kids[0])
		} else if role == "root" && r.w.chance(60) { // replace one key, or add one
			out := -1
			if r.w.chance(80) {
				out = r.w.rng.Intn(len(old.Kids))
			}
			ks = keyset{Kids: []string{r.freshKid()}, Thr: old.Thr}
			for i, k := range old.Kids {
				if i != out && k != ks.Kids[0] {
					ks.Kids = append(ks.Kids, k)
				}
			}
			if n := len(keysOf(ks)); ks.Thr > r.mats(ks) || n == 0 {
				ks.Thr = r.mats(ks)
			}
			if r.w.chance(20) {
				ks.Thr = 1 + r.w.rng.Intn(r.mats(ks))
			}
		}
		r.keys[role] = ks
	}
	r.prevRoot = old
	r.rootVer++
	d := r.rootTemplate()
	if r.w.chance(8) && !r.fresh {
		d.Exp = r.past() // an expired intermediate root
	}
	if r.rootVer == 1 {
		r.signBy(d, r.keys["root"])
	} else {
		r.signBy(d, old, r.keys["root"])
	}
	if r.adv && r.w.chance(r.badRate/2) && r.rootVer > 1 {
		r.perturb(d, r.keys["root"], old)
	}
	id := r.w.add(d)
	r.rootPrev[id], r.rootKeys[id] = old, r.keys["root"]
	r.put("root", id, r.rootVer)
	r.rootDoc = id
	return id
}

var tgtPaths = []string{"a", "b", "a/b", "a/c", "b/x.txt", "file1.txt", "dir/sub/f", "*", "[a]", "ü/é", "a-b", "p30", ".", "", "a//b", "./a", "/a", "a/"}
var patterns = []string{"*", "a", "a/*", "*/b", "*/*", "?", "file?.txt", "*.txt", "[ab]", "[^a]", "[a-c]/*", "\\*", "dir/*/f", "dir/sub/*",
	"b", "a/b", "ü/*", "[", "a[", "[]a]", "*/*/*", "p*", "", "[a-]", "**", "\\[a\\]"}

// path_hash_prefixes are compared with the wrong encoding of the hash (a known
// finding, see known-findings.txt): here only prefixes for which that makes no
// difference.  The family "paths" has the others.
var hashPrefixes = []string{"", "0123456789"}

var roleNames = []string{"r1", "r2", "r3", "r4", "r5", "a/b", "a b", "ü", "x%2Fy", "..", "r.json", "snapshots", "Root", "r1-0", "-", "~tmp",
	"a%2Fb", "a+b", "snapshot.json", "timestamp.json", "root.json", "targets.json", "root.json.json", "../r1", "../../up", "../../../up", "/abs", "a/../r2", "..json", "r1.json.tmp", "con:aux", "long" + longName}

var longName = strings.Repeat("x", 200)

func (r *repo) entTgt(path string) TgtEnt {
	return TgtEnt{Len: r.w.rng.Intn(50), Hs: []Hs{{"sha256", -1 - r.w.rng.Intn(5)}}}
}

// buildGraph makes a graph of delegations below targets
func (r *repo) buildGraph(n int) {
	w := r.w
	top := &node{name: "targets", ks: r.keys["targets"], tgts: map[string]TgtEnt{}}
	r.nodes["targets"] = top
	r.order = []string{"targets"}
	perm := w.rng.Perm(len(roleNames))
	names := []string{}
	for i := 0; i < n && i < len(perm); i++ {
		names = append(names, roleNames[perm[i]])
	}
	twins := map[string]string{}
	if n > 0 && w.chance(30) { // names that differ in little
		a := names[0]
		b := pick(w, []string{strings.ToUpper(a), strings.ToLower(a), a + " ", " " + a, a + ".json", a + "x", string([]rune(a)[:1]), a + "/", "./" + a, a + "%20", strings.TrimSuffix(a, ".json")})
		if b != "" && !slices.Contains(names, b) && !slices.Contains([]string{"root", "timestamp", "snapshot", "targets", "1.root"}, b) && !strings.HasSuffix(a, longName) {
			names = append(names, b)
			twins[b] = a
		}
	}
	for _, nm := range names {
		ks := r.freshSet()
		if a, ok := twins[nm]; ok && w.chance(40) {
			ks = r.nodes[a].ks
		}
		r.nodes[nm] = &node{name: nm, ks: ks, tgts: map[string]TgtEnt{}}
		r.order = append(r.order, nm)
	}
	if len(twins) > 0 {
		r.twins = twins
	}
	for i, nm := range append([]string{}, r.order...) {
		nd := r.nodes[nm]
		for k := w.rng.Intn(3); k > 0; k-- {
			p := pick(w, tgtPaths)
			nd.tgts[p] = r.entTgt(p)
		}
		if n == 0 {
			continue
		}
		if i > 0 && !w.chance(45) {
			continue
		}
		if w.chance(15) {
			r.makeSuccinct(nd)
			continue
		}
		nd.dk = "roles"
		nd.dkeys = map[string]string{}
		m := 1 + w.rng.Intn(4)
		wide := n > 3 && w.chance(20)
		if wide {
			m += 4
		}
		used := map[string]bool{}
		for j := 0; j < m; j++ {
			var c string
			if i == 0 || w.chance(70) {
				c = names[w.rng.Intn(len(names))]
			} else {
				c = names[0]
			}
			if used[c] {
				continue
			}
			used[c] = true
			r.addRole(nd, c)
			if wide && w.chance(60) {
				dr := &nd.droles[len(nd.droles)-1]
				dr.RawPrefixes, dr.RawPaths = nil, []string{"*", "*/*", "*/*/*"}
			}
		}
		for b, a := range twins { // listed next to each other
			if used[a] != used[b] && w.chance(70) {
				if used[a] {
					a = b
				}
				r.addRole(nd, a)
				if k := len(nd.droles); w.chance(50) {
					nd.droles[k-1], nd.droles[0] = nd.droles[0], nd.droles[k-1]
				}
			}
		}
	}
}
func (r *repo) addRole(nd *node, c string) {
	w := r.w
	ks := r.nodes[c].ks
	if nd.name != "targets" && w.chance(45) || w.chance(10) { // not every delegator asks for the same keys
		ks = r.freshSet()
		if w.chance(30) { // or only for another number of them
			ks = r.nodes[c].ks
			ks.Thr = 1 + w.rng.Intn(r.mats(ks))
		}
		r.nodes[c].alts = append(r.nodes[c].alts, ks)
	}
	dr := DRole{Name: c, Kids: append([]string{}, ks.Kids...), Thr: ks.Thr, Term: w.chance(20)}
	if w.chance(20) {
		for k := 1 + w.rng.Intn(2); k > 0; k-- {
			dr.RawPrefixes = append(dr.RawPrefixes, pick(w, hashPrefixes))
		}
	} else {
		for k := 1 + w.rng.Intn(2); k > 0; k-- {
			dr.RawPaths = append(dr.RawPaths, pick(w, patterns))
		}
		if w.chance(25) {
			dr.RawPaths = append(dr.RawPaths, "*", "*/*")
		}
	}
	for _, k := range ks.Kids {
		nd.dkeys[k] = matOf(k)
	}
	nd.droles = append(nd.droles, dr)
}
func hexStr(n, digits int) string { return fmt.Sprintf("%0*x", digits, n) }
func binOf(path string, bl int) int {
	h := pathInfo(path).H4
	v := uint32(h[0])<<24 | uint32(h[1])<<16 | uint32(h[2])<<8 | uint32(h[3])
	return int(v >> (32 - uint(bl)))
}
func (r *repo) makeSuccinct(nd *node) {
	w := r.w
	nd.dk = "succinct"
	nd.bl = pick(w, []int{1, 2, 3, 4, 5, 8, 9, 12, 13, 16, 17, 20})
	nd.pre = pick(w, []string{"bin", "b", "bins-x", "a/b", "ü"})
	nd.sk = r.freshSet()
	nd.dkeys = keysOf(nd.sk)
	for _, p := range tgtPaths {
		bn := fmt.Sprintf("%s-%s", nd.pre, hexStr(binOf(p, nd.bl), (nd.bl+3)/4))
		b, ok := r.nodes[bn]
		if !ok {
			if len(r.order) > 24 {
				continue
			}
			b = &node{name: bn, ks: nd.sk, tgts: map[string]TgtEnt{}}
			r.nodes[bn] = b
			r.order = append(r.order, bn)
		} else if w.chance(80) {
			b.alts = append(b.alts, nd.sk)
		}
		if w.chance(70) {
			b.tgts[p] = r.entTgt(p)
		}
	}
}

func (r *repo) nodeTemplate(nd *node) *Doc {
	d := &Doc{Typ: "targets", Ver: nd.ver, Exp: r.exp(), Tgts: cpm(nd.tgts), DK: nd.dk, DKeys: cpm(nd.dkeys), BL: nd.bl, Pre: nd.pre,
		SKids: append([]string{}, nd.sk.Kids...), SThr: nd.sk.Thr}
	for _, dr := range nd.droles {
		dr.Kids = append([]string{}, dr.Kids...)
		d.DRoles = append(d.DRoles, dr)
	}
	r.fmtDoc(d)
	return d
}

func (r *repo) entry(id int) MetaEnt {
	d := r.w.doc(id)
	e := MetaEnt{Ver: d.Ver}
	if r.lens == 2 || r.lens == 1 && r.w.chance(50) {
		e.Len = d.Size
	}
	if r.hashes == 2 || r.hashes == 1 && r.w.chance(50) {
		switch r.w.rng.Intn(4) {
		case 0:
			e.Hs = []Hs{{"sha512", id}}
		case 1:
			e.Hs = []Hs{{"sha512", id}, {"sha256", id}}
		default:
			e.Hs = []Hs{{"sha256", id}}
		}
	}
	return e
}

// publish a release: new targets where needed, snapshot, timestamp
func (r *repo) publish() {
	w := r.w
	r.nodes["targets"].ks = r.keys["targets"]
	for _, nm := range r.order {
		nd := r.nodes[nm]
		if nd.doc == 0 || w.chance(40) || (nm == "targets" && !r.signedOK(nd.doc, "targets")) {
			nd.ver++
			if w.chance(30) && !r.fresh {
				p := pick(w, tgtPaths)
				nd.tgts[p] = r.entTgt(p)
			}
			d := r.nodeTemplate(nd)
			sets := append([]keyset{nd.ks}, nd.alts...)
			if len(sets) > 1 && r.adv && w.chance(60) { // enough for one of them only
				sets = []keyset{pick(w, sets)}
			}
			r.signBy(d, sets...)
			if w.chance(r.badRate) {
				r.perturb(d, nd.ks, r.keys["timestamp"])
			}
			nd.doc = w.add(d)
			r.put(nm, nd.doc, d.Ver)
		}
	}
	r.publishSn()
	r.publishTs()
}
func (r *repo) signedOK(id int, role string) bool {
	have := map[string]bool{}
	for _, s := range r.w.doc(id).Sigs {
		have[s.Kid] = s.OK
	}
	got := map[string]bool{}
	for _, k := range r.keys[role].Kids {
		if have[k] {
			got[matOf(k)] = true
		}
	}
	return len(got) >= r.keys[role].Thr
}
func (r *repo) publishSn() {
	w := r.w
	r.snVer++
	d := &Doc{Typ: "snapshot", Ver: r.snVer, Exp: r.exp(), Meta: map[string]MetaEnt{}}
	r.fmtDoc(d)
	for _, nm := range r.order {
		d.Meta[nm+".json"] = r.entry(r.nodes[nm].doc)
	}
	if w.chance(10) && !r.steady {
		d.Meta["old.json"] = MetaEnt{Ver: 1 + w.rng.Intn(3)}
	}
	r.signBy(d, r.keys["snapshot"])
	if w.chance(r.badRate) {
		r.perturb(d, r.keys["snapshot"], r.keys["timestamp"])
	}
	id := w.add(d)
	r.put("snapshot", id, d.Ver)
	r.lastSN = id
}
func (r *repo) publishTs() {
	w := r.w
	r.tsVer++
	d := &Doc{Typ: "timestamp", Ver: r.tsVer, Exp: r.exp(), Meta: map[string]MetaEnt{"snapshot.json": r.entry(r.lastSN)}}
	r.fmtDoc(d)
	if w.chance(5) {
		d.Meta["other.json"] = MetaEnt{Ver: 1}
	}
	r.signBy(d, r.keys["timestamp"])
	if w.chance(r.badRate) {
		r.perturb(d, r.keys["timestamp"], r.keys["snapshot"])
	}
	id := w.add(d)
	r.put("timestamp", id, d.Ver)
	r.lastTS = id
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// perturb makes the document wrong, or just different, in one way.  ks: the keys
// it must be signed with; other: keys of somebody else
func (r *repo) perturb(d *Doc, ks, other keyset) {
	w := r.w
	full := func(k keyset) {
		d.Sigs = nil
		for _, kid := range k.Kids {
			d.Sigs = append(d.Sigs, Sig{kid, matOf(kid), true})
		}
	}
	for try := 0; try < 20; try++ {
		which := w.rng.Intn(24)
		if k, _ := aliasOf(ks); k != "" && ks.Thr > 1 && try == 0 && w.chance(30) {
			which = 20
		}
		switch which {
		case 0:
			d.Ver++
		case 1:
			if d.Ver < 2 {
				continue
			}
			d.Ver--
		case 2:
			d.Ver += 2
		case 3:
			d.Exp = r.past()
		case 4:
			d.Typ = pick(w, []string{"root", "timestamp", "snapshot", "targets", "mirror", ""})
		case 5, 6: // signatures by too few keys
			mats, keep := map[string]bool{}, []Sig{}
			for _, i := range w.rng.Perm(len(ks.Kids)) {
				k := ks.Kids[i]
				if !mats[matOf(k)] && len(mats) >= ks.Thr-1 {
					continue
				}
				mats[matOf(k)] = true
				keep = append(keep, Sig{k, matOf(k), true})
			}
			d.Sigs = keep
			if w.chance(50) {
				for _, k := range other.Kids {
					d.Sigs = append(d.Sigs, Sig{k, matOf(k), true})
				}
				d.dedupSigs()
			}
		case 7: // the right key ids, somebody else's key
			full(ks)
			for i := range d.Sigs {
				d.Sigs[i].Mat = "e97"
			}
		case 8: // signatures over something else
			full(ks)
			for i := range d.Sigs {
				if i >= ks.Thr-1 || w.chance(50) {
					d.Sigs[i].OK = false
				}
			}
		case 9: // no signature bytes at all
			full(ks)
			for i := range d.Sigs {
				if i >= ks.Thr-1 {
					d.Sigs[i].OK, d.Sigs[i].Mat = false, pick(w, []string{"", "empty"})
				}
			}
		case 10: // the same signature twice
			if len(d.Sigs) == 0 {
				continue
			}
			d.Sigs = append(d.Sigs, d.Sigs[0])
		case 11: // by the keys of another role
			full(other)
		case 12:
			d.Sigs = nil
		case 13:
			d.Pad = 1 + w.rng.Intn(300)
		case 14: // one key signs under all key ids
			full(ks)
			for i := range d.Sigs {
				d.Sigs[i].Mat = matOf(ks.Kids[0])
			}
		case 15: // one key under several made-up key ids
			k := ks.Kids[0]
			d.Sigs = []Sig{{k, matOf(k), true}, {matOf(k) + "~d", matOf(k), true}, {matOf(k) + "~c", matOf(k), true}}
		case 16, 17, 18, 19:
			if len(d.Meta) > 0 {
				n := pick(w, sortedKeys(d.Meta))
				e := d.Meta[n]
				switch w.rng.Intn(9) {
				case 8:
					e.Ver = 0
				case 0:
					e.Ver++
				case 1, 2:
					if e.Ver < 2 {
						continue
					}
					e.Ver--
				case 3:
					e.Hs = []Hs{{"sha256", -7}}
				case 4:
					e.Hs = append(e.Hs, Hs{"md5", -8})
				case 5:
					if e.Len == 0 {
						e.Len = 7
					} else {
						e.Len++
					}
				case 6, 7:
					delete(d.Meta, n)
				}
				if w.rng.Intn(8) < 7 {
					if _, ok := d.Meta[n]; ok {
						d.Meta[n] = e
					}
				}
				if len(d.Meta) == 0 && d.Typ == "snapshot" {
					d.Meta["zz.json"] = MetaEnt{Ver: 1}
				}
			} else if d.Typ == "root" && len(d.Roles) > 0 {
				switch w.rng.Intn(7) {
				case 5, 6: // too few of the keys can be used
					rs := d.Roles[pick(w, sortedKeys(d.Roles))]
					breakKeys(w, d.Keys, rs.Kids, rs.Thr)
				case 0: // keys nobody approved
					n := pick(w, []string{"root", "timestamp", "snapshot", "targets"})
					ks2 := r.freshSet()
					d.Roles[n] = RoleSpec{ks2.Kids, ks2.Thr}
					for k, m := range keysOf(ks2) {
						d.Keys[k] = m
					}
				case 1:
					n := pick(w, []string{"timestamp", "snapshot", "targets"})
					delete(d.Roles, n)
				case 2:
					n := pick(w, sortedKeys(d.Roles))
					rs := d.Roles[n]
					rs.Thr = pick(w, []int{0, -1, rs.Thr + 1, 9})
					d.Roles[n] = rs
				case 3:
					d.CS = !d.CS
				case 4:
					n := pick(w, []string{"timestamp", "snapshot", "targets"})
					d.Roles[n] = RoleSpec{[]string{}, pick(w, []int{1, 1, 0, -1})}
				}
			} else if d.DK == "roles" && len(d.DRoles) > 0 {
				i := w.rng.Intn(len(d.DRoles))
				dr := d.DRoles[i]
				switch w.rng.Intn(6) {
				case 4, 5:
					breakKeys(w, d.DKeys, dr.Kids, dr.Thr)
				case 0:
					dr.Thr = pick(w, []int{0, -1, dr.Thr + 1})
				case 1:
					dr.Name = pick(w, []string{"", "root", "snapshot", "timestamp", "targets"})
				case 2:
					dr.Kids = []string{}
					if w.chance(40) {
						dr.Thr = pick(w, []int{0, -1})
					}
				case 3:
					k := "e96"
					dr.Kids = []string{k}
					dr.Thr = 1
					d.DKeys[k] = k
				}
				d.DRoles[i] = dr
			} else if d.DK == "succinct" {
				switch w.rng.Intn(4) {
				case 3:
					breakKeys(w, d.DKeys, d.SKids, d.SThr)
				case 0:
					d.BL = pick(w, []int{0, 33, -1, 100})
				case 1:
					d.SThr = pick(w, []int{0, -1, 9})
				case 2:
					d.SKids = []string{}
				}
			} else {
				continue
			}
		case 22: // by those keys of the others only that are not among the right ones
			d.Sigs = nil
			for _, k := range other.Kids {
				if !inList(ks.Kids, k) {
					d.Sigs = append(d.Sigs, Sig{k, matOf(k), true})
				}
			}
		case 23: // by any of both
			d.Sigs = nil
			for _, k := range append(append([]string{}, ks.Kids...), other.Kids...) {
				if w.chance(50) {
					d.Sigs = append(d.Sigs, Sig{k, matOf(k), true})
				}
			}
			d.dedupSigs()
		case 20: // an alias makes up the numbers
			if len(ks.Kids) == 0 {
				continue
			}
			if k, a := aliasOf(ks); k != "" && ks.Thr > 1 {
				d.Sigs = []Sig{{k, k, true}, {a, k, true}}
				for _, o := range ks.Kids {
					if m := matOf(o); m != k && len(d.Sigs) < ks.Thr {
						d.Sigs = append(d.Sigs, Sig{o, m, true})
					}
				}
				d.dedupSigs()
				break
			}
			full(ks)
			for i := range d.Sigs {
				d.Sigs[i].Kid, d.Sigs[i].Mat = ks.Kids[i], matOf(ks.Kids[0])
			}
		case 21: // everything is fine, but other bytes
			d.WS++
			d.Extra = map[string]any{"x-alt": w.rng.Intn(1000)}
		}
		return
	}
}

// aliasOf gives a key of ks that is also listed under another key id
func aliasOf(ks keyset) (string, string) {
	for _, a := range ks.Kids {
		for _, k := range ks.Kids {
			if strings.Contains(a, "~") && k == matOf(a) {
				return k, a
			}
		}
	}
	return "", ""
}

// breakKeys makes keys unusable until fewer than thr of kids are left
func breakKeys(w *World, keys map[string]string, kids []string, thr int) {
	for _, i := range w.rng.Perm(len(kids)) {
		left := map[string]bool{}
		for _, k := range kids {
			if keys[k] != "" {
				left[keys[k]] = true
			}
		}
		if len(left) < thr {
			return
		}
		keys[kids[i]] = ""
	}
}
func (d *Doc) dedupSigs() {
	seen := map[string]bool{}
	out := []Sig{}
	for _, s := range d.Sigs {
		if !seen[s.Kid] {
			seen[s.Kid] = true
			out = append(out, s)
		}
	}
	d.Sigs = out
}

// mutate makes a variant of an existing document
func (r *repo) mutate(id int, role string) int {
	w := r.w
	d := w.doc(id)
	if !d.JSON || d.Typ == "" {
		return r.junk()
	}
	c := d.clone()
	ks, ok := r.keys[role]
	if !ok {
		if nd := r.nodes[role]; nd != nil {
			ks = nd.ks
		} else {
			ks = r.keys["targets"]
		}
	}
	if w.chance(30) { // tampered with: the signatures no longer fit
		for i := range c.Sigs {
			c.Sigs[i].OK = false
		}
		switch w.rng.Intn(3) {
		case 0:
			c.Ver++
		case 1:
			c.Exp += 2
		case 2:
			c.Extra = map[string]any{"x-tampered": w.rng.Intn(1000)}
		}
		return w.add(c)
	}
	other := r.keys[pick(w, []string{"timestamp", "snapshot", "targets"})]
	for b, a := range r.twins {
		if role == a && w.chance(60) {
			other = r.nodes[b].ks
		} else if role == b && w.chance(60) {
			other = r.nodes[a].ks
		}
	}
	if prev, ok := r.rootPrev[id]; ok {
		ks = r.rootKeys[id]
		if w.chance(60) {
			other = prev
		}
		if w.chance(20) { // signed by the keys before, or by any of both
			c.Sigs = nil
			both := w.chance(60)
			for _, k := range append(append([]string{}, prev.Kids...), ks.Kids...) {
				if both && w.chance(50) || !both && !inList(ks.Kids, k) {
					c.Sigs = append(c.Sigs, Sig{k, matOf(k), true})
				}
			}
			c.dedupSigs()
			return w.add(c)
		}
	}
	r.perturb(c, ks, other)
	return w.add(c)
}
func (r *repo) junk() int {
	w := r.w
	junks := []string{"", "{}", "null", "[]", "not json", `{"signed":null}`, `{"signed":{"_type":5}}`, `{"signed":{},"signatures":[]}`, "\"x\"", "{\"signed\":[]}", "\x00\xff"}
	return w.add(&Doc{Raw: []byte(pick(w, junks)), Typ: "junk"})
}

type answer struct {
	k    string // doc, http, err
	id   int
	body []byte
	err  error
}
