package main

import (
	"fmt"
	"os"
	"path/filepath"
)

// a repository and what its clients may meet
type clientWorld struct {
	w       *World
	r       *repo
	adv     bool // the answers may be anything
	advRate int
	focus   string
	root0   int
	alone   bool // the cache is used by one client at a time
}

func newClientWorld(w *World, focus string, sizes []int) *clientWorld {
	adv := !w.chance(30)
	if focus == "honest" || focus == "steady" {
		adv = false
	}
	w.vbase = pick(w, []int64{0, 0, 0, 1<<31 - 3, 1 << 40})
	r := newRepo(w, adv)
	r.steady = focus == "steady"
	r.buildGraph(pick(w, sizes))
	x := &clientWorld{w: w, r: r, adv: adv, focus: focus, alone: true}
	x.root0 = r.publishRoot()
	r.publish()
	if adv {
		x.advRate = pick(w, []int{0, 5, 15, 30})
	}
	return x
}

// answer is what the repository says
func (x *clientWorld) answer(role string, ver int, max int64) answer {
	w, r, advRate := x.w, x.r, x.advRate
	key := role
	if ver >= 0 {
		key = fmt.Sprintf("%d.%s", ver, role)
	}
	honest, have := r.files[key]
	if role != "root" && !w.chance(advRate) || role == "root" && !w.chance(advRate/2) {
		if !have {
			return answer{k: "http", id: 404}
		}
		return answer{k: "doc", id: honest}
	}
	src := r.all[role]
	if len(src) == 0 {
		src = r.all["targets"]
	}
	switch w.rng.Intn(11) {
	case 0, 1:
		return answer{k: "doc", id: pick(w, src)}
	case 2, 3, 4, 5:
		from := pick(w, src)
		if have && w.chance(70) {
			from = honest
		}
		return answer{k: "doc", id: r.mutate(from, role)}
	case 6:
		return answer{k: "doc", id: w.docs[w.rng.Intn(len(w.docs))].ID}
	case 7:
		return answer{k: "doc", id: r.junk()}
	case 8:
		return answer{k: "http", id: pick(w, []int{403, 404, 400, 401, 410, 500, 503, 304, 204})}
	case 9:
		if w.chance(40) {
			return answer{k: "crash"}
		}
		return answer{k: "err", id: pick(w, []int{1, 1, 2, 3})}
	default:
		if !have {
			return answer{k: "http", id: 403}
		}
		return answer{k: "doc", id: honest}
	}
}

// evolve: time passes, the repository publishes
func (x *clientWorld) evolve() {
	w, r, adv := x.w, x.r, x.adv
	for k := w.rng.Intn(4); k > 0 && w.chance(60); k-- {
		rot := []string{}
		for _, ro := range []string{"root", "timestamp", "snapshot", "targets"} {
			if w.chance(30) {
				rot = append(rot, ro)
			}
		}
		if w.chance(10) {
			r.cs = !r.cs
		}
		r.publishRoot(rot...)
		if len(rot) > 0 || w.chance(50) {
			if adv && w.chance(20) { // recovery from a fast-forward attack
				r.tsVer, r.snVer = w.rng.Intn(2), w.rng.Intn(2)
			}
			r.publish()
		}
	}
	if w.chance(60) {
		r.publish()
	}
	if adv && w.chance(8) { // an attacker that has the online keys
		r.tsVer += 5
		r.publish()
	}
}

// session: one process that uses the cache
func (x *clientWorld) session(c *client, first bool) {
	w, r, adv, focus := x.w, x.r, x.adv, x.focus
	if x.alone && (w.chance(12) || focus == "damage" && w.chance(60)) {
		c.corrupt()
		if w.chance(30) {
			c.corrupt()
		}
		c.learn()
	}
	cc := defaultCfg()
	if w.chance(25) {
		cc.MaxRot = pick(w, []int{0, 1, 2, 3})
	}
	if w.chance(35) {
		cc.MaxDel = pick(w, []int{0, 1, 2, 3, 5})
	}
	if w.chance(20) {
		sz := func(role string) int {
			if id, ok := r.files[role]; ok {
				return w.doc(id).Size - w.rng.Intn(2)
			}
			return 700
		}
		switch w.rng.Intn(4) {
		case 0:
			cc.RootMax = sz("root")
		case 1:
			cc.TsMax = sz("timestamp")
		case 2:
			cc.SnMax = sz("snapshot")
		case 3:
			cc.TgMax = sz("targets")
		}
	}
	cc.Cache = !w.chance(12)
	cc.Offline = w.chance(10) || focus == "offline" && !first
	if w.chance(5) && adv && x.alone {
		cc.Blocked = []string{pick(w, append([]string{"root", "timestamp", "snapshot"}, r.order...))}
	}
	if focus == "store" {
		switch w.rng.Intn(4) {
		case 0:
			cc.FSize = 100 + w.rng.Intn(2500)
		case 1:
			cc.FSize = w.doc(pick(w, r.all[pick(w, []string{"root", "timestamp", "snapshot", "targets"})])).Size - w.rng.Intn(2)
		case 2:
			cc.Blocked = append(cc.Blocked, pick(w, append([]string{"root", "timestamp", "snapshot"}, r.order...)))
		}
		c.nodir = pick(w, []int{0, 0, 0, 10})
	}
	root := x.root0
	if w.chance(30) {
		if b, err := os.ReadFile(filepath.Join(c.md(), "root.json")); err == nil {
			if id := w.idOf(b); id > 0 {
				root = id
			}
		}
	} else if w.chance(15) {
		root = pick(w, r.all["root"])
	}
	if adv && w.chance(8) {
		root = r.mutate(root, "root")
	}
	defer c.endSession()
	if !c.newSession(root, cc) {
		return
	}
	if w.chance(60) {
		if ok := c.refresh(); !ok && w.chance(30) {
			c.refresh()
		}
	}
	for k := w.rng.Intn(4); k > 0; k-- {
		c.info(pick(w, tgtPaths))
	}
}

// scenClient: several sessions of one cache against one repository
func scenClient(w *World, name, dir string, focus string) *Scen {
	x := newClientWorld(w, focus, []int{0, 0, 1, 3, 6, 10})
	c := newClient(w, name, dir)
	defer c.close()
	if focus == "wire" {
		c.wire = newWire()
		c.url = c.wire.srv.URL + "/md"
	}
	c.respond = x.answer
	nsess := 1 + w.rng.Intn(4)
	for i := 0; i < nsess && !c.dead; i++ {
		if i > 0 || w.chance(40) {
			x.evolve()
		}
		x.session(c, i == 0)
	}
	return c.sc
}
