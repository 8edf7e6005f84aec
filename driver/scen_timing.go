package main

import "time"

// scenTiming: documents that expire while a client is in use.  The time that
// counts is the one when the client was made.
func scenTiming(w *World, name, dir string) *Scen {
	w.t0 = time.Now().UTC().Truncate(time.Second).Add(2 * time.Second)
	r := newRepo(w, false)
	r.soon = pick(w, []int{15, 30, 60})
	r.buildGraph(pick(w, []int{0, 2, 4}))
	c := newClient(w, name, dir)
	defer c.close()
	root0 := r.publishRoot()
	r.publish()
	for k := w.rng.Intn(3); k > 0; k-- {
		r.publishRoot()
	}
	if w.chance(50) { // leave nothing behind that is long expired
		r.publish()
	}
	c.respond = func(role string, ver int, max int64) answer { return r.honest(role, ver) }
	cc := defaultCfg()
	cc.Now = -1
	ok := c.newSession(root0, cc)
	if ok && w.chance(30) {
		ok = c.refresh()
	}
	if time.Now().After(w.t0.Add(-100 * time.Millisecond)) {
		// too slow: it cannot be told any more what the time was
		c.sc.Ev = []ev{}
		return c.sc
	}
	time.Sleep(time.Until(w.t0.Add(200 * time.Millisecond)))
	if ok {
		c.refresh()
		for k := 1 + w.rng.Intn(3); k > 0; k-- {
			c.info(pick(w, tgtPaths))
		}
	}
	c.endSession()
	// for the next client they are expired
	for k := 0; k < 2; k++ {
		cc.Now = 1
		cc.Offline = w.chance(25)
		if c.newSession(root0, cc) {
			c.refresh()
			c.info(pick(w, tgtPaths))
		}
		c.endSession()
		if w.chance(50) {
			break
		}
		r.soon = 0
		r.publishRoot()
		r.publish()
	}
	return c.sc
}

// honest gives what is published
func (r *repo) honest(role string, ver int) answer {
	key := role
	if ver >= 0 {
		key = verName(role, ver)
	}
	if id, have := r.files[key]; have {
		return answer{k: "doc", id: id}
	}
	return answer{k: "http", id: 404}
}
