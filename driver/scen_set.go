package main

// Direct use of the trusted metadata set, in any order, at a chosen time.

import (
	"errors"
	"fmt"
	"runtime/debug"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
)

func classes(err error) []string {
	c := []string{}
	add := func(b bool, n string) {
		if b {
			c = append(c, n)
		}
	}
	add(errors.Is(err, metadata.ErrRepository{}), "repository")
	add(errors.Is(err, metadata.ErrUnsignedMetadata{}), "unsigned")
	add(errors.Is(err, metadata.ErrBadVersionNumber{}), "version")
	add(errors.Is(err, metadata.ErrEqualVersionNumber{}), "equal")
	add(errors.Is(err, metadata.ErrExpiredMetadata{}), "expired")
	add(errors.Is(err, metadata.ErrLengthOrHashMismatch{}), "mismatch")
	add(errors.Is(err, metadata.ErrDownload{}), "download")
	add(errors.Is(err, metadata.ErrDownloadLengthMismatch{}), "dlength")
	add(errors.As(err, &metadata.ErrDownloadHTTP{}), "http")
	add(errors.As(err, &metadata.ErrRuntime{}), "runtime")
	return c
}

type setRun struct {
	w   *World
	sc  *Scen
	set *trustedmetadata.TrustedMetadata
	now int
}

func (r *setRun) guard(f func()) bool {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- fmt.Sprint(x) + "\n" + string(debug.Stack())
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case s := <-done:
		if s != "" {
			r.sc.Ev = append(r.sc.Ev, ev{"e": "panic", "msg": s})
		}
		return s == ""
	case <-time.After(20 * time.Second):
		r.sc.Ev = append(r.sc.Ev, ev{"e": "hang"})
		hung = true
		return false
	}
}
func (r *setRun) tm() tmObs {
	if r.set == nil {
		return noTm()
	}
	return r.w.observe(*r.set)
}
func (r *setRun) create(id int) bool {
	var err error
	if !r.guard(func() { r.set, err = trustedmetadata.New(r.w.bytes(id)) }) {
		return false
	}
	if r.set != nil {
		r.set.RefTime = r.w.when(r.now)
	}
	e := ev{"e": "new", "id": id, "now": r.now, "err": err != nil, "tm": r.tm()}
	if err != nil {
		e["msg"] = err.Error()
	}
	r.sc.Ev = append(r.sc.Ev, e)
	return err == nil
}
func outOf[T metadata.Roles](r *setRun, m *metadata.Metadata[T], slot func() *metadata.Metadata[T], id int) int {
	if m == nil {
		return 0
	}
	if m == slot() {
		return id
	}
	return -1
}
func (r *setRun) op(op string, id int, role, parent string, trusted bool) bool {
	var err error
	b := r.w.bytes(id)
	out := 0
	ok := r.guard(func() {
		t := r.set
		switch op {
		case "root":
			m, e := t.UpdateRoot(b)
			err, out = e, outOf(r, m, func() *metadata.Metadata[metadata.RootType] { return t.Root }, id)
		case "timestamp":
			m, e := t.UpdateTimestamp(b)
			err, out = e, outOf(r, m, func() *metadata.Metadata[metadata.TimestampType] { return t.Timestamp }, id)
		case "snapshot":
			m, e := t.UpdateSnapshot(b, trusted)
			err, out = e, outOf(r, m, func() *metadata.Metadata[metadata.SnapshotType] { return t.Snapshot }, id)
		case "targets":
			var m *metadata.Metadata[metadata.TargetsType]
			var e error
			if role == "targets" && parent == "root" && id%2 == 0 {
				m, e = t.UpdateTargets(b)
			} else {
				m, e = t.UpdateDelegatedTargets(b, role, parent)
			}
			err, out = e, outOf(r, m, func() *metadata.Metadata[metadata.TargetsType] { return t.Targets[role] }, id)
		}
	})
	if !ok {
		return false
	}
	e := ev{"e": "op", "op": op, "id": id, "role": role, "parent": parent, "trusted": trusted, "now": r.now,
		"err": err != nil, "cls": classes(err), "tm": r.tm(), "out": out}
	if err != nil {
		e["msg"] = err.Error()
	}
	r.sc.Ev = append(r.sc.Ev, e)
	return true
}

func trustedOf(tm tmObs, role string) int {
	switch role {
	case "root":
		return tm.Root
	case "timestamp":
		return tm.Ts
	case "snapshot":
		return tm.Sn
	}
	return tm.Tg[role]
}

// variantOf is a properly signed document of the same version with something else in it
func (r *repo) variantOf(id int) int {
	w := r.w
	c := w.doc(id).clone()
	switch w.rng.Intn(5) {
	case 0, 1:
		c.Exp = pick(w, []int{r.exp(), r.past(), 48})
	case 2:
		for _, n := range sortedKeys(c.Meta) {
			e := c.Meta[n]
			e.Ver = max(1, e.Ver+pick(w, []int{-1, 1, 2}))
			c.Meta[n] = e
		}
		if w.chance(60) {
			c.Ver += 1 + w.rng.Intn(2)
		}
	case 3:
		c.Extra = map[string]any{"x-variant": w.rng.Intn(1000)}
	case 4:
		c.Ver += pick(w, []int{-1, 1})
		if c.Ver < 1 {
			c.Ver = 1
		}
		if w.chance(50) {
			c.Exp = pick(w, []int{r.exp(), r.past()})
		}
	}
	return w.add(c)
}

func scenSet(w *World, name, dir string) *Scen {
	w.vbase = pick(w, []int64{0, 0, 1<<31 - 3, 1<<53 - 40})
	w.unit = pick(w, []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Hour, 24 * 365 * time.Hour})
	r := newRepo(w, true)
	r.even = true
	r.badRate = pick(w, []int{0, 0, 4, 10})
	r.buildGraph(pick(w, []int{0, 1, 2, 4, 8}))
	root0 := r.publishRoot()
	r.publish()
	rootFocus := w.chance(15)
	if rootFocus {
		for k := 1 + w.rng.Intn(4); k > 0; k-- {
			r.publishRoot("root")
		}
		r.publish()
	}
	for k := w.rng.Intn(3); k > 0; k-- {
		if w.chance(60) {
			rot := []string{}
			for _, ro := range []string{"root", "timestamp", "snapshot", "targets"} {
				if w.chance(25) {
					rot = append(rot, ro)
				}
			}
			r.publishRoot(rot...)
		}
		r.publish()
	}
	rate := pick(w, []int{10, 30, 50})
	sr := &setRun{w: w, sc: &Scen{N: name, Ev: []ev{}}, now: 0}
	if w.chance(10) {
		sr.now = 51 // everything has expired
	} else if w.chance(10) {
		sr.now = -51
	} else if w.chance(25) { // some have
		sr.now = pick(w, []int{3, 3, 5, 7, -3, -5})
	}
	choose := func(role string) int {
		src := r.all[role]
		id := src[len(src)-1]
		if w.chance(30) {
			id = pick(w, src)
		}
		if w.chance(rate) {
			if w.chance(8) {
				return r.junk()
			}
			if w.chance(8) {
				return w.docs[w.rng.Intn(len(w.docs))].ID
			}
			return r.mutate(id, role)
		}
		for b, a := range r.twins { // by the keys of the role with nearly the same name
			if (role == a || role == b) && w.chance(40) {
				c := w.doc(id).clone()
				c.Sigs = nil
				o := a
				if role == a {
					o = b
				}
				r.signBy(c, r.nodes[o].ks)
				return w.add(c)
			}
		}
		if k := trustedOf(sr.tm(), role); k > 0 && w.chance(12) { // differs from the trusted one in little
			return r.variantOf(k)
		}
		if w.chance(6) { // correct but expired
			d := w.doc(id)
			if d.JSON && d.Typ == role {
				c := d.clone()
				c.Exp = r.past()
				return w.add(c)
			}
		}
		return id
	}
	root := root0
	if w.chance(30) {
		root = choose("root")
	}
	if !sr.create(root) {
		return sr.sc
	}
	n := 5 + w.rng.Intn(16)
	stage := 0
	if rootFocus {
		for i := 0; i < n; i++ {
			id, ok := r.files[fmt.Sprintf("%d.root", w.doc(sr.tm().Root).Ver+1)]
			if !ok {
				break
			}
			if w.chance(75) {
				id = r.mutate(id, "root")
			} else if w.chance(20) {
				id = pick(w, r.all["root"])
			}
			if !sr.op("root", id, "", "", false) {
				return sr.sc
			}
		}
	}
	for i := 0; i < n; i++ {
		op := "root"
		if w.chance(12) {
			op = pick(w, []string{"root", "timestamp", "snapshot", "targets"})
		} else {
			switch {
			case stage == 0 && w.chance(55):
				v := w.doc(sr.tm().Root).Ver + 1
				if id, ok := r.files[fmt.Sprintf("%d.root", v)]; ok && !w.chance(rate) {
					if !sr.op("root", id, "", "", false) {
						return sr.sc
					}
					continue
				}
				op = "root"
			case stage >= 1 && w.chance(6):
				v := w.doc(sr.tm().Root).Ver + 1
				if id, ok := r.files[fmt.Sprintf("%d.root", v)]; ok {
					if !sr.op("root", id, "", "", false) {
						return sr.sc
					}
					continue
				}
				op = "root"
			case stage <= 1:
				stage = 1
				op = "timestamp"
				if w.chance(45) {
					stage = 2
				}
			case stage == 2:
				op = "snapshot"
				if w.chance(45) {
					stage = 3
				}
			default:
				op = "targets"
			}
		}
		role, parent := "", ""
		id := 0
		trusted := false
		switch op {
		case "targets":
			role, parent = "targets", "root"
			if w.chance(60) {
				role = pick(w, r.order)
				if role != "targets" {
					parent = "targets"
					ps := []string{}
					for _, nm := range r.order {
						nd := r.nodes[nm]
						for _, dr := range nd.droles {
							if dr.Name == role {
								ps = append(ps, nm)
							}
						}
					}
					if len(ps) > 0 {
						parent = pick(w, ps)
					}
				}
				for b, a := range r.twins {
					if w.chance(30) {
						role = a
						for _, nm := range r.order {
							for _, dr := range r.nodes[nm].droles {
								if dr.Name == a || dr.Name == b && w.chance(50) {
									parent = nm
								}
							}
						}
					}
					if role == b && w.chance(30) {
						role = a
					} else if role == a && w.chance(30) {
						role = b
					}
				}
				if w.chance(10) {
					parent = pick(w, append([]string{"root", "nobody", role}, r.order...))
				}
				if w.chance(8) {
					role = pick(w, []string{"nobody", "root", "snapshot", "timestamp"})
				}
			}
			if _, ok := r.all[role]; ok && !w.chance(5) {
				id = choose(role)
			} else {
				id = choose("targets")
			}
		default:
			id = choose(op)
			trusted = op == "snapshot" && w.chance(40)
		}
		if !sr.op(op, id, role, parent, trusted) {
			return sr.sc
		}
	}
	return sr.sc
}
