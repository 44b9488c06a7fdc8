package main

import (
	"fmt"
	"os"
	"time"
)

const unrepeatable = "seen once, did not reproduce: the code under test decides something at random"

// minimise shrinks the violation. Every candidate runs in a fresh process and
// counts only if it fails with the same class.
func (b *batch) minimise(chunk int) *Replay {
	v := b.violation
	deadline := time.Now().Add(60 * time.Second)
	tries := 0
	try := func(ps []*Plan) *Result {
		tries++
		res, err := runPlans(&Replay{Property: v.Property, Plans: ps})
		if err != nil {
			fmt.Fprintln(os.Stderr, "sim: minimise:", err)
			return nil
		}
		if res.Class == v.Class {
			return res
		}
		return nil
	}
	plans := []*Plan{GenPlan(v.Property, v.Seed, v.Run)}
	res := try(plans)
	note := ""
	if res == nil { // it needs what the process did before
		plans = nil
		for i := b.chunkFrom; i <= v.Run; i++ {
			plans = append(plans, GenPlan(v.Property, v.Seed, i))
		}
		for k := 0; k < 5 && res == nil; k++ {
			res = try(plans)
		}
		if res != nil {
			note = "needs the preceding runs in the same process"
			for n := len(plans) / 2; n >= 1; n /= 2 {
				for i := 0; i+n < len(plans) && time.Now().Before(deadline); {
					q := append(append([]*Plan(nil), plans[:i]...), plans[i+n:]...)
					if r := try(q); r != nil {
						plans, res = q, r
					} else {
						i += n
					}
				}
			}
		}
	}
	if res == nil {
		for k := 0; k < 10 && res == nil; k++ {
			plans = []*Plan{GenPlan(v.Property, v.Seed, v.Run)}
			res = try(plans)
		}
		if res == nil {
			return &Replay{Property: v.Property, Seed: v.Seed, Run: v.Run, Class: v.Class, Detail: v.Detail, Plans: plans,
				Note: unrepeatable}
		}
		note = "the code under test decides something at random: the replay fails only sometimes"
	}
	last := func() *Plan { return plans[len(plans)-1] }
	for round := 0; round < 6; round++ {
		changed := false
		for _, s := range shrinks(last()) {
			if time.Now().After(deadline) || tries > 1500 {
				break
			}
			// a shrink is applied repeatedly while it helps
			for k := 0; k < 40 && time.Now().Before(deadline); k++ {
				q := last().clone()
				if !s(q) {
					break
				}
				cand := append(append([]*Plan(nil), plans[:len(plans)-1]...), q)
				r := try(cand)
				if r == nil {
					break
				}
				plans, res, changed = cand, r, true
			}
		}
		if !changed {
			break
		}
	}
	return &Replay{Property: v.Property, Seed: v.Seed, Run: v.Run, Class: res.Class, Detail: res.Detail, Note: note, Plans: plans, Log: res.Log}
}

// shrinks lists simplifications; each changes the plan in place and tells
// whether it changed anything. They must not make a failing delivery legal or
// a valid stream damaged, or the plan would be judged by the wrong rule.
func shrinks(p *Plan) (out []func(*Plan) bool) {
	add := func(f func(*Plan) bool) { out = append(out, f) }
	// schedule: cut in halves, quarters, ..., single entries
	for n := len(p.Sched); n >= 1; n /= 2 {
		for i := 0; i < len(p.Sched); i += n {
			if n == 1 && len(p.Sched) > 60 {
				break
			}
			add(func(q *Plan) bool {
				if i+n > len(q.Sched) {
					return false
				}
				q.Sched = append(q.Sched[:i], q.Sched[i+n:]...)
				return true
			})
		}
	}
	for t := range p.Tasks {
		for n := len(p.Tasks[t]); n >= 1; n /= 2 {
			for i := 0; i < len(p.Tasks[t]); i += n {
				add(func(q *Plan) bool {
					if i+n > len(q.Tasks[t]) {
						return false
					}
					q.Tasks[t] = append(q.Tasks[t][:i:i], q.Tasks[t][i+n:]...)
					return true
				})
			}
		}
	}
	for t := range p.Tasks {
		for k := range p.Tasks[t] {
			d := func(f func(*Delivery) bool) {
				add(func(q *Plan) bool {
					if k >= len(q.Tasks[t]) || q.Tasks[t][k].D == nil {
						return false
					}
					return f(q.Tasks[t][k].D)
				})
			}
			zero := func(get func(*Delivery) *int) {
				d(func(x *Delivery) bool {
					if v := get(x); *v != 0 {
						*v = 0
						return true
					}
					return false
				})
			}
			flag := func(get func(*Delivery) *bool) {
				d(func(x *Delivery) bool {
					if v := get(x); *v {
						*v = false
						return true
					}
					return false
				})
			}
			zero(func(x *Delivery) *int { return &x.Tail })
			zero(func(x *Delivery) *int { return &x.Every })
			zero(func(x *Delivery) *int { return &x.Wrap })
			zero(func(x *Delivery) *int { return &x.Slow })
			flag(func(x *Delivery) *bool { return &x.With })
			flag(func(x *Delivery) *bool { return &x.Scrib })
			flag(func(x *Delivery) *bool { return &x.Recover })
			d(func(x *Delivery) bool {
				if len(x.Cuts) > 0 {
					x.Cuts = nil
					return true
				}
				return false
			})
			if p.Tasks[t][k].D != nil {
				for i := range p.Tasks[t][k].D.Cuts {
					d(func(x *Delivery) bool {
						if i >= len(x.Cuts) {
							return false
						}
						x.Cuts = append(x.Cuts[:i:i], x.Cuts[i+1:]...)
						return true
					})
				}
			}
			d(func(x *Delivery) bool {
				if x.FailAt > 0 {
					x.FailAt /= 2
					return true
				}
				return false
			})
		}
	}
	shrinkRuns(p, add)
	add(func(q *Plan) bool { c := q.TZ != 0; q.TZ = 0; return c })
	for i, in := range p.Inputs {
		for k := range in.Muts {
			add(func(q *Plan) bool {
				if k >= len(q.Inputs[i].Muts) || len(q.Inputs[i].Muts) == 1 {
					return false
				}
				q.Inputs[i].Muts = append(q.Inputs[i].Muts[:k:k], q.Inputs[i].Muts[k+1:]...)
				return true
			})
		}
		if in.Comp != nil {
			shrinkComp(add, func(q *Plan) *Comp { return q.Inputs[i].Comp })
		}
		if in.Arch != nil {
			a := func(f func(*Archive) bool) { add(func(q *Plan) bool { return f(q.Inputs[i].Arch) }) }
			for k := range in.Arch.Members {
				a(func(x *Archive) bool {
					if k >= len(x.Members) || x.CutMem >= 0 {
						return false
					}
					x.Members = append(x.Members[:k:k], x.Members[k+1:]...)
					return true
				})
			}
			a(func(x *Archive) bool { c := x.Pad != 0; x.Pad = 0; return c })
			a(func(x *Archive) bool { c := x.Trail != 0; x.Trail = 0; return c })
			a(func(x *Archive) bool { c := x.Bz.Streams != nil; x.Bz.Streams = nil; return c })
			a(func(x *Archive) bool { c := x.Bz.Block != 0; x.Bz.Block = 0; return c })
			a(func(x *Archive) bool { c := x.Format != 0; x.Format = 0; return c })
			a(func(x *Archive) bool { c := x.Names != 0; x.Names = 0; return c })
			for k := range in.Arch.Members {
				if k < 3 {
					shrinkComp(add, func(q *Plan) *Comp {
						if k < len(q.Inputs[i].Arch.Members) {
							return q.Inputs[i].Arch.Members[k]
						}
						return nil
					})
				}
			}
		}
	}
	return
}

func shrinkComp(add func(func(*Plan) bool), get func(*Plan) *Comp) {
	c := func(f func(*Comp) bool) {
		add(func(q *Plan) bool {
			x := get(q)
			return x != nil && f(x)
		})
	}
	c(func(x *Comp) bool {
		if x.Local || x.Dy <= 1 || multipleOfGrid(x.Dx, x.Dy/2) {
			return false
		}
		x.Dy /= 2
		return true
	})
	c(func(x *Comp) bool {
		if x.Local || x.Dx <= 1 || multipleOfGrid(x.Dx/2, x.Dy) {
			return false
		}
		x.Dx /= 2
		return true
	})
	c(func(x *Comp) bool {
		if x.Bad == nil || x.Bad.V == "?" && x.Bad.N == 0 {
			return false
		}
		b := *x.Bad
		b.V, b.N = "?", 0
		x.Bad = &b
		return true
	})
	c(func(x *Comp) bool { ok := x.VV != nil; x.VV = nil; return ok })
	c(func(x *Comp) bool { ok := x.INT != nil; x.INT = nil; return ok })
	c(func(x *Comp) bool { ok := x.VS != nil; x.VS = nil; return ok })
	c(func(x *Comp) bool { ok := x.Prec != nil; x.Prec = nil; return ok })
	c(func(x *Comp) bool { ok := x.MSlen != -1; x.MSlen = -1; return ok })
	c(func(x *Comp) bool { ok := x.Style != 0; x.Style = 0; return ok })
	c(func(x *Comp) bool { ok := x.Fill != 2; x.Fill = 2; return ok })
	c(func(x *Comp) bool {
		if len(x.Level) <= 1 {
			return false
		}
		x.Level = x.Level[:len(x.Level)/2]
		return true
	})
}
