package harness

import (
	"strings"
	"time"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

// Shrink looks for a smaller plan that still satisfies bad.
func Shrink(p *Plan, budget time.Duration, bad func(*Plan) bool) *Plan {
	end := time.Now().Add(budget)
	best := clonePlan(p)
	tried := 0
	try := func(edit func(q *Plan) bool) bool {
		if time.Now().After(end) {
			return false
		}
		q := clonePlan(best)
		if !edit(q) {
			return false
		}
		tried++
		if !safe(q, bad) {
			return false
		}
		best = q
		return true
	}
	for round := 0; round < 6; round++ {
		before := size(best)
		// whole processes, from the end and from the start
		for i := len(best.Runs) - 1; i >= 0; i-- {
			i := i
			try(func(q *Plan) bool {
				if i >= len(q.Runs) || len(q.Runs) == 1 {
					return false
				}
				q.Runs = append(q.Runs[:i], q.Runs[i+1:]...)
				return true
			})
		}
		try(func(q *Plan) bool { ok := len(q.Init) > 0; q.Init = nil; return ok })
		try(func(q *Plan) bool { ok := len(q.Pairs) > 0; q.Pairs = nil; return ok })
		for i := len(best.Pairs) - 1; i >= 0; i-- {
			i := i
			try(func(q *Plan) bool {
				if i >= len(q.Pairs) {
					return false
				}
				q.Pairs = append(q.Pairs[:i], q.Pairs[i+1:]...)
				return true
			})
		}
		for i := range best.Pairs {
			for _, second := range []bool{false, true} {
				for w := 64; w >= 1; w /= 2 {
					for k := 0; k < 800; k += w {
						i, k, w, second := i, k, w, second
						for try(func(q *Plan) bool {
							if i >= len(q.Pairs) {
								return false
							}
							t := &q.Pairs[i].A
							if second {
								t = &q.Pairs[i].B
							}
							ls := splitKeep(string(*t))
							if k >= len(ls) {
								return false
							}
							*t = Raw(strings.Join(append(ls[:k:k], ls[min(k+w, len(ls)):]...), ""))
							return true
						}) {
						}
					}
				}
			}
		}
		for i := len(best.Init) - 1; i >= 0; i-- {
			i := i
			try(func(q *Plan) bool {
				if i >= len(q.Init) {
					return false
				}
				q.Init = append(q.Init[:i], q.Init[i+1:]...)
				return true
			})
		}
		for i := range best.Init {
			i := i
			es := parseSnap([]byte(best.Init[i].Data)).Entries
			for k := len(es) - 1; k >= 0; k-- {
				k := k
				try(func(q *Plan) bool {
					es := parseSnap([]byte(q.Init[i].Data)).Entries
					if k >= len(es) {
						return false
					}
					s := ""
					for n, e := range es {
						if n != k {
							s += "\n[" + e.ID + "]\n" + e.Raw + "\n---\n"
						}
					}
					q.Init[i].Data = Raw(s)
					return true
				})
			}
		}
		for i := range best.Runs {
			i := i
			run := func(f func(r *RunSpec) bool) { try(func(q *Plan) bool { return i < len(q.Runs) && f(&q.Runs[i]) }) }
			run(func(r *RunSpec) bool { ok := len(r.Faults) > 0; r.Faults = nil; return ok })
			for k := len(best.Runs[i].Faults) - 1; k >= 0; k-- {
				run(func(r *RunSpec) bool {
					if k >= len(r.Faults) {
						return false
					}
					r.Faults = append(r.Faults[:k], r.Faults[k+1:]...)
					return true
				})
			}
			run(func(r *RunSpec) bool { ok := len(r.Clean) > 0; r.Clean = nil; return ok })
			run(func(r *RunSpec) bool {
				if len(r.Clean) < 2 {
					return false
				}
				r.Clean = r.Clean[:1]
				return true
			})
			run(func(r *RunSpec) bool {
				ok := false
				for k := range r.Clean {
					ok = ok || r.Clean[k].Sort
					r.Clean[k].Sort = false
				}
				return ok
			})
			for _, k := range envKeys(best.Runs[i].Env) {
				run(func(r *RunSpec) bool {
					if _, ok := r.Env[k]; !ok {
						return false
					}
					delete(r.Env, k)
					return true
				})
			}
			run(func(r *RunSpec) bool { ok := r.Trim; r.Trim = false; return ok })
			run(func(r *RunSpec) bool { ok := r.Start != ""; r.Start = ""; return ok })
			run(func(r *RunSpec) bool { ok := r.RunPat != ""; r.RunPat = ""; return ok })
			run(func(r *RunSpec) bool { ok := r.Count > 1; r.Count = 0; return ok })
			run(func(r *RunSpec) bool { ok := r.Count > 2; r.Count = 2; return ok })
			run(func(r *RunSpec) bool { ok := r.Chunk != 0; r.Chunk = 0; return ok })
			run(func(r *RunSpec) bool { ok := r.ShortRd; r.ShortRd = false; return ok })
			run(func(r *RunSpec) bool { ok := r.StepNS != 0; r.StepNS = 0; return ok })
			run(func(r *RunSpec) bool { ok := r.MapSeed != 0; r.MapSeed = 0; return ok })
			run(func(r *RunSpec) bool { ok := r.Sched.YieldGap != 0; r.Sched.YieldGap = 0; return ok })
			run(func(r *RunSpec) bool {
				ok := r.Sched.Strat != "run" || r.Sched.UsePicks
				r.Sched = simrt.Sched{Strat: "run", YieldGap: r.Sched.YieldGap}
				return ok
			})
			// tests and operations, everywhere in the tree
			for k := len(best.Runs[i].Tests) - 1; k >= 0; k-- {
				run(func(r *RunSpec) bool {
					if k >= len(r.Tests) {
						return false
					}
					r.Tests = append(r.Tests[:k], r.Tests[k+1:]...)
					return true
				})
			}
			for n := countOps(best.Runs[i].Tests) - 1; n >= 0; n-- {
				run(func(r *RunSpec) bool { return editOp(r.Tests, n, nil) })
			}
			for n := countOps(best.Runs[i].Tests) - 1; n >= 0; n-- {
				for _, f := range simplify {
					run(func(r *RunSpec) bool {
						ok := false
						editOp(r.Tests, n, func(o *Op) { ok = f(o) })
						return ok
					})
				}
			}
		}
		// the same call in all processes at once
		for n := 0; n < 40; n++ {
			try(func(q *Plan) bool {
				ok := false
				for i := range q.Runs {
					ok = editOp(q.Runs[i].Tests, n, nil) || ok
				}
				return ok
			})
		}
		for i := range best.Cfgs {
			for k := 0; k < 6; k++ {
				try(func(q *Plan) bool {
					c := &q.Cfgs[i]
					ok := false
					switch k {
					case 0:
						ok = c.Dir != nil
						c.Dir = nil
					case 1:
						ok = c.File != nil
						c.File = nil
					case 2:
						ok = c.Ext != nil
						c.Ext = nil
					case 3:
						ok = c.Update != nil
						c.Update = nil
					case 4:
						ok = c.JSON != nil
						c.JSON = nil
					case 5:
						ok = c.Fresh
						c.Fresh = false
					}
					return ok
				})
			}
		}
		try(func(q *Plan) bool { ok := q.Dir != 0; q.Dir = 0; return ok })
		if size(best) >= before || time.Now().After(end) {
			break
		}
	}
	return best
}

// ShrinkPicks replaces the seeded schedules of p by explicit choices and drops those that do not matter.
func ShrinkPicks(p *Plan, budget time.Duration, bad func(*Plan) bool) *Plan {
	end := time.Now().Add(budget)
	res := Execute(p)
	q := clonePlan(p)
	for i, r := range res.Runs {
		q.Runs[i].Sched.UsePicks = true
		q.Runs[i].Sched.Picks = r.Proc.Picks
	}
	if !safe(q, bad) {
		return p
	}
	best := q
	for i := range best.Runs {
		for cut := len(best.Runs[i].Sched.Picks); cut > 0 && time.Now().Before(end); cut /= 2 {
			for {
				n := len(best.Runs[i].Sched.Picks) - cut
				if n < 0 {
					break
				}
				q := clonePlan(best)
				q.Runs[i].Sched.Picks = q.Runs[i].Sched.Picks[:n]
				if !safe(q, bad) {
					break
				}
				best = q
			}
		}
		for k := len(best.Runs[i].Sched.Picks) - 1; k >= 0 && time.Now().Before(end); k-- {
			if best.Runs[i].Sched.Picks[k] == -1 {
				continue
			}
			q := clonePlan(best)
			q.Runs[i].Sched.Picks[k] = -1 // stay on the current task
			if safe(q, bad) {
				best = q
			}
		}
	}
	return best
}

func safe(p *Plan, bad func(*Plan) bool) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return bad(p)
}

func envKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func size(p *Plan) int {
	n := len(p.Runs)*10 + len(p.Init)*3
	for i := range p.Pairs {
		n += 2 + len(p.Pairs[i].A) + len(p.Pairs[i].B)
	}
	for i := range p.Init {
		n += len(p.Init[i].Data)
	}
	for i := range p.Runs {
		r := &p.Runs[i]
		n += len(r.Faults) + len(r.Clean) + len(r.Env) + r.Count + len(r.RunPat)
		eachOp(r.Tests, func(o *Op) {
			n += 3 + o.Cfg + len(o.Shape) + len(o.M) + len(o.Iters)
			for i := range o.Vals {
				n += 1 + len(o.Vals[i].S) + len(o.Vals[i].L)
			}
			if o.J != nil {
				n += len(o.J.Text)
				if o.J.Doc != nil {
					n += len(o.J.Doc.text(0, 0))
				}
			}
			if o.Y != nil {
				n += len(o.Y.Text)
			}
		})
	}
	return n
}

func countOps(ts []TestSpec) int {
	n := 0
	eachOp(ts, func(*Op) { n++ })
	return n
}

// editOp applies f to the nth operation, or removes it when f is nil.
func editOp(ts []TestSpec, n int, f func(o *Op)) bool {
	var in func(ops *[]Op) bool
	in = func(ops *[]Op) bool {
		for i := 0; i < len(*ops); i++ {
			if n == 0 {
				n = -1
				if f != nil {
					f(&(*ops)[i])
				} else {
					*ops = append((*ops)[:i], (*ops)[i+1:]...)
				}
				return true
			}
			n--
			o := &(*ops)[i]
			if o.Sub != nil && in(&o.Sub.Ops) {
				return true
			}
			if in(&o.Ops) {
				return true
			}
		}
		return false
	}
	for i := range ts {
		if in(&ts[i].Ops) {
			return true
		}
	}
	return false
}

var simplify = []func(o *Op) bool{
	func(o *Op) bool { ok := o.Shape != ""; o.Shape = ""; return ok },
	func(o *Op) bool { ok := o.Wrap != 0; o.Wrap = 0; return ok },
	func(o *Op) bool { ok := o.Cfg != 0; o.Cfg = 0; return ok },
	func(o *Op) bool { ok := len(o.Iters) > 0; o.Iters = nil; return ok },
	func(o *Op) bool { ok := len(o.M) > 0; o.M = nil; return ok },
	func(o *Op) bool {
		if len(o.M) < 2 {
			return false
		}
		o.M = o.M[1:]
		return true
	},
	func(o *Op) bool {
		if len(o.M) < 2 {
			return false
		}
		o.M = o.M[:len(o.M)-1]
		return true
	},
	func(o *Op) bool {
		if len(o.Vals) < 2 {
			return false
		}
		o.Vals = o.Vals[:1]
		return true
	},
	func(o *Op) bool {
		if len(o.Vals) != 1 || (o.Vals[0].K == "s" && o.Vals[0].S == "x") {
			return false
		}
		o.Vals[0] = Val{K: "s", S: "x"}
		return true
	},
	func(o *Op) bool { return halve(o, true) },
	func(o *Op) bool { return halve(o, false) },
	func(o *Op) bool {
		if o.J == nil || o.J.Doc == nil || len(o.J.Doc.L) == 0 {
			return false
		}
		d := o.J.Doc
		d.L = d.L[:len(d.L)-1]
		if d.K == "o" {
			d.Ks = d.Ks[:len(d.Ks)-1]
		}
		return true
	},
	func(o *Op) bool {
		if o.J == nil || o.J.Doc == nil || len(o.J.Doc.L) == 0 {
			return false
		}
		d := o.J.Doc
		d.L = d.L[1:]
		if d.K == "o" {
			d.Ks = d.Ks[1:]
		}
		return true
	},
	func(o *Op) bool {
		if o.J == nil || (o.J.Ws == 0 && o.J.Perm == 0) {
			return false
		}
		o.J.Ws, o.J.Perm = 0, 0
		return true
	},
}

func halve(o *Op, front bool) bool {
	if len(o.Vals) != 1 || o.Vals[0].K != "s" || len(o.Vals[0].S) < 2 {
		return false
	}
	s := o.Vals[0].S
	h := (len(s) + 1) / 2
	if len(s) < 24 {
		h = 1
	}
	if front {
		o.Vals[0].S = s[h:]
	} else {
		o.Vals[0].S = s[:len(s)-h]
	}
	return true
}
