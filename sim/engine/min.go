package engine

import (
	"time"

	"verifsim/sfnt"
)

// Minimise shrinks a violating plan while the same class of violation persists. test executes a candidate.
func Minimise(p *Plan, budget time.Duration, test func(*Plan) bool) (*Plan, int) {
	end := time.Now().Add(budget)
	best := p.Clone()
	tries := 0
	try := func(mod func(q *Plan) bool) bool {
		if time.Now().After(end) || tries > 3000 {
			return false
		}
		q := best.Clone()
		if !mod(q) {
			return false
		}
		tries++
		if test(q) {
			best = q
			return true
		}
		return false
	}
	lists := func(q *Plan) []*[]Op {
		out := []*[]Op{&q.Pre}
		for i := range q.Tasks {
			out = append(out, &q.Tasks[i])
		}
		for i := range q.Post {
			out = append(out, &q.Post[i])
		}
		return out
	}
	for round := 0; round < 4; round++ {
		changed := false
		do := func(mod func(q *Plan) bool) bool {
			ok := try(mod)
			changed = changed || ok
			return ok
		}
		// Phases.
		for i := len(best.Post) - 1; i >= 0; i-- {
			do(func(q *Plan) bool {
				q.Post = append(q.Post[:i:i], q.Post[i+1:]...)
				if i+1 < len(q.Crash) {
					q.Crash = append(q.Crash[:i+1:i+1], q.Crash[i+2:]...)
				}
				return true
			})
		}
		for i := len(best.Crash) - 1; i >= 0; i-- {
			do(func(q *Plan) bool { q.Crash = q.Crash[:i]; return true })
			do(func(q *Plan) bool {
				if i >= len(q.Crash) || !q.Crash[i].Power {
					return false
				}
				q.Crash[i].Power = false
				return true
			})
		}
		// Tasks.
		for t := len(best.Tasks) - 1; t >= 0; t-- {
			do(func(q *Plan) bool {
				if t >= len(q.Tasks) {
					return false
				}
				q.Tasks = append(q.Tasks[:t:t], q.Tasks[t+1:]...)
				ps := q.Preempts[:0:0]
				for _, p := range q.Preempts {
					if p.Task == t || p.To == t {
						continue
					}
					if p.Task > t {
						p.Task--
					}
					if p.To > t {
						p.To--
					}
					ps = append(ps, p)
				}
				q.Preempts = ps
				return true
			})
		}
		// Preemptions.
		do(func(q *Plan) bool { ok := q.MapPark; q.MapPark = false; return ok })
		for i := len(best.Preempts) - 1; i >= 0; i-- {
			do(func(q *Plan) bool {
				if i >= len(q.Preempts) {
					return false
				}
				q.Preempts = append(q.Preempts[:i:i], q.Preempts[i+1:]...)
				return true
			})
		}
		// Operations: halves, then single ones.
		for l := range lists(best) {
			for size := 8; size >= 1; size /= 2 {
				for i := len(*lists(best)[l]) - size; i >= 0; i-- {
					do(func(q *Plan) bool {
						ls := lists(q)
						if l >= len(ls) || i+size > len(*ls[l]) {
							return false
						}
						ops := *ls[l]
						*ls[l] = append(ops[:i:i], ops[i+size:]...)
						t := l - 1
						if t >= 0 && t < len(q.Tasks) {
							ps := q.Preempts[:0:0]
							for _, p := range q.Preempts {
								if p.Task == t {
									if p.Op >= i && p.Op < i+size {
										continue
									}
									if p.Op >= i+size {
										p.Op -= size
									}
								}
								ps = append(ps, p)
							}
							q.Preempts = ps
						}
						return true
					})
				}
			}
		}
		// Environment.
		do(func(q *Plan) bool { ok := q.MapSeed != 0; q.MapSeed = 0; return ok })
		do(func(q *Plan) bool { ok := q.Log != 0; q.Log = 0; return ok })
		do(func(q *Plan) bool { ok := q.Chunk != 0; q.Chunk = 0; return ok })
		for i := len(best.Files) - 1; i >= 0; i-- {
			do(func(q *Plan) bool {
				if i >= len(q.Files) {
					return false
				}
				q.Files = append(q.Files[:i:i], q.Files[i+1:]...)
				return true
			})
		}
		// Arguments and faults.
		for l := range lists(best) {
			for i := range *lists(best)[l] {
				op := func(q *Plan) *Op {
					ls := lists(q)
					if l >= len(ls) || i >= len(*ls[l]) {
						return nil
					}
					return &(*ls[l])[i]
				}
				doOp := func(mod func(o *Op) bool) {
					do(func(q *Plan) bool {
						o := op(q)
						return o != nil && mod(o)
					})
				}
				doOp(func(o *Op) bool { ok := o.Src != nil; o.Src = nil; return ok })
				doOp(func(o *Op) bool {
					ok := o.Src != nil && o.Src.Policy != ""
					if ok {
						o.Src.Policy = ""
					}
					return ok
				})
				doOp(func(o *Op) bool { ok := o.K == "load" && o.Via == "stream"; o.Via = "mem"; return ok })
				doOp(func(o *Op) bool { ok := o.Sink != nil; o.Sink = nil; return ok })
				doOp(func(o *Op) bool { ok := len(o.DF) > 0; o.DF = nil; return ok })
				doOp(func(o *Op) bool { ok := len(o.DF) > 1; o.DF = o.DF[:min(1, len(o.DF))]; return ok })
				for k := 7; k >= 0; k-- {
					doOp(func(o *Op) bool {
						if k >= len(o.G) || len(o.G) > 40 {
							o.G = o.G[:min(len(o.G), len(o.G)/2)]
							return k == 7 && len(o.G) > 0
						}
						o.G = append(o.G[:k:k], o.G[k+1:]...)
						return true
					})
				}
				for k := 7; k >= 0; k-- {
					doOp(func(o *Op) bool {
						if k >= len(o.S) {
							return false
						}
						o.S = append(o.S[:k:k], o.S[k+1:]...)
						return true
					})
				}
				doOp(func(o *Op) bool { ok := len(o.T) > 1; o.T = o.T[:min(1, len(o.T))]; return ok })
				for m := 1; m < qAll; m <<= 1 {
					doOp(func(o *Op) bool {
						if o.K != "q" || int(o.Q>>56) == m {
							return false
						}
						o.Q = o.Q&(1<<56-1) | uint64(m)<<56
						return true
					})
				}
			}
		}
		// Fonts.
		for f := range best.Fonts {
			for i := len(best.Fonts[f].Muts) - 1; i >= 0; i-- {
				do(func(q *Plan) bool {
					m := q.Fonts[f].Muts
					if i >= len(m) {
						return false
					}
					q.Fonts[f].Muts = append(m[:i:i], m[i+1:]...)
					return true
				})
			}
			for _, mod := range specMods {
				for k := 0; k < 6 && do(func(q *Plan) bool {
					s := &q.Fonts[f].Spec
					return q.Fonts[f].Raw == nil && s.Real == "" && mod(s)
				}); k++ {
				}
			}
			for i := len(best.Fonts[f].Spec.Cmaps) - 1; i >= 0; i-- {
				do(func(q *Plan) bool {
					c := q.Fonts[f].Spec.Cmaps
					if i >= len(c) || i+1 < len(c) && c[i+1].Share {
						return false
					}
					q.Fonts[f].Spec.Cmaps = append(c[:i:i], c[i+1:]...)
					return true
				})
				do(func(q *Plan) bool {
					c := q.Fonts[f].Spec.Cmaps
					if i >= len(c) || c[i].N < 2 {
						return false
					}
					c[i].N /= 2
					return true
				})
			}
		}
		if !changed {
			break
		}
	}
	return best, tries
}

var specMods = []func(s *sfnt.Spec) bool{
	func(s *sfnt.Spec) bool { ok := s.Name != nil; s.Name = nil; return ok },
	func(s *sfnt.Spec) bool {
		ok := s.Name != nil && s.Name.N > 1
		if ok {
			s.Name.N /= 2
		}
		return ok
	},
	func(s *sfnt.Spec) bool { ok := len(s.Cmaps) > 0; s.Cmaps = nil; return ok },
	func(s *sfnt.Spec) bool { ok := s.OS2 >= 0; s.OS2 = -1; return ok },
	func(s *sfnt.Spec) bool { ok := s.Post != 0; s.Post = 0; return ok },
	func(s *sfnt.Spec) bool { ok := s.Prep >= 0; s.Prep = -1; return ok },
	func(s *sfnt.Spec) bool { ok := s.Cvt >= 0; s.Cvt = -1; return ok },
	func(s *sfnt.Spec) bool { ok := s.Fpgm >= 0; s.Fpgm = -1; return ok },
	func(s *sfnt.Spec) bool { ok := s.Extra != 0; s.Extra = 0; return ok },
	func(s *sfnt.Spec) bool { ok := s.Order != 0; s.Order = 0; return ok },
	func(s *sfnt.Spec) bool { ok := s.Gaps != 0; s.Gaps, s.Dirty = 0, false; return ok },
	func(s *sfnt.Spec) bool { ok := s.Trail != 0; s.Trail = 0; return ok },
	func(s *sfnt.Spec) bool { ok := s.Base != 0; s.Base = 0; return ok },
	func(s *sfnt.Spec) bool { ok := s.Comp != 0; s.Comp = 0; return ok },
	func(s *sfnt.Spec) bool { ok := s.Empty != 0; s.Empty = 0; return ok },
	func(s *sfnt.Spec) bool { ok := s.Cycle; s.Cycle = false; return ok },
	func(s *sfnt.Spec) bool { ok := s.Big != 0; s.Big = 0; return ok },
	func(s *sfnt.Spec) bool { ok := s.Unsort; s.Unsort = false; return ok },
	func(s *sfnt.Spec) bool { ok := s.True; s.True = false; return ok },
	func(s *sfnt.Spec) bool { ok := s.Tail != 0; s.Tail = 0; return ok },
	func(s *sfnt.Spec) bool { ok := s.N > 1; s.N /= 2; return ok },
	func(s *sfnt.Spec) bool { ok := s.N > 1; s.N--; return ok },
	func(s *sfnt.Spec) bool { ok := s.NHM != 1; s.NHM = 1; return ok },
	func(s *sfnt.Spec) bool { ok := s.Max > 16; s.Max = 16; return ok },
	func(s *sfnt.Spec) bool { ok := s.Long; s.Long = false; return ok },
}
