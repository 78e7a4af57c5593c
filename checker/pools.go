package main

// C07: objects recycled through pools

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type poolCheck struct {
	p       *Program
	r       *Report
	mayPut  map[*ssa.Parameter]string
	inTrack map[string]bool
	depth   int
}

func structFields(t types.Type) []string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i).Name())
	}
	return out
}

// Values of fn that denote the same object as v
func aliasesOf(v ssa.Value) map[ssa.Value]bool {
	s := map[ssa.Value]bool{v: true}
	work := []ssa.Value{v}
	add := func(x ssa.Value) {
		if !s[x] {
			s[x] = true
			work = append(work, x)
		}
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		refs := x.Referrers()
		if refs == nil {
			continue
		}
		for _, in := range *refs {
			switch y := in.(type) {
			case *ssa.ChangeType:
				add(y)
			case *ssa.TypeAssert:
				if !y.CommaOk {
					add(y)
				}
			case *ssa.ChangeInterface:
				add(y)
			case *ssa.Store:
				// variable holding the object, assigned once
				if al, ok := y.Addr.(*ssa.Alloc); ok && y.Val == x {
					n := 0
					for _, r2 := range *al.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == al {
							n++
						}
					}
					if n == 1 {
						for _, r2 := range *al.Referrers() {
							if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL {
								add(u)
							}
						}
					}
				}
			}
		}
	}
	return s
}

type fieldSet map[string]bool

func (f fieldSet) clone() fieldSet {
	g := fieldSet{}
	for k := range f {
		g[k] = true
	}
	return g
}

// Parameters of the callbacks passed by a call that receive the object as
// opaque data, nil if unknown
func callbacksOf(c ssa.CallInstruction, t types.Type) []*ssa.Parameter {
	var out []*ssa.Parameter
	for _, a := range c.Common().Args {
		if ct, ok := a.(*ssa.ChangeType); ok {
			a = ct.X
		}
		var f *ssa.Function
		switch x := a.(type) {
		case *ssa.Function:
			f = x
		case *ssa.MakeClosure:
			f = x.Fn.(*ssa.Function)
		default:
			continue
		}
		for _, pa := range f.Params {
			for v := range aliasesOf(pa) {
				if types.Identical(v.Type(), t) {
					out = append(out, pa)
					break
				}
			}
		}
	}
	return out
}

// Follow an object forward from an instruction of fn with the given fields
// assigned. Reports stale reads and escapes of partially assigned objects.
// Returns the fields assigned on all the paths to the returns.
func (pc *poolCheck) track(fn *ssa.Function, v ssa.Value, from ssa.Instruction, assigned fieldSet, all []string, report func(in ssa.Instruction, msg string)) fieldSet {
	pc.depth++
	defer func() { pc.depth-- }()
	al := aliasesOf(v)
	missing := func(s fieldSet) string {
		var l []string
		for _, f := range all {
			if !s[f] {
				l = append(l, f)
			}
		}
		return strings.Join(l, ", ")
	}
	in := map[*ssa.BasicBlock]fieldSet{}
	var out fieldSet
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	var work []pt
	if from != nil {
		in[from.Block()] = assigned.clone()
		work = append(work, pt{from.Block(), instrIndex(from) + 1})
	} else {
		in[fn.Blocks[0]] = assigned.clone()
		work = append(work, pt{fn.Blocks[0], 0})
	}
	reported := map[ssa.Instruction]bool{}
	rep := func(i ssa.Instruction, m string) {
		if !reported[i] {
			reported[i] = true
			report(i, m)
		}
	}
	// two passes: first compute the fixpoint, then report
	for pass := 0; pass < 2; pass++ {
		w := append([]pt{}, work...)
		seenOnce := map[*ssa.BasicBlock]bool{}
		for len(w) > 0 {
			p := w[len(w)-1]
			w = w[:len(w)-1]
			s := in[p.b].clone()
			dead := false
			for i := p.i; i < len(p.b.Instrs); i++ {
				ins := p.b.Instrs[i]
				if vi, ok := v.(ssa.Instruction); ok && vi == ins && p.i == 0 {
					dead = true // another object from here on
					break
				}
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if !al[x.X] {
						continue
					}
					f := fieldName(x.X.Type(), x.Field)
					for _, r2 := range *x.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == x && st.Block() == p.b && instrIndex(st) > i {
							continue // handled at the store
						}
						if _, ok := r2.(*ssa.DebugRef); ok {
							continue
						}
						if !s[f] && pass == 1 {
							rep(r2, fmt.Sprintf("field %s is read before being assigned: it holds the value of a previous use", f))
						}
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && al[fa.X] {
						s[fieldName(fa.X.Type(), fa.Field)] = true
					} else if al[x.Addr] {
						// whole structure assigned
						for _, f := range all {
							s[f] = true
						}
					} else if al[x.Val] {
						if a, ok := x.Addr.(*ssa.Alloc); ok {
							_ = a // variable
						} else if m := missing(s); m != "" && pass == 1 {
							rep(x, "the object is stored while fields still hold values of a previous use: "+m)
						}
					}
				case ssa.CallInstruction:
					cs := pc.p.callees(x)
					cc := x.Common()
					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, cc.Args...)
					}
					for ai, a := range args {
						ok := al[a]
						if mi, isMi := a.(*ssa.MakeInterface); isMi && al[mi.X] {
							ok = true
						}
						if !ok {
							continue
						}
						if f := cc.StaticCallee(); f != nil && f.String() == "(*sync.Pool).Put" {
							continue // given back
						}
						if m := missing(s); m == "" {
							continue
						}
						if len(cs) == 1 && ai < len(cs[0].Params) && len(cs[0].Blocks) > 0 && pc.depth < 5 && types.Identical(cs[0].Params[ai].Type(), v.Type()) {
							o := pc.track(cs[0], cs[0].Params[ai], nil, s, all, func(i2 ssa.Instruction, m string) {
								if pass == 1 {
									rep(i2, m)
								}
							})
							for f := range o {
								s[f] = true
							}
							continue
						}
						// state of a callback: used by the callback only
						if cbs := callbacksOf(x, v.Type()); cbs != nil && pc.depth < 6 {
							for _, pa := range cbs {
								key := fmt.Sprint(pa.Parent(), missing(s))
								if pc.inTrack[key] {
									continue
								}
								pc.inTrack[key] = true
								pc.track(pa.Parent(), pa, nil, s, all, func(i2 ssa.Instruction, m string) {
									if pass == 1 {
										rep(i2, m)
									}
								})
								delete(pc.inTrack, key)
							}
							continue
						}
						if pass == 1 {
							rep(x, "the object is passed on while fields still hold values of a previous use: "+missing(s))
						}
					}
				case *ssa.MakeClosure:
					for _, bd := range x.Bindings {
						held := al[bd]
						if a, ok := bd.(*ssa.Alloc); ok {
							for _, r2 := range *a.Referrers() {
								if st, ok := r2.(*ssa.Store); ok && st.Addr == a && al[st.Val] {
									held = true
								}
							}
						}
						if held && missing(s) != "" && pass == 1 {
							rep(x, "the object is captured while fields still hold values of a previous use: "+missing(s))
						}
					}
				case *ssa.MakeInterface:
					if al[x.X] && missing(s) != "" && pass == 1 {
						// reported at the use, unless returned
						for _, r2 := range *x.Referrers() {
							if _, ok := r2.(*ssa.Return); ok {
								rep(x, "the object is returned while fields still hold values of a previous use: "+missing(s))
							}
						}
					}
				case *ssa.Return:
					ret := false
					for ri, rv := range x.Results {
						if al[rv] {
							ret = true
							if m := missing(s); m != "" && pass == 1 {
								// completed by the callers?
								sites := pc.p.callers[fn]
								if pc.p.addrTaken[fn] || len(sites) == 0 || pc.depth > 4 {
									rep(x, "the object is returned while fields still hold values of a previous use: "+m)
									continue
								}
								for _, c := range sites {
									cv, ok := c.(*ssa.Call)
									if !ok {
										continue
									}
									var target ssa.Value = cv
									if len(x.Results) > 1 {
										target = nil
										for _, r2 := range *cv.Referrers() {
											if e, ok := r2.(*ssa.Extract); ok && e.Index == ri {
												target = e
											}
										}
									}
									if target == nil {
										continue
									}
									pc.track(c.Parent(), target, target.(ssa.Instruction), s, all, rep)
								}
							}
						}
					}
					_ = ret
					if out == nil {
						out = s.clone()
					} else {
						for f := range out {
							if !s[f] {
								delete(out, f)
							}
						}
					}
				}
			}
			if dead {
				continue
			}
			for _, b := range p.b.Succs {
				old, ok := in[b]
				if !ok {
					in[b] = s.clone()
					w = append(w, pt{b, 0})
					seenOnce[b] = true
					continue
				}
				changed := false
				for f := range old {
					if !s[f] {
						delete(old, f)
						changed = true
					}
				}
				if changed || pass == 1 && !seenOnce[b] {
					seenOnce[b] = true
					w = append(w, pt{b, 0})
				}
			}
		}
	}
	if out == nil {
		out = fieldSet{}
	}
	return out
}

// Parameters that may be given back to a pool by a function
func (pc *poolCheck) computePuts() {
	pc.mayPut = map[*ssa.Parameter]string{}
	for changed := true; changed; {
		changed = false
		for _, fn := range pc.p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					pc.putsOf(in, func(v ssa.Value, how string) {
						for _, pa := range fn.Params {
							if aliasesOf(pa)[v] && pc.mayPut[pa] == "" {
								pc.mayPut[pa] = how
								changed = true
							}
						}
					})
				}
			}
		}
	}
}

// Objects given back by an instruction, directly or by its callees
func (pc *poolCheck) putsOf(in ssa.Instruction, f func(v ssa.Value, how string)) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	cc := c.Common()
	strip := func(v ssa.Value) ssa.Value {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			return mi.X
		}
		return v
	}
	if sc := cc.StaticCallee(); sc != nil && sc.String() == "(*sync.Pool).Put" {
		f(strip(cc.Args[1]), "given back to "+valName(cc.Args[0]))
		return
	}
	if _, ok := in.(*ssa.Call); !ok {
		return
	}
	// calls through interfaces and callbacks pass states as opaque data
	// to their own implementation only
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		return
	}
	for _, callee := range pc.p.callees(c) {
		for i, pa := range callee.Params {
			if how := pc.mayPut[pa]; how != "" {
				if a := callArg(c, callee, i); a != nil {
					f(strip(a), how+" by "+shortFn(callee))
				}
			}
		}
	}
}

// First use of an object reachable after an instruction that gives it back
func (pc *poolCheck) usedAfter(v ssa.Value, put ssa.Instruction) ssa.Instruction {
	// the whole alias class: go to the root first
	root := v
	for {
		switch x := root.(type) {
		case *ssa.TypeAssert:
			if !x.CommaOk {
				if _, ok := x.X.(*ssa.Parameter); ok {
					root = x.X
					continue
				}
			}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				var st *ssa.Store
				n := 0
				for _, r2 := range *a.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == a {
						st = s
						n++
					}
				}
				if n == 1 {
					root = st.Val
					continue
				}
			}
		}
		break
	}
	al := aliasesOf(root)
	var fv *ssa.FreeVar
	if u, ok := v.(*ssa.UnOp); ok {
		fv, _ = u.X.(*ssa.FreeVar)
	}
	isAlias := func(x ssa.Value) bool {
		if al[x] {
			return true
		}
		if mi, ok := x.(*ssa.MakeInterface); ok && al[mi.X] {
			return true
		}
		if u, ok := x.(*ssa.UnOp); ok && fv != nil && u.X == fv {
			return true
		}
		return false
	}
	def, _ := v.(ssa.Instruction)
	if rd, ok := root.(ssa.Instruction); ok {
		def = rd
	}
	if fv != nil {
		def = nil
	}
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{put.Block(), instrIndex(put) + 1}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for i := w.i; i < len(w.b.Instrs); i++ {
			in := w.b.Instrs[i]
			if in == def {
				stop = true
				break
			}
			switch x := in.(type) {
			case *ssa.DebugRef, *ssa.Phi, *ssa.MakeInterface:
				continue
			case *ssa.UnOp:
				if _, ok := x.X.(*ssa.Alloc); ok {
					continue // reading the variable, not the object
				}
				if _, ok := x.X.(*ssa.FreeVar); ok {
					continue
				}
			case *ssa.BinOp:
				continue // comparison of the pointer
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && isAlias(*op) {
					return in
				}
			}
		}
		if stop {
			continue
		}
		for _, s := range w.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return nil
}

// Does the program clean the objects of a pool before giving them back?
// (a method assigning all fields dominates every Put)
func (pc *poolCheck) cleanedBefore(pi *poolInfo) (bool, string) {
	if len(pi.puts) == 0 {
		return false, ""
	}
	all := structFields(pi.elem)
	name := ""
	for _, put := range pi.puts {
		v := put.Common().Args[1]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		ok := false
		for _, b := range put.Parent().Blocks {
			for _, in := range b.Instrs {
				c, isC := in.(*ssa.Call)
				if !isC || !(b == put.Block() && instrIndex(c) < instrIndex(put) || b != put.Block() && b.Dominates(put.Block())) {
					continue
				}
				f := c.Call.StaticCallee()
				if f == nil || !pc.p.inModule[f] {
					continue
				}
				for i, a := range c.Call.Args {
					if sameLoad(a, v) && i < len(f.Params) {
						as := pc.track(f, f.Params[i], nil, fieldSet{}, all, func(ssa.Instruction, string) {})
						if len(as) == len(all) {
							ok = true
							name = shortFn(f)
						}
					}
				}
			}
		}
		if !ok {
			return false, ""
		}
	}
	return true, name
}

// Same value, or two loads of the same field of the same object
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL {
		return sameAddr(ua.X, ub.X)
	}
	fa, ok1 := a.(*ssa.Field)
	fb, ok2 := b.(*ssa.Field)
	if ok1 && ok2 {
		return fa.Field == fb.Field && sameLoad(fa.X, fb.X)
	}
	return false
}
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return fa.Field == fb.Field && (sameAddr(fa.X, fb.X) || sameLoad(fa.X, fb.X))
	}
	return false
}

func init() {
	checks["C07"] = func(r *Report, thorough bool) {
		p := r.p
		r.rule("uniform", "a pool only ever holds objects of one type", 5)
		r.rule("reset", "every field of a recycled object is assigned between its retrieval and its first use, on all paths, unless objects are wholly reset before being given back", 7)
		r.rule("use-after-put", "an object given back to its pool, directly or by a callee, is not used again and not given back twice", 12)
		r.rule("context", "the state of a finished execution context is not used once the context has been removed", 1)
		pc := &poolCheck{p: p, r: r, inTrack: map[string]bool{}}
		pools := p.pools()
		var gs []*ssa.Global
		for g := range pools {
			gs = append(gs, g)
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
		for _, g := range gs {
			pi := pools[g]
			if pi.elem == nil {
				r.fail("uniform", nil, g.Name(), p.posOf(g.Pos()), "objects of different or unknown types in pool "+g.Name())
				continue
			}
			r.ok("uniform", nil, g.Name()+": "+shortT(pi.elem))
			all := structFields(pi.elem)
			clean, by := pc.cleanedBefore(pi)
			for _, get := range pi.gets {
				what := shortFn(get.Parent()) + " " + g.Name()
				if clean {
					r.ok("reset", get.Parent(), p.instrPos(get)+" "+what+": reset by "+by)
					continue
				}
				var v ssa.Value = get
				for _, ref := range *get.Referrers() {
					if ta, ok := ref.(*ssa.TypeAssert); ok {
						v = ta
						if ta.CommaOk {
							for _, r2 := range *ta.Referrers() {
								if e, ok := r2.(*ssa.Extract); ok && e.Index == 0 {
									v = e
								}
							}
						}
					}
				}
				bad := false
				pc.track(get.Parent(), v, v.(ssa.Instruction), fieldSet{}, all, func(in ssa.Instruction, m string) {
					bad = true
					r.fail("reset", in.Parent(), what, p.instrPos(in), shortT(pi.elem)+" from "+g.Name()+" in "+shortFn(in.Parent())+": "+m)
				})
				if !bad {
					r.ok("reset", get.Parent(), p.instrPos(get)+" "+what+": "+strings.Join(all, ", "))
				}
			}
		}
		pc.computePuts()
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					pc.putsOf(in, func(v ssa.Value, how string) {
						if _, isStruct := deref(v.Type()).Underlying().(*types.Struct); !isStruct {
							if _, isI := v.Type().Underlying().(*types.Interface); !isI {
								return
							}
						}
						what := shortFn(fn) + " " + how
						if u := pc.usedAfter(v, in); u != nil {
							r.fail("use-after-put", fn, what, p.instrPos(u), "object "+how+" at "+p.instrPos(in)+" is used again in "+shortFn(fn))
						} else {
							r.ok("use-after-put", fn, p.instrPos(in)+" "+what)
						}
					})
				}
			}
		}
		// Functions that release an object reached from their receiver
		for _, g := range gs {
			pi := pools[g]
			for _, put := range pi.puts {
				fn := put.Parent()
				v := put.Common().Args[1]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				holder := holderType(v)
				if holder == nil {
					continue
				}
				for _, c := range p.callers[fn] {
					what := shortFn(c.Parent()) + " after " + fn.Name()
					if u := staleContextUse(p, c, holder, v.Type()); u != nil {
						r.fail("context", c.Parent(), what, p.instrPos(u), "state of a removed context used in "+shortFn(c.Parent())+": it was given back to its pool by "+shortFn(fn)+" at "+p.instrPos(c))
					} else {
						r.ok("context", c.Parent(), p.instrPos(c)+" "+what)
					}
				}
			}
		}
	}
}

// Structure holding a released object as a field, when it isn't a local object
func holderType(v ssa.Value) types.Type {
	switch x := v.(type) {
	case *ssa.Field:
		return x.X.Type()
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return deref(fa.X.Type())
		}
	}
	return nil
}

// After call c, is the field of type t of a holder read before a new holder is obtained?
func staleContextUse(p *Program, c ssa.CallInstruction, holder, t types.Type) ssa.Instruction {
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{c.Block(), instrIndex(c) + 1}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for i := w.i; i < len(w.b.Instrs); i++ {
			in := w.b.Instrs[i]
			if call, ok := in.(*ssa.Call); ok && types.Identical(call.Type(), holder) {
				stop = true
				break
			}
			switch x := in.(type) {
			case *ssa.Field:
				if types.Identical(x.X.Type(), holder) && types.Identical(x.Type(), t) {
					return in
				}
			case *ssa.FieldAddr:
				if types.Identical(deref(x.X.Type()), holder) && types.Identical(deref(x.Type()), t) {
					return in
				}
			}
		}
		if stop {
			continue
		}
		for _, s := range w.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return nil
}
