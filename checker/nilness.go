package main

// C09: absent things (nil pointers, interfaces, functions and maps) are never
// used as if they were there

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What may be nil, without regard to control flow: a fixpoint over values,
// fields, results and parameters. What remains is decided by the engine.
type nilness struct {
	p        *Program
	null     map[any]string // value, field key or result key -> why
	uses     map[any][]any  // dependents of a node
	bind     map[*ssa.FreeVar][]ssa.Value
	compared map[string]bool         // fields compared with nil
	needs    map[*ssa.Parameter]bool // parameters expected to be there
	optional map[string]bool         // types of optional parameters
	wanted   map[string]bool         // fields holding values, commands or programs
}

type resKey struct {
	fn *ssa.Function
	i  int
}

func nilable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
		return true
	case *types.Interface:
		_ = u
		return true
	}
	return false
}

func (n *nilness) mark(x any, why string, work *[]any) {
	if _, ok := n.null[x]; ok {
		return
	}
	n.null[x] = why
	*work = append(*work, x)
}

func (p *Program) nilness() *nilness {
	n := &nilness{p: p, null: map[any]string{}, uses: map[any][]any{}, compared: map[string]bool{}, wanted: map[string]bool{}, needs: map[*ssa.Parameter]bool{}, optional: map[string]bool{}}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if expected(s.Val.Type()) {
							n.wanted[modKeyField(deref(fa.X.Type()), fa.Field)] = true
						}
					}
				}
				x, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if k, ok := pr[1].(*ssa.Const); !ok || k.Value != nil {
						continue
					}
					switch l := pr[0].(type) {
					case *ssa.UnOp:
						if fa, ok := l.X.(*ssa.FieldAddr); ok {
							n.compared[modKeyField(deref(fa.X.Type()), fa.Field)] = true
						}
					case *ssa.Field:
						n.compared[modKeyField(l.X.Type(), l.Field)] = true
					}
				}
			}
		}
	}
	n.findNeeds()
	var work []any
	dep := func(from, to any) { n.uses[from] = append(n.uses[from], to) }
	val := func(v ssa.Value) any { return v }
	fieldOf := func(t types.Type, i int) (string, bool) {
		st, ok := deref(t).Underlying().(*types.Struct)
		if !ok || !nilable(st.Field(i).Type()) {
			return "", false
		}
		return modKeyField(deref(t), i), true
	}
	// zero values of structures: all their nilable fields
	var zero func(t types.Type, why string)
	zero = func(t types.Type, why string) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if nilable(u.Field(i).Type()) {
					if n.compared[modKeyField(t, i)] {
						n.mark(modKeyField(t, i), why, &work)
					}
				} else {
					zero(u.Field(i).Type(), why)
				}
			}
		case *types.Array:
			zero(u.Elem(), why)
		}
	}
	for _, fn := range p.funcs {
		if strings.Contains(fn.String(), "benchmarks") {
			continue
		}
		for _, pa := range fn.Params {
			if n.optional[pa.Type().String()] && fn.Parent() == nil {
				n.mark(val(pa), "optional", &work)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					_ = v
				}
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value == nil {
						if nilable(k.Type()) {
							n.mark(val(k), "nil", &work)
						} else {
							zero(k.Type(), "zero value at "+p.instrPos(in))
						}
					}
				}
				switch x := in.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						dep(e, x)
					}
				case *ssa.ChangeInterface:
					dep(x.X, x)
				case *ssa.ChangeType:
					dep(x.X, x)
				case *ssa.Lookup:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						et := x.X.Type().Underlying().(*types.Map).Elem()
						if !x.CommaOk && nilable(et) {
							if isChecked(x) {
								break
							}
							n.mark(x, "missing entry", &work)
						} else {
							zero(et, "missing entry at "+p.instrPos(x))
						}
					}
				case *ssa.TypeAssert:
				case *ssa.Extract:
					if !nilable(x.Type()) {
						break
					}
					switch t := x.Tuple.(type) {
					case *ssa.Lookup:
						n.mark(x, "missing entry", &work)
					case *ssa.TypeAssert:
						n.mark(x, "other type", &work)
					case *ssa.Call:
						n.callRes(t, x.Index, x, dep, &work)
					case *ssa.Next:
					}
				case *ssa.Call:
					if nilable(x.Type()) && !isMember(p, x) {
						n.callRes(x, 0, x, dep, &work)
					}
				case *ssa.Field:
					if k, ok := fieldOf(x.X.Type(), x.Field); ok {
						if scalarPointer(x.Type()) {
							n.mark(x, "optional field", &work)
						}
						dep(k, x)
					}
				case *ssa.UnOp:
					if x.Op != token.MUL || !nilable(x.Type()) {
						break
					}
					switch a := x.X.(type) {
					case *ssa.FieldAddr:
						if k, ok := fieldOf(a.X.Type(), a.Field); ok {
							// Unless set by the constructor of the enclosing structure
							if _, ok := a.X.(*ssa.FieldAddr); !ok && scalarPointer(x.Type()) {
								n.mark(x, "optional field", &work)
							}
							dep(k, x)
						}
					case *ssa.IndexAddr:
						if k := n.elemField(a); k != "" {
							dep(k, x)
						}
					default:
						dep("cell", x)
						dep(x.X, x)
					}
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						if k, ok := fieldOf(a.X.Type(), a.Field); ok && !n.always(k) {
							dep(x.Val, k)
						}
					case *ssa.IndexAddr:
					default:
						if nilable(x.Val.Type()) {
							dep(x.Val, x.Addr)
						}
					}
				case *ssa.MakeClosure:
					f := x.Fn.(*ssa.Function)
					for i, bd := range x.Bindings {
						dep(bd, f.FreeVars[i])
					}
				case *ssa.Return:
					for i, r := range x.Results {
						if nilable(r.Type()) {
							dep(r, resKey{fn, i})
						}
					}
				case *ssa.BinOp:
					// elements of a field compared with nil
					for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						if k, ok := pr[1].(*ssa.Const); ok && k.Value == nil {
							if l, ok := pr[0].(*ssa.UnOp); ok {
								if ia, ok := l.X.(*ssa.IndexAddr); ok {
									if k := n.elemField(ia); k != "" {
										n.mark(k, "compared with nil", &work)
									}
								}
							}
						}
					}
				case *ssa.Alloc:
					t := deref(x.Type())
					if nilable(t) {
						if recovered(x) {
							break
						}
						for _, ref := range *x.Referrers() {
							switch y := ref.(type) {
							case *ssa.Store, *ssa.DebugRef:
							case *ssa.UnOp:
								if !assigned(x, y) {
									n.mark(y, "declared without a value", &work)
								}
							case *ssa.MakeClosure:
								if recursive(x, y) {
									break
								}
								for i, bd := range y.Bindings {
									if bd == x && !assigned(x, y) {
										n.mark(y.Fn.(*ssa.Function).FreeVars[i], "declared without a value", &work)
									}
								}
							default:
								if !assigned(x, y) {
									n.mark(x, "declared without a value", &work)
								}
							}
						}
						break
					}
					n.allocZero(x, &work)
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, f := range p.callees(c) {
						if !p.inModule[f] {
							continue
						}
						for i, pa := range f.Params {
							if !nilable(pa.Type()) || i == 0 && c.Common().IsInvoke() {
								continue
							}
							if a := callArg(c, f, i); a != nil && !n.needs[pa] {
								dep(a, pa)
							}
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, y := range n.uses[x] {
			n.mark(y, n.null[x], &work)
		}
	}
	return n
}

// Is a field expected to always have a value? It holds a value, a command or a
// program, and the program never looks whether it has one.
func (n *nilness) always(k string) bool {
	return n.wanted[k] && !n.compared[k]
}

func expected(t types.Type) bool {
	if nt, ok := deref(t).(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Name() == "core" {
		switch nt.Obj().Name() {
		case "Value", "Command", "CommandValue", "Program":
			return true
		}
	}
	if nt, ok := deref(t).(*types.Named); ok && strings.HasSuffix(nt.Obj().Name(), "Scope") {
		_, ok := t.(*types.Pointer)
		return ok
	}
	return false
}

// Functions that look up an entry of a map kept in a field of their receiver,
// or tell whether there is one
func mapAccessor(f *ssa.Function) (field string, key int, ok bool) {
	if len(f.Blocks) != 1 || len(f.Params) == 0 {
		return
	}
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.Lookup, *ssa.Extract, *ssa.DebugRef:
		case *ssa.Return:
			if len(x.Results) != 1 {
				return
			}
			r := x.Results[0]
			if e, isE := r.(*ssa.Extract); isE && e.Index == 1 {
				r = e.Tuple
			}
			l, isL := r.(*ssa.Lookup)
			if !isL || l.CommaOk == (r == x.Results[0]) {
				return
			}
			u, isU := l.X.(*ssa.UnOp)
			if !isU {
				return
			}
			fa, isF := u.X.(*ssa.FieldAddr)
			if !isF || fa.X != f.Params[0] {
				return
			}
			for i, pa := range f.Params {
				if l.Index == pa {
					return modKeyField(deref(fa.X.Type()), fa.Field), i, true
				}
			}
			return
		default:
			return
		}
	}
	return
}

// Is this the retrieval of an entry that has just been found to exist?
func isMember(p *Program, c *ssa.Call) bool {
	f := c.Common().StaticCallee()
	if f == nil || !p.inModule[f] {
		return false
	}
	field, key, ok := mapAccessor(f)
	if !ok || types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
		return false
	}
	b := c.Block()
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		i, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || id.Succs[0] != d {
			continue
		}
		t, ok := i.Cond.(*ssa.Call)
		if !ok {
			continue
		}
		g := t.Common().StaticCallee()
		if g == nil || !p.inModule[g] {
			continue
		}
		f2, k2, ok := mapAccessor(g)
		if ok && f2 == field && t.Common().Args[0] == c.Common().Args[0] && t.Common().Args[k2] == c.Common().Args[key] {
			return true
		}
	}
	return false
}

// Is this the lookup of an entry that has just been looked up and found?
func isChecked(l *ssa.Lookup) bool {
	for _, ref := range *l.X.Referrers() {
		if _, ok := ref.(*ssa.MapUpdate); ok {
			return false
		}
	}
	for d := l.Block(); d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		i, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		b, ok := i.Cond.(*ssa.BinOp)
		if !ok || (b.Op == token.NEQ) != (id.Succs[0] == d) || b.Op != token.NEQ && b.Op != token.EQL {
			continue
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			k, ok := pr[1].(*ssa.Const)
			t, isL := pr[0].(*ssa.Lookup)
			if ok && k.Value == nil && isL && t.X == l.X && t.Index == l.Index {
				return true
			}
		}
	}
	return false
}

// Is this a result left without a value by a recovered panic, along with an
// error?
func recovered(a *ssa.Alloc) bool {
	fn := a.Parent()
	if fn.Recover == nil {
		return false
	}
	res, load := false, false
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		res = res || isCoreResult(fn.Signature.Results().At(i).Type())
	}
	for _, in := range fn.Recover.Instrs {
		if u, ok := in.(*ssa.UnOp); ok && u.X == a {
			load = true
		}
	}
	return res && load
}

// Elements of a collection kept in a field
func (n *nilness) elemField(a *ssa.IndexAddr) string {
	if pa, ok := a.X.(*ssa.Parameter); ok {
		// Collection passed by the callers
		fn := pa.Parent()
		for _, c := range n.p.callers[fn] {
			for i, q := range fn.Params {
				if q == pa {
					if l, ok := callArg(c, fn, i).(*ssa.UnOp); ok {
						if fa, ok := l.X.(*ssa.FieldAddr); ok {
							return "E:" + modKeyField(deref(fa.X.Type()), fa.Field)
						}
					}
				}
			}
		}
	}
	if l, ok := a.X.(*ssa.UnOp); ok {
		if fa, ok := l.X.(*ssa.FieldAddr); ok {
			return "E:" + modKeyField(deref(fa.X.Type()), fa.Field)
		}
	}
	return ""
}

// Why an element of a collection may be nil
func (n *nilness) elem(a *ssa.IndexAddr) string {
	if k := n.elemField(a); k != "" {
		return n.null[k]
	}
	return ""
}

// Is a cell given a value on all paths from its declaration to a use? Closures
// that assign it don't count.
func assigned(a *ssa.Alloc, use ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if in == use {
				return false
			}
			if s, ok := in.(*ssa.Store); ok && s.Addr == a {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if !walk(s, 0) {
					return false
				}
			}
		}
		return true
	}
	return walk(a.Block(), instrIndex(a)+1)
}

// Is this closure only meant as the value of a cell it captures?
func recursive(a *ssa.Alloc, mc *ssa.MakeClosure) bool {
	for _, ref := range *mc.Referrers() {
		switch s := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if s.Addr != a {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// Fields left without a value by an allocation
func (n *nilness) allocZero(x *ssa.Alloc, work *[]any) {
	t := deref(x.Type())
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	stored := map[int]bool{}
	for _, ref := range *x.Referrers() {
		switch y := ref.(type) {
		case *ssa.Store:
			if y.Addr == x {
				return
			}
		case *ssa.FieldAddr:
			for _, r2 := range *y.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == y && y.Block().Dominates(y.Block()) {
					stored[y.Field] = true
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if nilable(st.Field(i).Type()) && !stored[i] && n.compared[modKeyField(t, i)] {
			n.mark(modKeyField(t, i), "left out at "+n.p.instrPos(x), work)
		}
	}
}

func (n *nilness) callRes(c *ssa.Call, i int, to any, dep func(a, b any), work *[]any) {
	for _, f := range n.p.callees(c) {
		if n.p.inModule[f] {
			dep(resKey{f, i}, to)
			continue
		}
		res := f.Signature.Results()
		if res.Len() > 1 && res.At(res.Len()-1).Type().String() == "error" {
			n.mark(to, "failure of "+f.Name(), work)
		}
		if res.At(i).Type().String() == "error" {
			n.mark(to, "success of "+f.Name(), work)
		}
	}
}

// Pointer to a scalar: its only purpose is to be optional
func scalarPointer(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Basic)
	return ok
}

// Types of parameters that callers may leave out: functions and options
func optionalType(t types.Type) bool {
	nt, ok := deref(t).(*types.Named)
	if !ok {
		return false
	}
	_, isF := nt.Underlying().(*types.Signature)
	return isF || strings.HasSuffix(nt.Obj().Name(), "Options")
}

// Calls f on the values that instructions expect to be there
func (n *nilness) sinks(in ssa.Instruction, f func(v ssa.Value, what string)) {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		f(x.X, "field of")
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
			default:
				f(x.X, "content of")
			}
		}
	case *ssa.Store:
		switch x.Addr.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		default:
			f(x.Addr, "write to")
		}
		if k, ok := x.Val.(*ssa.Const); ok && k.Value == nil {
			break // Reset
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && expected(x.Val.Type()) && n.elem(ia) == "" {
			f(x.Val, "element set to")
		}
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && nilable(x.Val.Type()) && n.always(modKeyField(deref(fa.X.Type()), fa.Field)) {
			f(x.Val, "field set to")
		}
	case *ssa.MapUpdate:
		f(x.Map, "entry of")
		if nilable(x.Value.Type()) {
			f(x.Value, "map entry set to")
		}
	}
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	cc := c.Common()
	if cc.IsInvoke() {
		f(cc.Value, "method of")
	} else if cc.StaticCallee() == nil {
		if _, ok := cc.Value.(*ssa.Builtin); !ok {
			f(cc.Value, "call of")
		}
	}
	seen := map[ssa.Value]bool{}
	for _, g := range n.p.callees(c) {
		if !n.p.inModule[g] {
			continue
		}
		for i, pa := range g.Params {
			if n.needs[pa] && !(i == 0 && cc.IsInvoke()) {
				if a := callArg(c, g, i); a != nil && !seen[a] {
					seen[a] = true
					f(a, "argument of "+g.Name()+":")
				}
			}
		}
	}
}

// Parameters that functions use without ever looking whether they're there
func (n *nilness) findNeeds() {
	compared := map[ssa.Value]bool{}
	for _, fn := range n.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.BinOp); ok {
					for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						if k, ok := pr[1].(*ssa.Const); ok && k.Value == nil {
							compared[pr[0]] = true
							if pa, ok := pr[0].(*ssa.Parameter); ok && optionalType(pa.Type()) {
								n.optional[pa.Type().String()] = true
							}
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range n.p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					n.sinks(in, func(v ssa.Value, what string) {
						if pa, ok := v.(*ssa.Parameter); ok && nilable(pa.Type()) && !compared[pa] && !n.needs[pa] && !n.optional[pa.Type().String()] {
							n.needs[pa] = true
							changed = true
						}
					})
				}
			}
		}
	}
}

func (e *Engine) nilGoals(n *nilness, fn *ssa.Function) []*Goal {
	var gs []*Goal
	ctx := e.rootCtx(fn)
	used := map[ssa.Value][]ssa.Instruction{}
	add := func(in ssa.Instruction, v ssa.Value, what string) {
		why, ok := n.null[v]
		if !ok {
			return
		}
		for _, u := range used[v] {
			if u.Block().Dominates(in.Block()) {
				return // Already used
			}
		}
		used[v] = append(used[v], in)
		c := newCons()
		e.addRel(c, Rel{e.val(ctx, v), e.nilT, false})
		g := &Goal{fn: fn, in: in, val: v, kind: what, desc: what + " " + valName(v) + " (" + why + ")"}
		if !c.false {
			g.cases = []*Cons{c}
		}
		gs = append(gs, g)
	}
	for _, b := range fn.DomPreorder() {
		for _, in := range b.Instrs {
			n.sinks(in, func(v ssa.Value, what string) { add(in, v, what) })
		}
	}
	return gs
}

// Engine configured for nil values: the elements of collections are not nil
// unless the program takes care of it, nor are the parameters of entry points
func (n *nilness) engine(e *Engine) {
	e.optionalElem = func(k string) bool { return n.null["E:"+k] != "" }
	e.contract = func(e *Engine, fn *ssa.Function, c *Cons) {
		defaultContract(e, fn, c)
		for _, r := range c.rels {
			if r.neq {
				continue
			}
			for _, pr := range [][2]*Term{{r.a, r.b}, {r.b, r.a}} {
				if pr[1] == e.nilT && pr[0].k == tVal && pr[0].v.Parent() == fn {
					if pa, ok := pr[0].v.(*ssa.Parameter); ok && (!e.closedWorld(fn) && !n.optional[pa.Type().String()] || n.needs[pa]) {
						c.false = true
					}
				}
			}
		}
	}
}

// Decide a goal, from the use of the value or from any point all the paths
// from its definition to the use go through
func (e *Engine) nilSolve(g *Goal) bool {
	solve := func(in ssa.Instruction) bool {
		ok := true
		g.out = nil
		for _, c := range g.cases {
			o := e.solve(e.rootCtx(g.fn), in, c.clone(), nil)
			g.out = append(g.out, o)
			ok = ok && o.proved
		}
		return ok
	}
	if solve(g.in) {
		return true
	}
	out := g.out
	def, ok := g.val.(ssa.Instruction)
	if !ok {
		return false
	}
	for d := g.in.Block(); d != nil && d != def.Block(); d = d.Idom() {
		if def.Block().Dominates(d) && len(d.Preds) == 1 && d != g.in.Block() && solve(d.Instrs[0]) {
			return true
		}
	}
	g.out = out
	return false
}

// Uses of values that may be absent, and whether they're decided
func (p *Program) nilUses(thorough bool) ([]*ssa.Function, [][]*Goal) {
	n := p.nilness()
	var fns []*ssa.Function
	for _, fn := range p.funcs {
		if !strings.Contains(fn.String(), "benchmarks") {
			fns = append(fns, fn)
		}
	}
	out := make([][]*Goal, len(fns))
	p.parallel(fns, func(e *Engine, i int) {
		if thorough {
			e.budget *= 4
		}
		n.engine(e)
		for _, g := range e.nilGoals(n, fns[i]) {
			g.ok = e.nilSolve(g)
			out[i] = append(out[i], g)
		}
	})
	return fns, out
}

// Uses that the analysis cannot decide, by function and kind of use
var nilSites = map[string]string{}

func init() {
	add := func(reason, what string, fns ...string) {
		for _, f := range fns {
			nilSites[f+" "+what] = reason
		}
	}
	for _, what := range []string{"content of", "write to"} {
		add("innermost context of the parser, present from the start of a parse to its end", what,
			"core.Parser.openTuple", "core.Parser.openBlock", "core.Parser.openExpression", "core.Parser.openString",
			"core.Parser.addLiteral", "core.Parser.beginSubstitution")
	}
	add("options are numbered by the table of slots that has them", "field of", "helena_dialect.ArgspecValue.findSlots")
	add("argument specifications only have the types of arguments their interpreter handles", "argument of setSlotValue",
		"helena_dialect.ArgspecValue.setSlotValues", "helena_dialect.ArgspecValue.setPositionalSlotValues")
	add("only used after its flag has been tested", "field set to", "helena_dialect.whenCmd.Execute")
	add("internal signal, its value is never looked at", "argument of BREAK", "helena_dialect.loopCmd.Execute")
	add("contexts in use on the process stack have a program", "field of", "helena_dialect.Process.Run")
}

func init() {
	checks["C09"] = func(r *Report, thorough bool) {
		r.rule("nil", "no value that may be absent (nil pointer, interface, function or map: missing entry, failed conversion or call, optional parameter or field) is used as if it were present, on any path from any entry point", 120)
		fns, out := r.p.nilUses(thorough)
		for i := range fns {
			for _, g := range out[i] {
				what := fmt.Sprintf("%s %s", shortFn(g.fn), g.desc)
				if g.ok {
					r.ok("nil", g.fn, r.p.instrPos(g.in)+" "+what)
					continue
				}
				if reason := r.p.covered(g.fn, func(name string) string { return nilSites[name+" "+strings.TrimSuffix(g.kind, ":")] }, 0); reason != "" {
					r.excluded("nil", g.fn, what, reason)
					continue
				}
				var det []string
				for k, o := range g.out {
					if o.proved {
						continue
					}
					where := ""
					if o.where != nil {
						where = " from " + shortFn(o.where)
					}
					res := "reachable" + where + " when " + o.cons
					if o.unknown {
						res = "not proved within the budget"
					}
					det = append(det, fmt.Sprintf("offending state [%s]: %s", g.cases[k], res))
					for n, t := range o.trace {
						if n == 12 {
							break
						}
						det = append(det, "  "+t)
					}
				}
				r.fail("nil", g.fn, what, r.p.instrPos(g.in), "may be absent: "+what, det...)
			}
		}
	}
}

func devNil(p *Program) {
	fns, out := p.nilUses(false)
	tot, ok := 0, 0
	for i := range fns {
		if len(os.Args) > 2 && !strings.Contains(fns[i].String(), os.Args[2]) {
			continue
		}
		for _, g := range out[i] {
			tot++
			if g.ok {
				ok++
				continue
			}
			fmt.Println(p.instrPos(g.in), shortFn(g.fn), g.desc)
		}
	}
	fmt.Println(tot, ok)
}

func isCoreResult(t types.Type) bool { return t.String() == "helena/core.Result" }
