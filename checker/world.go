package main

// Tables of the interpreter state under study by the abstract evaluator

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func storeKey(t types.Type, field string) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name() + "." + field
	}
	return ""
}

func newWorld(stores map[string]bool) *aWorld {
	return &aWorld{stores: stores, null: map[string]bool{}, kinds: map[int]int64{}, eff: map[string][]aEffect{}}
}

func (w *aWorld) has(k string) bool {
	_, ok := w.stores[k]
	return ok
}

func (w *aWorld) lookup(k string) (aval, aval) {
	if !w.stores[k] {
		return aNil{}, false
	}
	if w.null[k] {
		return aNil{}, true
	}
	return aBound(k), true
}

// Field of a structure an address designates, if it is a table
func storeField(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	t := deref(fa.X.Type())
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return storeKey(t, st.Field(fa.Field).Name())
}

// Writes of a function that may concern tables: element writes, deletions,
// replacements
func tableWrites(fn *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				out = append(out, in)
			case *ssa.Store:
				switch x.Addr.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					out = append(out, in)
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "clear", "copy":
						out = append(out, in)
					}
				}
			}
		}
	}
	return out
}

// May a function write to a table under study, by static calls?
func (e *aeval) mayWrite(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, in := range tableWrites(fn) {
		if e.p.writesStore(in, e.world) != "" {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if sc := c.Common().StaticCallee(); sc != nil && e.p.inModule[sc] && e.mayWrite(sc, seen) {
					return true
				}
			}
		}
	}
	return false
}

// Table an instruction writes to, from the syntactic origin of the container
func (p *Program) writesStore(in ssa.Instruction, w *aWorld) string {
	var c ssa.Value
	switch x := in.(type) {
	case *ssa.MapUpdate:
		c = x.Map
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			c = ia.X
			break
		}
		if k := storeField(x.Addr); w.has(k) {
			return k
		}
		return ""
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			return ""
		}
		c = x.Call.Args[0]
	}
	if c == nil {
		return ""
	}
	return p.storeOf(c, w, 0)
}

func (p *Program) storeOf(c ssa.Value, w *aWorld, d int) string {
	if d > 6 {
		return ""
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if k := storeField(x.X); w.has(k) {
			return k
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if s := singleStore(al); s != nil {
				return p.storeOf(s, w, d+1)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k := p.storeOf(e, w, d+1); k != "" {
				return k
			}
		}
	case *ssa.Slice:
		return p.storeOf(x.X, w, d+1)
	case *ssa.Parameter:
		i := paramIndex(x.Parent(), x)
		for _, c := range p.callers[x.Parent()] {
			if a := c.Common().Args; i < len(a) {
				if k := p.storeOf(a[i], w, d+1); k != "" {
					return k
				}
			}
		}
	case *ssa.Call:
		if sc := x.Call.StaticCallee(); sc != nil && p.inModule[sc] {
			for _, b := range sc.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					if k := p.storeOf(r.Results[0], w, d+1); k != "" {
						return k
					}
				}
			}
		}
	}
	return ""
}

// Effects of the evaluation of a frame
func (f *aframe) effects() []aEffect {
	var out []aEffect
	e := f.e
	for _, b := range f.fn.Blocks {
		if !f.live[b] {
			continue
		}
		must := -1
		isMust := func() bool {
			if must < 0 {
				must = 0
				if !f.avoids(b) {
					must = 1
				}
			}
			return must == 1
		}
		add := func(x aEffect) {
			x.must = isMust()
			out = append(out, x)
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if s, ok := f.get(x.Map).(aStore); ok {
					add(aEffect{what: string(s), key: nameKey(f.get(x.Key)), val: f.get(x.Value), in: in})
				} else if k := e.p.writesStore(in, e.world); k != "" {
					add(aEffect{what: k, key: "?", val: aTop{}, in: in})
				}
			case *ssa.Store:
				if p, ok := f.get(x.Addr).(aPtr); ok && len(p.cell) > 2 && (p.cell[:2] == "E:" || p.cell[:2] == "S:") {
					key := ""
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						key = nameKey(f.get(ia.Index))
					} else {
						key = "*"
					}
					add(aEffect{what: p.cell[2:], key: key, val: f.get(x.Val), in: in})
				} else if k := e.p.writesStore(in, e.world); k != "" {
					add(aEffect{what: k, key: "?", val: aTop{}, in: in})
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear", "copy":
						if s, ok := f.get(x.Call.Args[0]).(aStore); ok {
							key := "*"
							if bi.Name() == "delete" {
								key = nameKey(f.get(x.Call.Args[1]))
							}
							add(aEffect{what: bi.Name() + " " + string(s), key: key, in: in})
						} else if k := e.p.writesStore(in, e.world); k != "" {
							add(aEffect{what: bi.Name() + " " + k, key: "?", in: in})
						}
					}
					continue
				}
				if k, ok := f.called[x]; ok {
					for _, y := range e.world.eff[k] {
						y.must = y.must && isMust()
						out = append(out, y)
					}
				} else if x.Call.StaticCallee() == nil && !x.Call.IsInvoke() && f.get(x.Call.Value) != nil {
					if _, ok := f.get(x.Call.Value).(aFn); !ok {
						add(aEffect{what: "call of a function value", in: in})
					}
				}
			case *ssa.Defer, *ssa.Go:
				if sc := in.(ssa.CallInstruction).Common().StaticCallee(); sc == nil || e.mayWrite(sc, map[*ssa.Function]bool{}) {
					add(aEffect{what: "deferred call", in: in})
				}
			}
		}
	}
	return out
}

// Can a return be reached without going through a block?
func (f *aframe) avoids(b *ssa.BasicBlock) bool {
	if b.Index == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{b: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return true
		}
		for _, s := range x.Succs {
			if f.edges[[2]*ssa.BasicBlock{x, s}] && walk(s) {
				return true
			}
		}
		return false
	}
	return walk(f.fn.Blocks[0])
}

func nameKey(v aval) string {
	switch x := v.(type) {
	case aName:
		return "name"
	case aBound:
		return "slot:" + string(x)
	}
	return "?"
}

// Table of another structure than the one at hand, linked by a field of its type
func otherInstance(x *ssa.FieldAddr) bool {
	switch b := x.X.(type) {
	case *ssa.Phi:
		return true
	case *ssa.UnOp:
		if fa, ok := b.X.(*ssa.FieldAddr); ok {
			return deref(fa.X.Type()) == deref(x.X.Type())
		}
	}
	return false
}

// Method called by a method value
func boundMethod(fn *ssa.Function) *ssa.Function {
	if len(fn.Blocks) != 1 || len(fn.FreeVars) != 1 || !strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		return nil
	}
	for _, in := range fn.Blocks[0].Instrs {
		if c, ok := in.(*ssa.Call); ok {
			return c.Call.StaticCallee()
		}
	}
	return nil
}
