package main

// Typestate of input streams: the current element is only consulted or
// consumed once the stream has been found not to be at its end.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type streamCheck struct {
	p      *Program
	d      *flow
	ifaces []*types.Interface
	prim   map[*ssa.Function]bool // methods of the streams themselves
	pre    map[*ssa.Function]map[string]bool
	eats   map[*ssa.Function]bool
}

func (p *Program) streamIfaces() []*types.Interface {
	var out []*types.Interface
	pk := p.core()
	if pk == nil {
		return nil
	}
	for _, n := range pk.Pkg.Scope().Names() {
		if i, ok := pk.Pkg.Scope().Lookup(n).Type().Underlying().(*types.Interface); ok {
			has := map[string]bool{}
			for j := 0; j < i.NumMethods(); j++ {
				has[i.Method(j).Name()] = true
			}
			if has["End"] && has["Next"] && has["Current"] {
				out = append(out, i)
			}
		}
	}
	return out
}

// Name of the stream operation performed by a call and the stream
func (s *streamCheck) op(c *ssa.Call) (string, ssa.Value) {
	isStream := func(t types.Type) bool {
		for _, i := range s.ifaces {
			if types.Implements(t, i) {
				return true
			}
			if it, ok := t.Underlying().(*types.Interface); ok && types.Identical(it, i) {
				return true
			}
		}
		return false
	}
	if c.Call.IsInvoke() {
		if isStream(c.Call.Value.Type()) {
			return c.Call.Method.Name(), c.Call.Value
		}
		return "", nil
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(c.Call.Args) == 0 {
		return "", nil
	}
	t := c.Call.Args[0].Type()
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	if isStream(t) {
		return f.Name(), c.Call.Args[0]
	}
	return "", nil
}

func newStreamCheck(p *Program) *streamCheck {
	s := &streamCheck{p: p, ifaces: p.streamIfaces(), prim: map[*ssa.Function]bool{}, pre: map[*ssa.Function]map[string]bool{}, eats: map[*ssa.Function]bool{}}
	for _, fn := range p.funcs {
		if r := fn.Signature.Recv(); r != nil {
			t := r.Type()
			if _, ok := t.Underlying().(*types.Pointer); !ok {
				t = types.NewPointer(t)
			}
			for _, i := range s.ifaces {
				if types.Implements(t, i) {
					s.prim[fn] = true
				}
			}
		}
	}
	// functions that may consume an element
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			if s.eats[fn] || s.prim[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					if o, _ := s.op(c); o != "" {
						if o == "Next" {
							s.eats[fn] = true
						}
						continue
					}
					for _, f := range p.callees(c) {
						if s.eats[f] {
							s.eats[fn] = true
						}
					}
				}
			}
			if s.eats[fn] {
				changed = true
			}
		}
	}
	s.fresh()
	return s
}

// New dataflow, with the current preconditions
func (s *streamCheck) fresh() {
	d := newFlow(s.p)
	d.atoms = func(d *flow, fn *ssa.Function, v ssa.Value, truth bool) []Fact {
		if truth {
			return nil
		}
		if c, ok := v.(*ssa.Call); ok {
			if o, st := s.op(c); o == "End" {
				return []Fact{{"avail", s.path(d, st), ""}}
			}
		}
		return nil
	}
	d.kills = func(d *flow, fn *ssa.Function, in ssa.Instruction, f Fact) bool {
		c, ok := in.(*ssa.Call)
		if !ok || f.K != "avail" {
			return false
		}
		if o, st := s.op(c); o != "" {
			return o == "Next" && s.path(d, st) == f.A
		}
		for _, g := range s.p.callees(c) {
			if s.eats[g] {
				return true
			}
		}
		return false
	}
	d.entry = func(d *flow, fn *ssa.Function) []Fact {
		var out []Fact
		for p := range s.pre[fn] {
			out = append(out, Fact{"avail", p, ""})
		}
		sort.Slice(out, func(i, j int) bool { return out[i].A < out[j].A })
		return out
	}
	s.d = d
}

func (s *streamCheck) path(d *flow, v ssa.Value) string {
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.Alloc:
		return d.base(v)
	}
	return d.path(v)
}

// Requirements of a function: calls needing an element
func (s *streamCheck) needs(fn *ssa.Function, f func(c *ssa.Call, path, what string)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if o, st := s.op(c); o != "" {
				if o == "Next" || o == "Current" {
					f(c, s.path(s.d, st), o)
				}
				continue
			}
			for _, g := range s.p.callees(c) {
				for p := range s.pre[g] {
					if q, ok := s.d.subst(p, c, g); ok {
						f(c, q, shortFn(g))
					} else {
						f(c, "?"+p, shortFn(g))
					}
				}
			}
		}
	}
}

func streamRule(r *Report) {
	r.rule("lookahead", "an element of an input stream is only consulted or consumed where the stream has been found not to be at its end, in the function itself or in all its callers", 25)
	r.rule("stream", "a stream reports its end exactly when its position is not the one of an element", 2)
	p := r.p
	s := newStreamCheck(p)
	// infer preconditions: requirements that hold if they hold at entry
	for round := 0; round < 10; round++ {
		changed := false
		for _, fn := range p.funcs {
			if s.prim[fn] {
				continue
			}
			var miss []string
			s.needs(fn, func(c *ssa.Call, path, what string) {
				st := s.d.before(fn, c)
				if st == nil || st.facts[Fact{"avail", path, ""}] {
					return
				}
				if strings.HasPrefix(path, "P") && fn.Parent() == nil && !s.p.addrTaken[fn] {
					miss = append(miss, path)
				}
			})
			for _, m := range miss {
				if s.pre[fn] == nil {
					s.pre[fn] = map[string]bool{}
				}
				if !s.pre[fn][m] {
					s.pre[fn][m] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
		s.fresh()
	}
	for _, fn := range p.funcs {
		if s.prim[fn] {
			continue
		}
		s.needs(fn, func(c *ssa.Call, path, what string) {
			st := s.d.before(fn, c)
			if st == nil {
				return
			}
			if st.facts[Fact{"avail", path, ""}] {
				r.ok("lookahead", fn, p.instrPos(c)+" "+shortFn(fn)+" "+what)
				return
			}
			r.fail("lookahead", fn, shortFn(fn)+" "+what, p.instrPos(c), what+" may be called at the end of the stream in "+shortFn(fn))
		})
		// unguarded functions nobody calls in the module rely on their users
		if len(s.pre[fn]) > 0 && len(p.callers[fn]) == 0 {
			if o := fn.Object(); o == nil || !o.Exported() {
				r.fail("lookahead", fn, shortFn(fn), p.pos(fn), shortFn(fn)+" consults its stream without checking its end, and its callers are not known")
			}
		}
	}
	// End() must agree with the elements accessed
	for _, n := range p.namedT {
		for _, i := range s.ifaces {
			if !types.Implements(types.NewPointer(n), i) {
				continue
			}
			end, cur := p.methodOf(types.NewPointer(n), "End"), p.methodOf(types.NewPointer(n), "Current")
			if end == nil || cur == nil {
				continue
			}
			if endMatches(s.d, unwrapThunk(end), unwrapThunk(cur)) {
				r.ok("stream", end, shortFn(end))
			} else {
				r.fail("stream", end, shortFn(end), p.pos(end), shortFn(end)+" doesn't compare the position used by Current with the number of elements")
			}
		}
	}
}

// Method behind a synthetic pointer wrapper
func unwrapThunk(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" {
		return f
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Name() == f.Name() {
					return g
				}
			}
		}
	}
	return f
}

func endMatches(d *flow, end, cur *ssa.Function) bool {
	// accesses of Current
	type acc struct{ base, idx string }
	var accs []acc
	for _, b := range cur.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				accs = append(accs, acc{d.path(x.X), d.path(x.Index)})
			case *ssa.Index:
				accs = append(accs, acc{d.path(x.X), d.path(x.Index)})
			case *ssa.Lookup:
				accs = append(accs, acc{d.path(x.X), d.path(x.Index)})
			}
		}
	}
	if len(accs) == 0 {
		return false
	}
	lenOf := func(v ssa.Value) string {
		for {
			if c, ok := v.(*ssa.Convert); ok {
				v = c.X
				continue
			}
			break
		}
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return d.path(c.Call.Args[0])
			}
		}
		return ""
	}
	for _, b := range end.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := rt.Results[0]
		neg := false
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v, neg = u.X, true
		}
		x, ok := v.(*ssa.BinOp)
		if !ok {
			return false
		}
		op, l, rr := x.Op, x.X, x.Y
		if lenOf(l) != "" {
			l, rr = rr, l
			op = map[token.Token]token.Token{token.GEQ: token.LEQ, token.LEQ: token.GEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		if neg {
			op = map[token.Token]token.Token{token.GEQ: token.LSS, token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		if op != token.GEQ {
			return false
		}
		for _, a := range accs {
			if lenOf(rr) != a.base || d.path(l) != a.idx {
				return false
			}
		}
	}
	return true
}
