package main

// Forward exploration of the paths of a function, entering selected callees,
// with facts kept by a client. States are merged when equal only.

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type xframe struct {
	id     int
	fn     *ssa.Function
	parent *xframe
	site   ssa.Instruction
}

// Value in a frame
type ref struct {
	v  ssa.Value
	fr *xframe
}

type xstate struct {
	facts  map[string]string // of the client
	vals   map[string]ref    // parameters, variables, phis
	rets   map[string][]ref  // results of calls entered
	codes  map[string]uint8  // codes of results
	defers map[int][]ssa.CallInstruction
	halt   bool // set by the client to leave the path
}

func newXstate() *xstate {
	return &xstate{map[string]string{}, map[string]ref{}, map[string][]ref{}, map[string]uint8{}, map[int][]ssa.CallInstruction{}, false}
}

func (st *xstate) clone() *xstate {
	c := newXstate()
	for k, v := range st.facts {
		c.facts[k] = v
	}
	for k, v := range st.vals {
		c.vals[k] = v
	}
	for k, v := range st.rets {
		c.rets[k] = v
	}
	for k, v := range st.codes {
		c.codes[k] = v
	}
	for k, v := range st.defers {
		c.defers[k] = v
	}
	return c
}

func (st *xstate) forget(fr *xframe) {
	end := fmt.Sprintf(".%d", fr.id)
	for k := range st.vals {
		if strings.HasSuffix(k, end) {
			delete(st.vals, k)
		}
	}
	for k := range st.rets {
		if strings.HasSuffix(k, end) {
			delete(st.rets, k)
		}
	}
	for k := range st.codes {
		if strings.HasSuffix(k, end) {
			delete(st.codes, k)
		}
	}
}

type explorer struct {
	p       *Program
	d       *flow
	nums    map[ssa.Value]int
	frames  map[string]*xframe
	visited map[string]bool
	steps   int
	limit   int
	enter   func(f *ssa.Function) bool
	// Called before each instruction
	visit func(x *explorer, st *xstate, fr *xframe, in ssa.Instruction)
	// Called on each branch with the condition and its outcome, false if impossible
	branch func(x *explorer, st *xstate, cond ref, truth bool) bool
	end    func(x *explorer, st *xstate, in ssa.Instruction, results []ref)
	// States after a call that is not entered, if modelled
	model func(x *explorer, st *xstate, fr *xframe, c *ssa.Call) ([]*xstate, bool)
	// Iterate over known lists of values
	lists bool
	// Forget the values of callees on return
	purge bool
}

func newExplorer(p *Program) *explorer {
	return &explorer{p: p, d: newFlow(p), nums: map[ssa.Value]int{}, frames: map[string]*xframe{}, visited: map[string]bool{}, limit: 400000}
}

func (x *explorer) id(r ref) string {
	n, ok := x.nums[r.v]
	if !ok {
		n = len(x.nums)
		x.nums[r.v] = n
	}
	f := -1
	if r.fr != nil {
		f = r.fr.id
	}
	if _, ok := r.v.(*ssa.Const); ok {
		return "k" + r.v.String()
	}
	return fmt.Sprintf("%d.%d", n, f)
}

func (x *explorer) stateKey(st *xstate) string {
	var l []string
	for k, v := range st.facts {
		l = append(l, "f"+k+"="+v)
	}
	for k, v := range st.vals {
		l = append(l, "v"+k+"="+x.id(v))
	}
	for k, v := range st.rets {
		s := "r" + k + "="
		for _, r := range v {
			s += x.id(r) + ","
		}
		l = append(l, s)
	}
	for k, v := range st.codes {
		l = append(l, fmt.Sprintf("c%s=%d", k, v))
	}
	for k, v := range st.defers {
		l = append(l, fmt.Sprintf("d%d=%d", k, len(v)))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (x *explorer) frame(fn *ssa.Function, parent *xframe, site ssa.Instruction) *xframe {
	key := fmt.Sprintf("%p/%p/%p", fn, parent, site)
	if f := x.frames[key]; f != nil {
		return f
	}
	f := &xframe{len(x.frames), fn, parent, site}
	x.frames[key] = f
	return f
}

// What a value stands for in a state
func (x *explorer) resolve(st *xstate, r ref) ref {
	for n := 0; n < 50; n++ {
		switch y := r.v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function:
			return ref{y, nil}
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Phi:
			s, ok := st.vals[x.id(r)]
			if !ok {
				return r
			}
			r = s
			if r.v == ssa.Value(y) {
				return r
			}
			continue
		case *ssa.Call:
			l, ok := st.rets[x.id(r)]
			if !ok || len(l) != 1 {
				return r
			}
			r = l[0]
			continue
		case *ssa.Extract:
			l, ok := st.rets[x.id(ref{y.Tuple, r.fr})]
			if !ok || y.Index >= len(l) {
				return r
			}
			r = l[y.Index]
			continue
		case *ssa.ChangeType:
			r = ref{y.X, r.fr}
			continue
		case *ssa.BinOp:
			if k, ok := x.listIndex(st, y, r.fr); ok {
				return ref{ssa.NewConst(constant.MakeInt64(k), y.Type()), nil}
			}
			return r
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return r
			}
			if ia, ok := y.X.(*ssa.IndexAddr); ok && x.lists {
				k, isK := x.resolve(st, ref{ia.Index, r.fr}).v.(*ssa.Const)
				if l, fr, ok := x.list(st, ref{ia.X, r.fr}); ok && isK && k.Int64() >= 0 && k.Int64() < int64(len(l)) && l[k.Int64()] != nil {
					r = ref{l[k.Int64()], fr}
					continue
				}
				return r
			}
			if s, ok := st.vals[x.id(r)]; ok {
				// Value loaded, known to the client
				r = s
				continue
			}
			a := x.resolve(st, ref{y.X, r.fr})
			switch a.v.(type) {
			case *ssa.Alloc:
				s, ok := st.vals[x.id(a)]
				if !ok {
					return r
				}
				r = s
				continue
			case *ssa.Global:
				return ref{y, nil}
			}
			return r
		}
		return r
	}
	return r
}

// Elements of a known list
func (x *explorer) list(st *xstate, r ref) ([]ssa.Value, *xframe, bool) {
	r = x.resolve(st, r)
	l, ok := listValues(r.v)
	return l, r.fr, ok
}

// Index of an iteration over a known list
func (x *explorer) listIndex(st *xstate, b *ssa.BinOp, fr *xframe) (int64, bool) {
	if !x.lists || b.Op != token.ADD {
		return 0, false
	}
	one, ok := b.Y.(*ssa.Const)
	if !ok || one.Value == nil || one.Value.Kind() != constant.Int {
		return 0, false
	}
	known := func(cmp ssa.Value) bool {
		for _, u := range *cmp.Referrers() {
			if c, ok := u.(*ssa.BinOp); ok && c.Op == token.LSS {
				if _, ok := x.listLen(st, ref{c.Y, fr}); ok {
					return true
				}
			}
		}
		return false
	}
	if !known(b) && !known(b.X) {
		return 0, false
	}
	k, ok := x.resolve(st, ref{b.X, fr}).v.(*ssa.Const)
	if !ok || k.Value == nil {
		return 0, false
	}
	return k.Int64() + one.Int64(), true
}

func (x *explorer) listLen(st *xstate, r ref) (int64, bool) {
	r = x.resolve(st, r)
	c, ok := r.v.(*ssa.Call)
	if !ok || !x.lists {
		return 0, false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return 0, false
	}
	l, _, ok := x.list(st, ref{c.Call.Args[0], r.fr})
	return int64(len(l)), ok
}

// Is a value the same as another one?
func (x *explorer) same(st *xstate, a, b ref) bool {
	return x.keyOf(st, a) == x.keyOf(st, b)
}

// Name of a value; pure calls with the same arguments have the same name
func (x *explorer) keyOf(st *xstate, r ref) string {
	r = x.resolve(st, r)
	if c, ok := r.v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && strings.HasPrefix(f.String(), "path/filepath.") {
			var l []string
			for _, a := range c.Call.Args {
				l = append(l, x.keyOf(st, ref{a, r.fr}))
			}
			return f.Name() + "(" + strings.Join(l, ",") + ")"
		}
	}
	if s, ok := r.v.(*ssa.Slice); ok {
		// Variadic arguments
		if a, ok := s.X.(*ssa.Alloc); ok {
			var l []string
			for _, u := range *a.Referrers() {
				if ia, ok := u.(*ssa.IndexAddr); ok {
					for _, w := range *ia.Referrers() {
						if sto, ok := w.(*ssa.Store); ok {
							l = append(l, x.keyOf(st, ref{sto.Val, r.fr}))
						}
					}
				}
			}
			return "[" + strings.Join(l, ",") + "]"
		}
	}
	return x.id(r)
}

// Result whose code a value is
func (x *explorer) codeOwner(st *xstate, r ref) (ref, bool) {
	r = x.resolve(st, r)
	switch y := r.v.(type) {
	case *ssa.Field:
		if isCoreResult(y.X.Type()) && y.Field == 0 {
			return x.resolve(st, ref{y.X, r.fr}), true
		}
	case *ssa.UnOp:
		fa, ok := y.X.(*ssa.FieldAddr)
		if !ok || fa.Field != 0 || !isCoreResult(deref(fa.X.Type())) {
			return ref{}, false
		}
		a := x.resolve(st, ref{fa.X, r.fr})
		if v, ok := st.vals[x.id(a)]; ok {
			return x.resolve(st, v), true
		}
	}
	return ref{}, false
}

// Codes a result may have
func (x *explorer) codeOf(st *xstate, r ref) uint8 {
	r = x.resolve(st, r)
	m := uint8(codeAny)
	var c *ssa.Call
	idx := 0
	switch y := r.v.(type) {
	case *ssa.Call:
		c = y
	case *ssa.Extract:
		c, _ = y.Tuple.(*ssa.Call)
		idx = y.Index
	case *ssa.Const:
		m = codeOK
	}
	if c != nil {
		if f := c.Call.StaticCallee(); f != nil && x.p.inModule[f] {
			masks := make([]uint8, len(f.Params))
			for i, a := range c.Call.Args {
				masks[i] = codeAny
				if i < len(f.Params) && isCoreResult(f.Params[i].Type()) {
					masks[i] = x.codeOf(st, ref{a, r.fr})
				}
			}
			m = x.d.codesOf(f, masks, idx)
		}
	}
	if k, ok := st.codes[x.id(r)]; ok {
		m &= k
	}
	return m
}

// Refine a state by the outcome of a condition, false if impossible
func (x *explorer) assume(st *xstate, c ref, truth bool) bool {
	c = x.resolve(st, c)
	switch y := c.v.(type) {
	case *ssa.Const:
		return y.Value == nil || (y.Value.String() == "true") == truth
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return x.assume(st, ref{y.X, c.fr}, !truth)
		}
	case *ssa.BinOp:
		if y.Op == token.LSS {
			k, ok := x.resolve(st, ref{y.X, c.fr}).v.(*ssa.Const)
			if n, isN := x.listLen(st, ref{y.Y, c.fr}); ok && isN {
				return (k.Int64() < n) == truth
			}
		}
		if y.Op == token.EQL || y.Op == token.NEQ {
			a, b := ref{y.X, c.fr}, ref{y.Y, c.fr}
			if _, ok := a.v.(*ssa.Const); ok {
				a, b = b, a
			}
			k, isK := x.resolve(st, b).v.(*ssa.Const)
			if l, ok := x.resolve(st, a).v.(*ssa.Const); ok && isK && l.Value != nil && k.Value != nil && l.Value.Kind() == k.Value.Kind() {
				return constant.Compare(l.Value, y.Op, k.Value) == truth
			}
			if o, ok := x.codeOwner(st, a); ok && isK && k.Value != nil {
				bit := uint8(1) << uint(k.Int64())
				m := x.codeOf(st, o)
				if (y.Op == token.EQL) == truth {
					m &= bit
				} else {
					m &^= bit
				}
				if m == 0 {
					return false
				}
				st.codes[x.id(o)] = m
				return true
			}
		}
	case *ssa.Call:
		f := y.Call.StaticCallee()
		if f == nil || !x.p.inModule[f] {
			break
		}
		for i, a := range y.Call.Args {
			if i < len(f.Params) && isCoreResult(f.Params[i].Type()) {
				o := x.resolve(st, ref{a, c.fr})
				m := x.codeOf(st, o) & x.d.testCodes(f, i, truth)
				if m == 0 {
					return false
				}
				st.codes[x.id(o)] = m
			}
		}
	}
	return x.branch == nil || x.branch(x, st, c, truth)
}

func (x *explorer) run(fn *ssa.Function, st *xstate) {
	fr := x.frame(fn, nil, nil)
	x.block(fr, nil, fn.Blocks[0], st, func(st *xstate, in ssa.Instruction, res []ref) {
		if x.end != nil {
			x.end(x, st, in, res)
		}
	})
}

// Explore a function, false if it has too many paths
func (x *explorer) tryRun(fn *ssa.Function, st *xstate) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if s, is := e.(string); !is || !strings.HasPrefix(s, "too many paths") {
				panic(e)
			}
		}
	}()
	x.run(fn, st)
	return true
}

type xcont func(st *xstate, in ssa.Instruction, res []ref)

func (x *explorer) block(fr *xframe, from *ssa.BasicBlock, b *ssa.BasicBlock, st *xstate, k xcont) {
	// Phis take their values at the same time
	if from != nil {
		vals := map[string]ref{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range b.Preds {
				if pr == from {
					vals[x.id(ref{phi, fr})] = x.resolve(st, ref{phi.Edges[i], fr})
				}
			}
		}
		for i, v := range vals {
			st.vals[i] = v
		}
	}
	key := fmt.Sprintf("%d/%d/%s", fr.id, b.Index, x.stateKey(st))
	if x.visited[key] {
		return
	}
	x.visited[key] = true
	x.instrs(fr, b, 0, st, k)
}

func (x *explorer) instrs(fr *xframe, b *ssa.BasicBlock, i int, st *xstate, k xcont) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.limit {
			panic("too many paths from " + shortFn(fr.fn))
		}
		in := b.Instrs[i]
		if x.visit != nil {
			x.visit(x, st, fr, in)
			if st.halt {
				return
			}
		}
		switch y := in.(type) {
		case *ssa.Store:
			a := x.resolve(st, ref{y.Addr, fr})
			if _, ok := a.v.(*ssa.Alloc); ok {
				st.vals[x.id(a)] = x.resolve(st, ref{y.Val, fr})
			} else if fa, ok := a.v.(*ssa.FieldAddr); ok && !(isCoreResult(deref(fa.X.Type())) && fa.Field == 2) {
				// Changed in part
				if b := x.resolve(st, ref{fa.X, a.fr}); b.v != nil {
					if _, ok := b.v.(*ssa.Alloc); ok {
						delete(st.vals, x.id(b))
					}
				}
			}
		case *ssa.Alloc:
			delete(st.vals, x.id(ref{y, fr}))
		case *ssa.Defer:
			st.defers[fr.id] = append(append([]ssa.CallInstruction{}, st.defers[fr.id]...), y)
		case *ssa.RunDefers:
			x.deferred(fr, b, i, st, k)
			return
		case *ssa.Call:
			if f := x.target(st, fr, y); f != nil {
				x.call(fr, f, y, st, func(st *xstate, res []ref) { x.instrs(fr, b, i+1, st, k) })
				return
			}
			delete(st.rets, x.id(ref{y, fr}))
			if x.model != nil {
				if l, ok := x.model(x, st, fr, y); ok {
					for _, n := range l {
						x.instrs(fr, b, i+1, n, k)
					}
					return
				}
			}
		case *ssa.If:
			c := ref{y.Cond, fr}
			for si, s := range b.Succs {
				n := st.clone()
				if x.assume(n, c, si == 0) {
					x.block(fr, b, s, n, k)
				}
			}
			return
		case *ssa.Jump:
			x.block(fr, b, b.Succs[0], st, k)
			return
		case *ssa.Return:
			var res []ref
			for _, v := range y.Results {
				res = append(res, x.resolve(st, ref{v, fr}))
			}
			k(st, y, res)
			return
		case *ssa.Panic:
			return
		}
	}
}

func (x *explorer) deferred(fr *xframe, b *ssa.BasicBlock, i int, st *xstate, k xcont) {
	l := st.defers[fr.id]
	if len(l) == 0 {
		delete(st.defers, fr.id)
		x.instrs(fr, b, i+1, st, k)
		return
	}
	c := l[len(l)-1]
	st.defers[fr.id] = l[:len(l)-1]
	if x.visit != nil {
		x.visit(x, st, fr, b.Instrs[i])
	}
	if f := x.target(st, fr, c); f != nil {
		x.call(fr, f, c, st, func(st *xstate, _ []ref) { x.deferred(fr, b, i, st, k) })
		return
	}
	x.deferred(fr, b, i, st, k)
}

// Callee to enter
func (x *explorer) target(st *xstate, fr *xframe, c ssa.CallInstruction) *ssa.Function {
	f := c.Common().StaticCallee()
	if f == nil && !c.Common().IsInvoke() {
		switch y := x.resolve(st, ref{c.Common().Value, fr}).v.(type) {
		case *ssa.Function:
			f = y
		case *ssa.MakeClosure:
			f = y.Fn.(*ssa.Function)
		}
	}
	if f == nil || len(f.Blocks) == 0 || !x.p.inModule[f] || !x.enter(f) {
		return nil
	}
	n := 0
	for q := fr; q != nil; q = q.parent {
		if q.fn == f {
			return nil
		}
		n++
	}
	if n > 12 {
		return nil
	}
	return f
}

func (x *explorer) call(fr *xframe, f *ssa.Function, c ssa.CallInstruction, st *xstate, k func(st *xstate, res []ref)) {
	nf := x.frame(f, fr, c)
	args := c.Common().Args
	for i, pa := range f.Params {
		if i < len(args) {
			st.vals[x.id(ref{pa, nf})] = x.resolve(st, ref{args[i], fr})
		}
	}
	if len(f.FreeVars) > 0 {
		m := x.resolve(st, ref{c.Common().Value, fr})
		if mc, ok := m.v.(*ssa.MakeClosure); ok {
			for i, fv := range f.FreeVars {
				st.vals[x.id(ref{fv, nf})] = x.resolve(st, ref{mc.Bindings[i], m.fr})
			}
		}
	}
	x.block(nf, nil, f.Blocks[0], st, func(st *xstate, _ ssa.Instruction, res []ref) {
		if x.purge {
			st.forget(nf)
		}
		if v, ok := c.(*ssa.Call); ok && (len(res) > 0 || !x.purge) {
			st.rets[x.id(ref{v, fr})] = res
		}
		k(st, res)
	})
}
