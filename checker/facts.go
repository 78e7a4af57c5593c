package main

// Forward dataflow over SSA: facts holding on all paths to a point, and the
// possible codes of results. Functions are summarised by the facts holding
// when they return successfully (or true, or false), and results by the codes
// they may carry given the codes of the results passed as arguments.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fact struct{ K, A, B string }

func (f Fact) String() string {
	s := f.K + "(" + f.A
	if f.B != "" {
		s += ", " + f.B
	}
	return s + ")"
}

const (
	codeOK uint8 = 1 << iota
	codeRETURN
	codeYIELD
	codeERROR
	codeBREAK
	codeCONTINUE
	codeCUSTOM
	codeAny = 1<<7 - 1
)

var codeNames = []string{"OK", "RETURN", "YIELD", "ERROR", "BREAK", "CONTINUE", "CUSTOM"}

func codeSet(m uint8) string {
	if m == codeAny {
		return "any code"
	}
	var l []string
	for i, n := range codeNames {
		if m&(1<<i) != 0 {
			l = append(l, n)
		}
	}
	return strings.Join(l, "|")
}

type factState struct {
	facts map[Fact]bool
	codes map[string]uint8
	holds map[string]string // location -> result it is known to hold
}

func newFactState() *factState {
	return &factState{map[Fact]bool{}, map[string]uint8{}, map[string]string{}}
}
func (s *factState) clone() *factState {
	n := newFactState()
	for k := range s.facts {
		n.facts[k] = true
	}
	for k, v := range s.codes {
		n.codes[k] = v
	}
	for k, v := range s.holds {
		n.holds[k] = v
	}
	return n
}

// Merge o into s, report whether s changed
func (s *factState) merge(o *factState) bool {
	ch := false
	for k := range s.facts {
		if !o.facts[k] {
			delete(s.facts, k)
			ch = true
		}
	}
	for k, v := range s.codes {
		w, ok := o.codes[k]
		if !ok {
			delete(s.codes, k)
			ch = true
		} else if w|v != v {
			s.codes[k] = v | w
			ch = true
		}
	}
	for k, v := range s.holds {
		if o.holds[k] != v {
			delete(s.holds, k)
			ch = true
		}
	}
	return ch
}

// Drop everything mentioning a path component
func (s *factState) kill(has func(path string) bool) {
	for k := range s.facts {
		if has(k.A) || has(k.B) {
			delete(s.facts, k)
		}
	}
	for k := range s.codes {
		if has(k) {
			delete(s.codes, k)
		}
	}
	for k, v := range s.holds {
		if has(k) || has(v) {
			delete(s.holds, k)
		}
	}
}

type flow struct {
	p       *Program
	atoms   func(d *flow, fn *ssa.Function, v ssa.Value, truth bool) []Fact
	gen     func(d *flow, fn *ssa.Function, in ssa.Instruction, st *factState) []Fact
	kills   func(d *flow, fn *ssa.Function, in ssa.Instruction, f Fact) bool
	entry   func(d *flow, fn *ssa.Function) []Fact
	pathM   map[ssa.Value]string
	callM   map[*ssa.Function]map[string]*ssa.Call
	results map[*ssa.Function]map[*ssa.BasicBlock]*factState
	okSums  map[string][]Fact
	busy    map[string]bool
	codeSum map[string]uint8
	final   map[string]bool
	visited map[string]bool
	depth   int
	changed bool
	isRes   func(t types.Type) bool
	resKey  string
	noFacts bool
	force   map[*ssa.Call]uint8 // codes assumed of the results of calls
}

func newFlow(p *Program) *flow {
	d := &flow{p: p, pathM: map[ssa.Value]string{}, callM: map[*ssa.Function]map[string]*ssa.Call{},
		results: map[*ssa.Function]map[*ssa.BasicBlock]*factState{}, okSums: map[string][]Fact{}, busy: map[string]bool{},
		codeSum: map[string]uint8{}, final: map[string]bool{}}
	d.isRes = func(t types.Type) bool { return t.String() == "helena/core.Result" }
	if pk := p.core(); pk != nil {
		if o := pk.Pkg.Scope().Lookup("Result"); o != nil {
			d.resKey = modKeyField(o.Type(), 0)
		}
	}
	return d
}

func comp(t types.Type, i int) string { return "{" + modKeyField(t, i) + "}" }

// Is a variable stored once as a whole, and only read otherwise?
func singleStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(a) || val != nil {
				return nil
			}
			val = x.Val
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !readOnlyAddr(x) {
				return nil
			}
		case *ssa.IndexAddr:
			if !readOnlyAddr(x) {
				return nil
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == ssa.Value(a) && !readOnlyAddr(fn.FreeVars[i]) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	return val
}
func readOnlyAddr(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !readOnlyAddr(x) {
				return false
			}
		case *ssa.IndexAddr:
			if !readOnlyAddr(x) {
				return false
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !readOnlyAddr(fn.FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// Access path of a value
func (d *flow) path(v ssa.Value) string {
	if v == nil {
		return ""
	}
	if s, ok := d.pathM[v]; ok {
		return s
	}
	d.pathM[v] = "v:" + v.Name() // recursion guard
	s := d.path1(v)
	d.pathM[v] = s
	return s
}
func (d *flow) path1(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return fmt.Sprintf("P%d", paramIndex(x.Parent(), x))
	case *ssa.FreeVar:
		for i, f := range x.Parent().FreeVars {
			if f == x {
				return fmt.Sprintf("F%d", i)
			}
		}
	case *ssa.Const:
		if x.Value == nil {
			return "c:nil"
		}
		return "c:" + x.Value.ExactString()
	case *ssa.Global:
		return "G:" + x.String()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return d.base(x.X)
		}
	case *ssa.Field:
		return d.path(x.X) + comp(x.X.Type(), x.Field)
	case *ssa.ChangeType:
		return d.path(x.X)
	case *ssa.ChangeInterface:
		return d.path(x.X)
	case *ssa.MakeInterface:
		return d.path(x.X)
	case *ssa.Convert:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return d.path(x.X)
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return d.path(x.X)
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return d.path(ta.X)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc:
		return "&" + d.base(v)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			return d.path(x.X)
		}
	}
	return "v:" + v.Name()
}

// Path of what an address designates
func (d *flow) base(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.Alloc:
		if s := singleStore(x); s != nil {
			return d.path(s)
		}
		return "A:" + x.Name()
	case *ssa.FieldAddr:
		return d.base(x.X) + comp(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		b := ""
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			b = d.base(x.X)
		} else {
			b = d.path(x.X)
		}
		return b + "[" + d.path(x.Index) + "]"
	case *ssa.FreeVar:
		return "*" + d.path(x)
	case *ssa.Global:
		return "G:" + x.String()
	}
	return d.path(a)
}

func (d *flow) codeMask(v ssa.Value) (uint8, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		n := c.Int64()
		if n >= 0 && n < 7 {
			return 1 << n, true
		}
		return 0, true
	}
	return 0, false
}

// Path of the result whose code is read, if any
func (d *flow) codeOwner(v ssa.Value) string {
	p := d.path(v)
	sfx := "{" + d.resKey + "}"
	if strings.HasSuffix(p, sfx) {
		return strings.TrimSuffix(p, sfx)
	}
	return ""
}

// Possible codes of a result at a point
func (d *flow) codeOf(v ssa.Value, st *factState) uint8 {
	if m, ok := st.codes[d.path(v)]; ok {
		return m
	}
	switch x := v.(type) {
	case *ssa.Const:
		return codeOK // zero result
	case *ssa.Call:
		return d.callCodes(x, 0, st)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return d.callCodes(c, x.Index, st)
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if s := singleStore(al); s != nil {
				return d.codeOf(s, st)
			}
		}
	case *ssa.Phi:
		var m uint8
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			if w, ok := st.codes[d.path(e)]; ok {
				m |= w
				continue
			}
			switch e.(type) {
			case *ssa.Const:
				m |= codeOK
			default:
				return codeAny
			}
		}
		return m
	}
	return codeAny
}

// Codes of result idx of a call
func (d *flow) callCodes(c *ssa.Call, idx int, st *factState) uint8 {
	if m, ok := d.force[c]; ok {
		return m
	}
	callees := d.p.callees(c)
	if len(callees) == 0 {
		return codeAny
	}
	if c.Call.IsInvoke() || c.Call.StaticCallee() == nil {
		if openCall(c) {
			return codeAny
		}
	}
	var m uint8
	for _, f := range callees {
		if len(f.Blocks) == 0 {
			return codeAny
		}
		masks := make([]uint8, len(f.Params))
		for i, pa := range f.Params {
			if !d.isRes(pa.Type()) {
				continue
			}
			masks[i] = codeAny
			if a := callArg(c, f, i); a != nil && st != nil {
				masks[i] = d.codeOf(a, st)
			}
		}
		m |= d.codesOf(f, masks, idx)
	}
	return m
}

// Calls whose target may be any command or callback
func openCall(c *ssa.Call) bool {
	if c.Call.IsInvoke() {
		switch c.Call.Method.Name() {
		case "Execute", "Resume", "Help":
			return true
		}
		return false
	}
	return false
}

// Codes of result idx of a function given the codes of its parameters
func (d *flow) codesOf(f *ssa.Function, masks []uint8, idx int) uint8 {
	key := fmt.Sprintf("%p/%d/%v", f, idx, masks)
	if d.final[key] {
		return d.codeSum[key]
	}
	top := d.depth == 0
	if top {
		d.visited = map[string]bool{}
	}
	if d.visited[key] {
		return d.codeSum[key]
	}
	for {
		d.visited[key] = true
		d.depth++
		d.changed = d.changed && !top
		var m uint8
		for b, st := range d.run(f, func(st *factState) {
			for i, pa := range f.Params {
				if d.isRes(pa.Type()) {
					st.codes[fmt.Sprintf("P%d", i)] = masks[i]
				}
			}
		}, false) {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(rt.Results) {
				end := d.transferBlock(f, b, st.clone(), nil)
				m |= d.codeOf(rt.Results[idx], end)
			}
		}
		if !hasReturn(f) {
			m = 0
		}
		if f.Recover != nil {
			m |= codeERROR // raised by a deferred handler
		}
		d.depth--
		if m|d.codeSum[key] != d.codeSum[key] {
			d.codeSum[key] |= m
			d.changed = true
		}
		if !top {
			return d.codeSum[key]
		}
		if !d.changed {
			for k := range d.visited {
				d.final[k] = true
			}
			return d.codeSum[key]
		}
		d.visited = map[string]bool{}
		d.changed = false
	}
}

func hasReturn(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return true
			}
		}
	}
	return false
}

// Run the dataflow on a function: state at the entry of each reachable block
func (d *flow) run(fn *ssa.Function, init func(st *factState), withFacts bool) map[*ssa.BasicBlock]*factState {
	saved := d.noFacts
	d.noFacts = !withFacts
	defer func() { d.noFacts = saved }()
	in := map[*ssa.BasicBlock]*factState{}
	if len(fn.Blocks) == 0 {
		return in
	}
	st := newFactState()
	if withFacts && d.entry != nil {
		for _, f := range d.entry(d, fn) {
			st.facts[f] = true
		}
	}
	if init != nil {
		init(st)
	}
	in[fn.Blocks[0]] = st
	d.propagate(fn, in, fn.Blocks[0])
	return in
}

// States reached from the start of a block only
func (d *flow) runFrom(fn *ssa.Function, b *ssa.BasicBlock, st *factState) map[*ssa.BasicBlock]*factState {
	saved := d.noFacts
	d.noFacts = true
	defer func() { d.noFacts = saved }()
	in := map[*ssa.BasicBlock]*factState{b: st}
	d.propagate(fn, in, b)
	return in
}

func (d *flow) propagate(fn *ssa.Function, in map[*ssa.BasicBlock]*factState, b *ssa.BasicBlock) {
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		out := d.transferBlock(fn, b, in[b].clone(), nil)
		for si, s := range b.Succs {
			e := d.edge(fn, b, si, out.clone())
			if e == nil {
				continue
			}
			d.phis(fn, b, s, e)
			if cur := in[s]; cur == nil {
				in[s] = e
				work = append(work, s)
			} else if cur.merge(e) {
				work = append(work, s)
			}
		}
	}
}

// Full run with facts, memoised
func (d *flow) states(fn *ssa.Function) map[*ssa.BasicBlock]*factState {
	if r, ok := d.results[fn]; ok {
		return r
	}
	r := d.run(fn, nil, true)
	d.results[fn] = r
	return r
}

func (d *flow) phis(fn *ssa.Function, from, to *ssa.BasicBlock, st *factState) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type asg struct {
		phi *ssa.Phi
		m   uint8
		ok  bool
		fs  []Fact
	}
	var as []asg
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e := phi.Edges[pi]
		a := asg{phi: phi}
		if d.isRes(phi.Type()) {
			a.m, a.ok = d.codeOf(e, st), true
		}
		if !d.noFacts {
			ep, pp := d.path(e), d.path(phi)
			for f := range st.facts {
				if f.A == ep {
					a.fs = append(a.fs, Fact{f.K, pp, f.B})
				}
				if f.B == ep {
					a.fs = append(a.fs, Fact{f.K, f.A, pp})
				}
			}
		}
		as = append(as, a)
	}
	for _, a := range as {
		d.killValue(a.phi, st)
	}
	for _, a := range as {
		if a.ok {
			st.codes[d.path(a.phi)] = a.m
		}
		for _, f := range a.fs {
			st.facts[f] = true
		}
	}
}

func (d *flow) killValue(v ssa.Value, st *factState) {
	n := "v:" + v.Name()
	st.kill(func(p string) bool { return hasComp(p, n) })
}

// Does a path start with, or index by, a named component?
func hasComp(p, n string) bool {
	for {
		i := strings.Index(p, n)
		if i < 0 {
			return false
		}
		rest := p[i+len(n):]
		if rest == "" || !(rest[0] >= '0' && rest[0] <= '9') {
			return true
		}
		p = rest
	}
}

// State after the instructions of a block up to stop (excluded)
func (d *flow) transferBlock(fn *ssa.Function, b *ssa.BasicBlock, st *factState, stop ssa.Instruction) *factState {
	for _, in := range b.Instrs {
		if in == stop {
			break
		}
		d.step(fn, in, st)
	}
	return st
}

// State just before an instruction, nil if unreachable
func (d *flow) before(fn *ssa.Function, in ssa.Instruction) *factState {
	s := d.states(fn)[in.Block()]
	if s == nil {
		return nil
	}
	return d.transferBlock(fn, in.Block(), s.clone(), in)
}

func (d *flow) step(fn *ssa.Function, in ssa.Instruction, st *factState) {
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	if v, ok := in.(ssa.Value); ok {
		d.killValue(v, st)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		if d.isRes(deref(x.Type())) && singleStore(x) == nil {
			st.codes["A:"+x.Name()] = codeOK
		}
	case *ssa.Store:
		d.store(fn, x, st)
	case *ssa.Call:
		d.call(fn, x, st)
		if d.isRes(x.Type()) {
			st.codes[d.path(x)] = d.callCodes(x, 0, st)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && d.isRes(x.Type()) {
			st.codes[d.path(x)] = d.callCodes(c, x.Index, st)
		}
	case *ssa.Defer, *ssa.Go, *ssa.RunDefers:
	}
	if !d.noFacts {
		if d.kills != nil {
			for f := range st.facts {
				if d.kills(d, fn, in, f) {
					delete(st.facts, f)
				}
			}
		}
		if d.gen != nil {
			for _, f := range d.gen(d, fn, in, st) {
				st.facts[f] = true
			}
		}
	}
}

func (d *flow) store(fn *ssa.Function, x *ssa.Store, st *factState) {
	var m uint8
	isCode := false
	owner := ""
	res := d.isRes(x.Val.Type())
	if res {
		m = d.codeOf(x.Val, st)
	} else if fa, ok := x.Addr.(*ssa.FieldAddr); ok && modKeyField(fa.X.Type(), fa.Field) == d.resKey {
		isCode = true
		owner = d.base(fa.X)
		m = codeAny
		if k, ok := d.codeMask(x.Val); ok {
			m = k
		} else if o := d.codeOwner(x.Val); o != "" {
			if k, ok := st.codes[o]; ok {
				m = k
			}
		}
	}
	var facts []Fact
	if !d.noFacts {
		vp, ap := d.path(x.Val), d.base(x.Addr)
		for f := range st.facts {
			if f.A == vp {
				facts = append(facts, Fact{f.K, ap, f.B})
			}
			if f.B == vp {
				facts = append(facts, Fact{f.K, f.A, ap})
			}
		}
	}
	d.killAddr(x.Addr, st)
	if res {
		b := d.base(x.Addr)
		st.codes[b] = m
		if v := d.path(x.Val); v != b && !strings.HasPrefix(v, "c:") {
			st.holds[b] = v
		}
	}
	if isCode {
		st.codes[owner] = m
	}
	for _, f := range facts {
		st.facts[f] = true
	}
}

func (d *flow) killAddr(a ssa.Value, st *factState) {
	switch x := a.(type) {
	case *ssa.Alloc:
		if singleStore(x) != nil {
			return
		}
		n := "A:" + x.Name()
		st.kill(func(p string) bool { return hasComp(p, n) })
	case *ssa.FieldAddr:
		c := comp(x.X.Type(), x.Field)
		if al := rootAlloc(x.X); al != nil && !al.Heap {
			b := d.base(x)
			st.kill(func(p string) bool { return strings.HasPrefix(p, b) })
			return
		}
		st.kill(func(p string) bool { return strings.Contains(p, c) })
	case *ssa.IndexAddr:
		st.kill(func(p string) bool { return strings.Contains(p, "[") })
	case *ssa.Global:
		n := "G:" + x.String()
		st.kill(func(p string) bool { return strings.Contains(p, n) })
	default:
		b := d.base(a)
		st.kill(func(p string) bool { return strings.HasPrefix(p, b) })
	}
}

// Effect of a call on memory
func (d *flow) call(fn *ssa.Function, c *ssa.Call, st *factState) {
	if len(st.facts) == 0 && len(st.codes) == 0 {
		return
	}
	for _, f := range d.p.callees(c) {
		for k := range d.p.modset(f) {
			switch k[0] {
			case 'F':
				n := "{" + k + "}"
				st.kill(func(p string) bool { return strings.Contains(p, n) })
			case 'E':
				st.kill(func(p string) bool { return strings.Contains(p, "[") })
			}
		}
		// variables captured by closures created here
	}
}

// State along an edge, nil if it cannot be taken
func (d *flow) edge(fn *ssa.Function, b *ssa.BasicBlock, si int, st *factState) *factState {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return st
	}
	return d.assume(fn, iff.Cond, si == 0, st)
}

func (d *flow) assume(fn *ssa.Function, v ssa.Value, truth bool, st *factState) *factState {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool && constant.BoolVal(x.Value) != truth {
			return nil
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return d.assume(fn, x.X, !truth, st)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := (x.Op == token.EQL) == truth
			o, k := x.X, x.Y
			if _, ok := d.codeMask(o); ok {
				o, k = k, o
			}
			if m, ok := d.codeMask(k); ok {
				if own := d.codeOwner(o); own != "" {
					cur, ok := st.codes[own]
					if !ok {
						cur = codeAny
					}
					if eq {
						cur &= m
					} else {
						cur &^= m
					}
					if cur == 0 {
						return nil
					}
					st.codes[own] = cur
					same := []string{own}
					if v, ok := st.holds[own]; ok {
						same = append(same, v)
					}
					for l, v := range st.holds {
						if v == own {
							same = append(same, l)
						}
					}
					for _, o := range same {
						if c, ok := st.codes[o]; !ok || c&cur != 0 {
							if ok {
								st.codes[o] = c & cur
							} else {
								st.codes[o] = cur
							}
						}
						if cur == codeOK && !d.noFacts {
							d.importOK(fn, o, st)
						}
					}
				}
			}
		}
	case *ssa.Extract:
		// flag returned along with a result
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			break
		}
		f := c.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 {
			break
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if !d.isRes(f.Signature.Results().At(i).Type()) {
				continue
			}
			for _, ref := range *c.Referrers() {
				e, ok := ref.(*ssa.Extract)
				if !ok || e.Index != i {
					continue
				}
				m := d.flagCodes(f, i, x.Index, truth)
				own := d.path(e)
				cur, ok := st.codes[own]
				if !ok {
					cur = codeAny
				}
				if cur &= m; cur == 0 {
					return nil
				}
				st.codes[own] = cur
				for l, v := range st.holds {
					if v == own {
						if c, ok := st.codes[l]; ok && c&cur != 0 {
							st.codes[l] = c & cur
						}
					}
				}
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
			for i, pa := range f.Params {
				if i >= len(x.Call.Args) || !d.isRes(pa.Type()) {
					continue
				}
				own := d.path(x.Call.Args[i])
				cur := d.codeOf(x.Call.Args[i], st) & d.testCodes(f, i, truth)
				if cur == 0 {
					return nil
				}
				st.codes[own] = cur
				if v, ok := st.holds[own]; ok {
					if c, ok := st.codes[v]; ok && c&cur != 0 {
						st.codes[v] = c & cur
					}
				}
			}
		}
		if !d.noFacts {
			for _, f := range d.condFacts(x, truth) {
				st.facts[f] = true
			}
		}
	}
	if !d.noFacts && d.atoms != nil {
		for _, f := range d.atoms(d, fn, v, truth) {
			st.facts[f] = true
		}
	}
	return st
}

// Codes of a result returned along with a given flag
func (d *flow) flagCodes(f *ssa.Function, ri, bi int, truth bool) uint8 {
	key := fmt.Sprintf("flag/%p/%d/%d/%v", f, ri, bi, truth)
	if m, ok := d.codeSum[key]; ok {
		return m
	}
	d.codeSum[key] = codeAny
	var m uint8
	for b, in := range d.run(f, nil, false) {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		end := d.transferBlock(f, b, in.clone(), nil)
		if e := d.assume(f, rt.Results[bi], truth, end); e != nil {
			m |= d.codeOf(rt.Results[ri], e)
		}
	}
	if f.Recover != nil {
		m = codeAny
	}
	d.codeSum[key] = m
	return m
}

// Codes of a parameter for which a test may be true, or false
func (d *flow) testCodes(f *ssa.Function, idx int, truth bool) uint8 {
	key := fmt.Sprintf("test/%p/%d/%v", f, idx, truth)
	if m, ok := d.codeSum[key]; ok {
		return m
	}
	d.codeSum[key] = codeAny
	if f.Signature.Results().Len() != 1 {
		return codeAny
	}
	var m uint8
	for k := codeOK; k <= codeCUSTOM; k <<= 1 {
		states := d.run(f, func(st *factState) { st.codes[fmt.Sprintf("P%d", idx)] = k }, false)
		for b, in := range states {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			phi, ok := rt.Results[0].(*ssa.Phi)
			if !ok || phi.Block() != b {
				if d.assume(f, rt.Results[0], truth, d.transferBlock(f, b, in.clone(), nil)) != nil {
					m |= k
				}
				continue
			}
			for i, pr := range b.Preds {
				if states[pr] == nil {
					continue
				}
				end := d.transferBlock(f, pr, states[pr].clone(), nil)
				for si, s := range pr.Succs {
					if s != b {
						continue
					}
					if e := d.edge(f, pr, si, end.clone()); e != nil && d.assume(f, phi.Edges[i], truth, e) != nil {
						m |= k
					}
				}
			}
		}
	}
	d.codeSum[key] = m
	return m
}

// Facts established by the success of the call that returned a result
func (d *flow) importOK(fn *ssa.Function, own string, st *factState) {
	m := d.callM[fn]
	if m == nil {
		m = map[string]*ssa.Call{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if d.isRes(x.Type()) {
						m[d.path(x)] = x
					}
				case *ssa.Extract:
					if c, ok := x.Tuple.(*ssa.Call); ok && d.isRes(x.Type()) {
						m[d.path(x)] = c
					}
				}
			}
		}
		d.callM[fn] = m
	}
	c := m[own]
	if c == nil {
		return
	}
	for _, f := range d.callFacts(c, "ok") {
		st.facts[f] = true
	}
}

func (d *flow) condFacts(c *ssa.Call, truth bool) []Fact {
	if truth {
		return d.callFacts(c, "true")
	}
	return d.callFacts(c, "false")
}

// Facts holding after a call with the given outcome (ok, true, false, return),
// in terms of the caller
func (d *flow) callFacts(c *ssa.Call, outcome string) []Fact {
	callees := d.p.callees(c)
	if len(callees) == 0 {
		return nil
	}
	var out []Fact
	for n, f := range callees {
		var l []Fact
		for _, fa := range d.summary(f, outcome) {
			a, ok1 := d.subst(fa.A, c, f)
			b, ok2 := d.subst(fa.B, c, f)
			if ok1 && ok2 {
				l = append(l, Fact{fa.K, a, b})
			}
		}
		if n == 0 {
			out = l
			continue
		}
		keep := out[:0]
		for _, x := range out {
			for _, y := range l {
				if x == y {
					keep = append(keep, x)
					break
				}
			}
		}
		out = keep
	}
	return out
}

// Rewrite a path of a callee into a path of the caller
func (d *flow) subst(p string, c ssa.CallInstruction, f *ssa.Function) (string, bool) {
	if p == "" || strings.HasPrefix(p, "c:") || strings.HasPrefix(p, "G:") {
		return p, true
	}
	if p[0] != 'P' || strings.Contains(p, "[v:") {
		return "", false
	}
	j := 1
	for j < len(p) && p[j] >= '0' && p[j] <= '9' {
		j++
	}
	n := 0
	fmt.Sscan(p[1:j], &n)
	a := callArg(c, f, n)
	if a == nil {
		return "", false
	}
	if p[j:] != "" {
		switch a.(type) {
		case *ssa.FieldAddr, *ssa.Alloc, *ssa.IndexAddr:
			return d.base(a) + p[j:], true
		}
	}
	return d.path(a) + p[j:], true
}

// Facts about parameters holding when a function returns with an outcome
func (d *flow) summary(f *ssa.Function, outcome string) []Fact {
	key := fmt.Sprintf("%p/%s", f, outcome)
	if s, ok := d.okSums[key]; ok {
		return s
	}
	if d.busy[key] || len(f.Blocks) == 0 {
		return nil
	}
	d.busy[key] = true
	defer delete(d.busy, key)
	var acc map[Fact]bool
	meet := func(fs map[Fact]bool) {
		if acc == nil {
			acc = map[Fact]bool{}
			for k := range fs {
				acc[k] = true
			}
			return
		}
		for k := range acc {
			if !fs[k] {
				delete(acc, k)
			}
		}
	}
	for b, st := range d.states(f) {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		end := d.transferBlock(f, b, st.clone(), nil)
		d.atReturn(f, rt, end, outcome, meet)
	}
	var out []Fact
	for k := range acc {
		if closedPath(k.A) && closedPath(k.B) {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	d.okSums[key] = out
	return out
}

func closedPath(p string) bool {
	return p == "" || p[0] == 'P' || strings.HasPrefix(p, "c:") || strings.HasPrefix(p, "G:")
}

func (d *flow) atReturn(f *ssa.Function, rt *ssa.Return, end *factState, outcome string, meet func(fs map[Fact]bool)) {
	switch outcome {
	case "return":
		meet(end.facts)
	case "ok":
		for i, v := range rt.Results {
			if !d.isRes(f.Signature.Results().At(i).Type()) {
				continue
			}
			m := d.codeOf(v, end)
			if m&codeOK == 0 {
				return
			}
			fs := end.clone().facts
			if m != codeOK {
				// success of a tail call
				var c *ssa.Call
				switch x := v.(type) {
				case *ssa.Call:
					c = x
				case *ssa.Extract:
					c, _ = x.Tuple.(*ssa.Call)
				case *ssa.UnOp:
					if al, ok := x.X.(*ssa.Alloc); ok {
						switch y := singleStore(al).(type) {
						case *ssa.Call:
							c = y
						case *ssa.Extract:
							c, _ = y.Tuple.(*ssa.Call)
						}
					}
				}
				if c != nil {
					for _, x := range d.callFacts(c, "ok") {
						fs[x] = true
					}
				}
			}
			meet(fs)
			return
		}
		meet(end.facts)
	case "true", "false":
		if len(rt.Results) != 1 {
			meet(map[Fact]bool{})
			return
		}
		truth := outcome == "true"
		d.atBool(f, rt.Block(), rt.Results[0], truth, end, meet)
	}
}

func (d *flow) atBool(f *ssa.Function, b *ssa.BasicBlock, v ssa.Value, truth bool, end *factState, meet func(fs map[Fact]bool)) {
	if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
		// one case per incoming edge
		for i, e := range phi.Edges {
			pred := b.Preds[i]
			ps := d.states(f)[pred]
			if ps == nil {
				continue
			}
			out := d.transferBlock(f, pred, ps.clone(), nil)
			for si, s := range pred.Succs {
				if s != b {
					continue
				}
				st := d.edge(f, pred, si, out.clone())
				if st == nil {
					continue
				}
				if st = d.assume(f, e, truth, st); st != nil {
					meet(st.facts)
				}
			}
		}
		return
	}
	if st := d.assume(f, v, truth, end); st != nil {
		meet(st.facts)
	}
}
