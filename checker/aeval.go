package main

// Abstract evaluation of functions on partially known arguments: sparse
// conditional constant propagation on SSA, following static calls. Used to
// evaluate commands on frames of a given length whose subcommand is known.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values: nil is undefined (not reached yet)
type aval interface{}

type aTop struct{}
type aNil struct{}
type aArg int      // argument of the frame
type aSub struct{} // any subcommand name: comparisons are recorded
type aGlob string  // contents of a global variable, or field of it
type aFn struct {  // function value
	fn   *ssa.Function
	bind []aval
}
type aSlice []aval  // slice with known elements
type aName struct{} // some text
type aStore string  // table held by the state under study
type aBound string  // something held by such a table
type aTuple []aval
type aAlt struct { // possible result
	codes uint8
	val   aval
}
type aRes []aAlt
type aCode struct{ res aRes } // code of a result
type aPtr struct {            // address of a local variable, or element of it
	cell string
	typ  types.Type
}

const unknownText = "\x00"

func aKey(v aval) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case aTop:
		return "T"
	case aNil:
		return "nil"
	case aSub:
		return "sub"
	case aName:
		return "name"
	case aStore:
		return "store:" + string(x)
	case aBound:
		return "bound:" + string(x)
	case aArg:
		return fmt.Sprintf("arg%d", int(x))
	case aGlob:
		return "g:" + string(x)
	case aFn:
		s := x.fn.String() + fmt.Sprintf("%p(", x.fn)
		for _, b := range x.bind {
			s += aKey(b) + ","
		}
		return s + ")"
	case aSlice:
		s := "["
		for _, e := range x {
			s += aKey(e) + ","
		}
		return s + "]"
	case aTuple:
		s := "("
		for _, e := range x {
			s += aKey(e) + ","
		}
		return s + ")"
	case aRes:
		s := "res{"
		for _, e := range x {
			s += fmt.Sprintf("%d:%s;", e.codes, aKey(e.val))
		}
		return s + "}"
	case aCode:
		return "code" + aKey(x.res)
	case aPtr:
		return "&" + x.cell
	case aBoxed:
		return "box" + aKey(x.v)
	case int64:
		return fmt.Sprintf("%d", x)
	case bool:
		return fmt.Sprintf("%v", x)
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprintf("%T", v)
}

func aJoin(a, b aval) aval {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if _, ok := a.(aTop); ok {
		return a
	}
	if _, ok := b.(aTop); ok {
		return b
	}
	if aKey(a) == aKey(b) {
		return a
	}
	switch x := a.(type) {
	case aRes:
		if y, ok := b.(aRes); ok {
			out := append(aRes{}, x...)
			for _, e := range y {
				dup := false
				for _, f := range out {
					if f.codes == e.codes && aKey(f.val) == aKey(e.val) {
						dup = true
					}
				}
				if !dup {
					out = append(out, e)
				}
			}
			if len(out) > 16 {
				return aRes{{codeAny, aTop{}}}
			}
			return out
		}
	case aTuple:
		if y, ok := b.(aTuple); ok && len(x) == len(y) {
			out := make(aTuple, len(x))
			for i := range x {
				out[i] = aJoin(x[i], y[i])
			}
			return out
		}
	case aSlice:
		if y, ok := b.(aSlice); ok && len(x) == len(y) {
			out := make(aSlice, len(x))
			for i := range x {
				out[i] = aJoin(x[i], y[i])
			}
			return out
		}
	case aCode:
		if y, ok := b.(aCode); ok {
			if r, ok := aJoin(x.res, y.res).(aRes); ok {
				return aCode{r}
			}
		}
	}
	return aTop{}
}

type aeval struct {
	p       *Program
	sub     aval            // value of the subcommand name
	subArg  int             // argument holding it
	names   map[string]bool // constants the subcommand is compared with
	memo    map[string]aval
	active  map[string]bool
	depth   int
	isRes   func(t types.Type) bool
	resType types.Type
	codeIdx int
	valIdx  int
	world   *aWorld // tables under study, if any
}

func newAeval(p *Program) *aeval {
	e := &aeval{p: p, names: map[string]bool{}, memo: map[string]aval{}, active: map[string]bool{}, subArg: 1}
	e.isRes = func(t types.Type) bool { return t.String() == "helena/core.Result" }
	if o := p.core().Pkg.Scope().Lookup("Result"); o != nil {
		e.resType = o.Type()
		st := o.Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Code":
				e.codeIdx = i
			case "Value":
				e.valIdx = i
			}
		}
	}
	return e
}

func (e *aeval) top(t types.Type) aval {
	if tu, ok := t.(*types.Tuple); ok {
		if tu.Len() == 1 {
			return e.top(tu.At(0).Type())
		}
		out := make(aTuple, tu.Len())
		for i := range out {
			out[i] = e.top(tu.At(i).Type())
		}
		return out
	}
	if e.isRes(t) {
		return aRes{{codeAny, aTop{}}}
	}
	return aTop{}
}

// Value returned by a function on given arguments (joined over its returns)
func (e *aeval) eval(fn *ssa.Function, args []aval, bind []aval) aval {
	res := fn.Signature.Results()
	key := fmt.Sprintf("%p|%s|%s", fn, aKey(aTuple(args)), aKey(aTuple(bind)))
	if len(fn.Blocks) == 0 || e.depth > 8 || fn.Recover != nil {
		e.lost(key, fn)
		return e.top(res)
	}
	if v, ok := e.memo[key]; ok {
		return v
	}
	if e.active[key] || len(e.active) > 40 {
		e.lost(key, fn)
		return e.top(res)
	}
	e.active[key] = true
	e.depth++
	f := &aframe{e: e, fn: fn, vals: map[ssa.Value]aval{}, cells: map[string]aval{}, edges: map[[2]*ssa.BasicBlock]bool{}, live: map[*ssa.BasicBlock]bool{}}
	for i, pa := range fn.Params {
		f.vals[pa] = aval(aTop{})
		if i < len(args) && args[i] != nil {
			f.vals[pa] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		f.vals[fv] = aTop{}
		if i < len(bind) && bind[i] != nil {
			f.vals[fv] = bind[i]
		}
	}
	f.run()
	if e.world != nil {
		e.world.eff[key] = f.effects()
	}
	e.depth--
	delete(e.active, key)
	if f.ret == nil {
		if res.Len() == 0 || f.panics {
			e.memo[key] = nil
			return nil
		}
		return e.top(res)
	}
	e.memo[key] = f.ret
	return f.ret
}

// Tables under study and their contents for the name under study
type aWorld struct {
	stores  map[string]bool      // present?
	null    map[string]bool      // bound, but to no value
	kinds   map[int]int64        // types of arguments
	invalid bool                 // the name is not text
	eff     map[string][]aEffect // effects of evaluations
}

// Write to a table, or call of something that may write to one
type aEffect struct {
	what, key string
	val       aval
	must      bool
	in        ssa.Instruction
}

func (x aEffect) String() string {
	s := x.what
	if x.key != "" {
		s += "[" + x.key + "]"
	}
	if x.val != nil {
		s += "=" + aKey(x.val)
	}
	return s
}

type aframe struct {
	e       *aeval
	fn      *ssa.Function
	vals    map[ssa.Value]aval
	cells   map[string]aval
	edges   map[[2]*ssa.BasicBlock]bool
	live    map[*ssa.BasicBlock]bool
	ret     aval
	panics  bool
	changed bool
	called  map[*ssa.Call]string // evaluations of calls
}

// Evaluation given up
func (e *aeval) lost(key string, fn *ssa.Function) {
	if e.world != nil && e.mayWrite(fn, map[*ssa.Function]bool{}) {
		e.world.eff[key] = []aEffect{{what: "call of " + shortFn(fn)}}
	}
}

func (f *aframe) run() {
	f.live[f.fn.Blocks[0]] = true
	for n := 0; n < 60; n++ {
		f.changed = false
		for _, b := range f.fn.Blocks {
			if f.live[b] {
				f.block(b)
			}
		}
		if !f.changed {
			return
		}
	}
	f.ret = f.e.top(f.fn.Signature.Results())
}

func (f *aframe) set(v ssa.Value, a aval) {
	old := f.vals[v]
	n := aJoin(old, a)
	if aKey(n) != aKey(old) {
		f.vals[v] = n
		f.changed = true
	}
}
func (f *aframe) setCell(k string, a aval) {
	n := aJoin(f.cells[k], a)
	if aKey(n) != aKey(f.cells[k]) {
		f.cells[k] = n
		f.changed = true
	}
}
func (f *aframe) goTo(from, to *ssa.BasicBlock) {
	k := [2]*ssa.BasicBlock{from, to}
	if !f.edges[k] {
		f.edges[k] = true
		f.live[to] = true
		f.changed = true
	}
}

func (f *aframe) get(v ssa.Value) aval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if f.e.isRes(x.Type()) {
				return aRes{{codeOK, aNil{}}}
			}
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				return aSlice{}
			}
			return aNil{}
		}
		switch x.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return n
			}
		case constant.Bool:
			return constant.BoolVal(x.Value)
		case constant.String:
			return constant.StringVal(x.Value)
		}
		return aTop{}
	case *ssa.Function:
		return aFn{fn: x}
	case *ssa.Global:
		return aPtr{"G:" + x.String(), deref(x.Type())}
	}
	return f.vals[v]
}

func (f *aframe) block(b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			for i, p := range b.Preds {
				if f.edges[[2]*ssa.BasicBlock{p, b}] {
					f.set(x, f.get(x.Edges[i]))
				}
			}
		case *ssa.Store:
			if a, ok := f.get(x.Addr).(aPtr); ok {
				if v := f.get(x.Val); v != nil {
					f.setCell(a.cell, v)
				}
			}
		case *ssa.If:
			switch c := f.get(x.Cond).(type) {
			case nil:
			case bool:
				if c {
					f.goTo(b, b.Succs[0])
				} else {
					f.goTo(b, b.Succs[1])
				}
			default:
				f.goTo(b, b.Succs[0])
				f.goTo(b, b.Succs[1])
			}
		case *ssa.Jump:
			f.goTo(b, b.Succs[0])
		case *ssa.Panic:
			f.panics = true
		case *ssa.Return:
			var r aval
			if len(x.Results) == 1 {
				r = f.get(x.Results[0])
			} else {
				t := make(aTuple, len(x.Results))
				for i, v := range x.Results {
					t[i] = f.get(v)
					if t[i] == nil {
						t = nil
						break
					}
				}
				if t != nil {
					r = t
				}
			}
			if r != nil {
				n := aJoin(f.ret, r)
				if aKey(n) != aKey(f.ret) {
					f.ret = n
					f.changed = true
				}
			}
		default:
			if v, ok := in.(ssa.Value); ok {
				if a := f.instr(v); a != nil {
					f.set(v, a)
				} else if c, ok := in.(*ssa.Call); ok && !f.ready(c) {
					return // not reached: the callee does not return
				}
			}
		}
	}
}

// Are the arguments of a call without value known, so that it never returns?
func (f *aframe) ready(c *ssa.Call) bool {
	if c.Call.Signature().Results().Len() == 0 {
		return true
	}
	return f.vals[c] != nil
}

func (f *aframe) instr(v ssa.Value) aval {
	switch x := v.(type) {
	case *ssa.Alloc:
		return aPtr{x.Name(), deref(x.Type())}
	case *ssa.FieldAddr:
		if f.e.world != nil {
			st := deref(x.X.Type()).Underlying().(*types.Struct)
			if k := storeKey(deref(x.X.Type()), st.Field(x.Field).Name()); f.e.world.has(k) {
				if otherInstance(x) {
					return aTop{}
				}
				return aPtr{"S:" + k, deref(x.Type())}
			}
		}
		switch a := f.get(x.X).(type) {
		case nil:
			return nil
		case aPtr:
			st := deref(x.X.Type()).Underlying().(*types.Struct)
			return aPtr{a.cell + "." + st.Field(x.Field).Name(), deref(x.Type())}
		}
		return aTop{}
	case *ssa.IndexAddr:
		base, idx := f.get(x.X), f.get(x.Index)
		if base == nil || idx == nil {
			return nil
		}
		if a, ok := base.(aStore); ok {
			return aPtr{"E:" + string(a), deref(x.Type())}
		}
		i, ok := idx.(int64)
		if !ok {
			return aTop{}
		}
		switch a := base.(type) {
		case aPtr:
			return aPtr{fmt.Sprintf("%s[%d]", a.cell, i), deref(x.Type())}
		case aSlice:
			if i >= 0 && i < int64(len(a)) {
				k := fmt.Sprintf("elem:%s[%d]", x.Name(), i)
				f.cells[k] = a[i]
				return aPtr{k, deref(x.Type())}
			}
		}
		return aTop{}
	case *ssa.Index:
		base, idx := f.get(x.X), f.get(x.Index)
		if base == nil || idx == nil {
			return nil
		}
		if a, ok := base.(aSlice); ok {
			if i, ok := idx.(int64); ok && i >= 0 && i < int64(len(a)) {
				return a[i]
			}
		}
		return f.e.top(x.Type())
	case *ssa.UnOp:
		a := f.get(x.X)
		if a == nil {
			return nil
		}
		switch x.Op {
		case token.MUL:
			if b, ok := a.(aBoxed); ok {
				return b.v
			}
			p, ok := a.(aPtr)
			if !ok {
				return f.e.top(x.Type())
			}
			return f.load(p, x.Type())
		case token.NOT:
			if b, ok := a.(bool); ok {
				return !b
			}
		case token.SUB:
			if n, ok := a.(int64); ok {
				return -n
			}
		}
		return f.e.top(x.Type())
	case *ssa.BinOp:
		l, r := f.get(x.X), f.get(x.Y)
		if l == nil || r == nil {
			return nil
		}
		return f.binop(x, l, r)
	case *ssa.Field:
		a := f.get(x.X)
		if a == nil {
			return nil
		}
		if r, ok := a.(aRes); ok {
			return f.e.field(r, x.Field)
		}
		if g, ok := a.(aGlob); ok {
			st := x.X.Type().Underlying().(*types.Struct)
			return aGlob(string(g) + "." + st.Field(x.Field).Name())
		}
		return f.e.top(x.Type())
	case *ssa.Extract:
		a := f.get(x.Tuple)
		if a == nil {
			return nil
		}
		if t, ok := a.(aTuple); ok && x.Index < len(t) {
			return t[x.Index]
		}
		return f.e.top(x.Type())
	case *ssa.MakeInterface:
		return f.get(x.X)
	case *ssa.ChangeInterface:
		return f.get(x.X)
	case *ssa.ChangeType:
		return f.get(x.X)
	case *ssa.Convert:
		a := f.get(x.X)
		switch a.(type) {
		case nil:
			return nil
		case int64:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return a
			}
		case string:
			if isString(x.Type()) {
				return a
			}
		}
		return aTop{}
	case *ssa.Lookup:
		m, k := f.get(x.X), f.get(x.Index)
		if m == nil || k == nil {
			return nil
		}
		var v aval = aTop{}
		var found aval = aTop{}
		if s, ok := m.(aStore); ok {
			if _, ok := k.(aName); ok {
				v, found = f.e.world.lookup(string(s))
			}
		}
		if x.CommaOk {
			return aTuple{v, found}
		}
		if v == (aTop{}) {
			return f.e.top(x.Type())
		}
		return v
	case *ssa.TypeAssert:
		a := f.get(x.X)
		if a == nil {
			return nil
		}
		if x.CommaOk {
			return aTuple{f.e.top(x.AssertedType), aTop{}}
		}
		return f.e.top(x.Type())
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		c := aFn{fn: fn}
		for _, b := range x.Bindings {
			v := f.get(b)
			if v == nil {
				return nil
			}
			if p, ok := v.(aPtr); ok {
				// captured variable: its contents, if assigned once
				if al, ok := b.(*ssa.Alloc); ok && singleStore(al) != nil {
					if cv := f.cells[p.cell]; cv != nil {
						c.bind = append(c.bind, aBoxed{cv})
						continue
					}
				}
				c.bind = append(c.bind, aTop{})
				continue
			}
			c.bind = append(c.bind, v)
		}
		return c
	case *ssa.Slice:
		return f.slice(x)
	case *ssa.MakeSlice:
		if n, ok := f.get(x.Len).(int64); ok && n >= 0 && n < 64 {
			out := make(aSlice, n)
			for i := range out {
				out[i] = aTop{}
			}
			return out
		}
		if f.get(x.Len) == nil {
			return nil
		}
		return aTop{}
	case *ssa.Call:
		return f.call(x)
	}
	if v.Type() == nil {
		return aTop{}
	}
	return f.e.top(v.Type())
}

// Captured variable known by its contents
type aBoxed struct{ v aval }

func (f *aframe) load(p aPtr, t types.Type) aval {
	if strings.HasPrefix(p.cell, "S:") {
		return aStore(p.cell[2:])
	}
	if strings.HasPrefix(p.cell, "E:") {
		v, _ := f.e.world.lookup(p.cell[2:])
		return v
	}
	if strings.HasPrefix(p.cell, "G:") {
		if v := f.e.globalInit(p.cell); v != nil {
			return v
		}
		if f.e.isRes(t) {
			return f.e.top(t)
		}
		return aGlob(strings.TrimPrefix(p.cell, "G:"))
	}
	if v, ok := f.cells[p.cell]; ok {
		// also assigned by fields?
		if f.e.isRes(t) {
			for _, n := range []string{"Code", "Value"} {
				if f.cells[p.cell+"."+n] != nil {
					return f.e.top(t)
				}
			}
		}
		return v
	}
	// field of a variable assigned as a whole
	if i := strings.LastIndex(p.cell, "."); i >= 0 {
		switch r := f.cells[p.cell[:i]].(type) {
		case aRes:
			st := f.e.resType.Underlying().(*types.Struct)
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == p.cell[i+1:] {
					return f.e.field(r, j)
				}
			}
		case aGlob:
			return aGlob(string(r) + p.cell[i:])
		}
	}
	// built field by field
	if f.e.isRes(t) {
		c, v := f.cells[p.cell+".Code"], f.cells[p.cell+".Value"]
		if c == nil && v == nil {
			return aRes{{codeAny, aTop{}}}
		}
		codes := uint8(codeAny)
		switch n := c.(type) {
		case int64:
			if n >= 0 && n < 7 {
				codes = 1 << n
			}
		case aCode:
			codes = 0
			for _, a := range n.res {
				codes |= a.codes
			}
		}
		if v == nil {
			v = aTop{}
		}
		return aRes{{codes, v}}
	}
	// structure with a single field: known by it
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 1 {
		if v := f.cells[p.cell+"."+st.Field(0).Name()]; v != nil {
			return v
		}
	}
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() < 64 {
		out := make(aSlice, at.Len())
		for i := range out {
			out[i] = aTop{}
			if v := f.cells[fmt.Sprintf("%s[%d]", p.cell, i)]; v != nil {
				out[i] = v
			}
		}
		return out
	}
	return f.e.top(t)
}

func (e *aeval) field(r aRes, i int) aval {
	switch i {
	case e.codeIdx:
		return aCode{r}
	case e.valIdx:
		var v aval
		for _, a := range r {
			v = aJoin(v, a.val)
		}
		return v
	}
	return aTop{}
}

func (f *aframe) binop(x *ssa.BinOp, l, r aval) aval {
	_, ls := l.(aSub)
	_, rs := r.(aSub)
	if ls || rs {
		o := l
		if ls {
			o = r
		}
		if s, ok := o.(string); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
			f.e.names[s] = true
		}
		return f.e.top(x.Type())
	}
	if c, ok := r.(aCode); ok {
		l, r = c, l
	}
	if c, ok := l.(aCode); ok {
		n, ok := r.(int64)
		if !ok || n < 0 || n > 6 || (x.Op != token.EQL && x.Op != token.NEQ) {
			return aTop{}
		}
		var m uint8
		for _, a := range c.res {
			m |= a.codes
		}
		k := uint8(1) << n
		if m&k == 0 {
			return x.Op == token.NEQ
		}
		if m == k {
			return x.Op == token.EQL
		}
		return aTop{}
	}
	switch a := l.(type) {
	case int64:
		b, ok := r.(int64)
		if !ok {
			return aTop{}
		}
		switch x.Op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			if b != 0 {
				return a / b
			}
		case token.REM:
			if b != 0 {
				return a % b
			}
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case string:
		if x.Op == token.ADD {
			if b, ok := r.(string); ok {
				return squeeze(a + b)
			}
			return squeeze(a + unknownText)
		}
		if b, ok := r.(string); ok && !strings.Contains(a+b, unknownText) {
			switch x.Op {
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			}
		}
	case bool:
		if b, ok := r.(bool); ok {
			switch x.Op {
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			}
		}
	case aNil:
		if _, ok := r.(aNil); ok {
			return x.Op == token.EQL
		}
		return f.nilTest(x, r)
	}
	if _, ok := r.(aNil); ok {
		return f.nilTest(x, l)
	}
	if b, ok := r.(string); ok && x.Op == token.ADD {
		return squeeze(unknownText + b)
	}
	if isString(x.Type()) && x.Op == token.ADD {
		return unknownText
	}
	return aTop{}
}

// Arguments and functions are never nil
func (f *aframe) nilTest(x *ssa.BinOp, v aval) aval {
	switch s := v.(type) {
	case aArg, aFn, aBound, string:
		return x.Op == token.NEQ
	case aStore:
		if f.e.world.stores[string(s)] {
			return x.Op == token.NEQ
		}
	}
	return aTop{}
}

func squeeze(s string) string {
	for strings.Contains(s, unknownText+unknownText) {
		s = strings.ReplaceAll(s, unknownText+unknownText, unknownText)
	}
	return s
}

func (f *aframe) slice(x *ssa.Slice) aval {
	a := f.get(x.X)
	if a == nil {
		return nil
	}
	if p, ok := a.(aPtr); ok {
		if at, ok := p.typ.Underlying().(*types.Array); ok {
			a = f.load(p, at)
		}
	}
	s, ok := a.(aSlice)
	if !ok {
		return f.e.top(x.Type())
	}
	lo, hi := int64(0), int64(len(s))
	for i, b := range []ssa.Value{x.Low, x.High} {
		if b == nil {
			continue
		}
		n := f.get(b)
		if n == nil {
			return nil
		}
		k, ok := n.(int64)
		if !ok {
			return aTop{}
		}
		if i == 0 {
			lo = k
		} else {
			hi = k
		}
	}
	if lo < 0 || hi > int64(len(s)) || lo > hi {
		return aTop{}
	}
	return append(aSlice{}, s[lo:hi]...)
}

func (f *aframe) call(c *ssa.Call) aval {
	rt := c.Type()
	var args []aval
	for _, a := range c.Call.Args {
		v := f.get(a)
		if v == nil {
			return nil
		}
		args = append(args, v)
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			switch x := args[0].(type) {
			case aSlice:
				if b.Name() == "len" {
					return int64(len(x))
				}
			case string:
				if b.Name() == "len" && !strings.Contains(x, unknownText) {
					return int64(len(x))
				}
			}
			return aTop{}
		case "append":
			x, ok1 := args[0].(aSlice)
			if len(args) > 1 {
				y, ok2 := args[1].(aSlice)
				if ok1 && ok2 && len(x)+len(y) < 64 {
					return append(append(aSlice{}, x...), y...)
				}
			}
			return aTop{}
		case "min", "max":
			var best aval
			for _, a := range args {
				n, ok := a.(int64)
				if !ok {
					return aTop{}
				}
				if best == nil || (b.Name() == "min") == (n < best.(int64)) {
					best = n
				}
			}
			return best
		}
		return f.e.top(rt)
	}
	if c.Call.IsInvoke() {
		if a, ok := f.get(c.Call.Value).(aArg); ok && f.e.world != nil && c.Call.Method.Name() == "Type" {
			if k, ok := f.e.world.kinds[int(a)]; ok {
				return k
			}
		}
		return f.e.top(rt)
	}
	var fn *ssa.Function
	var bind []aval
	if sc := c.Call.StaticCallee(); sc != nil {
		fn = sc
		if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
			if a, ok := f.get(mc).(aFn); ok {
				bind = a.bind
			}
		}
	} else {
		switch a := f.get(c.Call.Value).(type) {
		case nil:
			return nil
		case aFn:
			fn, bind = a.fn, a.bind
		}
	}
	if fn == nil {
		return f.e.top(rt)
	}
	if m := boundMethod(fn); m != nil && len(bind) == 1 {
		fn, args, bind = m, append([]aval{bind[0]}, args...), nil
	}
	delete(f.called, c)
	if v, ok := f.e.model(fn, args); ok {
		return v
	}
	if v, ok := f.e.conversion(fn, args); ok {
		return v
	}
	if !f.e.p.inModule[fn] || f.e.world == nil && !informative(args) && !f.e.isRes(rt) && !isString(rt) {
		return f.e.top(rt)
	}
	if f.e.world != nil {
		if f.called == nil {
			f.called = map[*ssa.Call]string{}
		}
		f.called[c] = fmt.Sprintf("%p|%s|%s", fn, aKey(aTuple(args)), aKey(aTuple(bind)))
	}
	v := f.e.eval(fn, args, bind)
	if v == nil && fn.Signature.Results().Len() > 0 {
		return nil
	}
	return v
}

func informative(args []aval) bool {
	for _, a := range args {
		switch a.(type) {
		case aTop, aPtr, aGlob:
		default:
			return true
		}
	}
	return false
}

// Functions of the core package known by what they do
func (e *aeval) model(fn *ssa.Function, args []aval) (aval, bool) {
	pk := fnPkg(fn)
	if pk == nil || pk.Path() != "helena/core" || fn.Signature.Recv() != nil {
		return nil, false
	}
	switch fn.Name() {
	case "OK":
		return aRes{{codeOK, args[0]}}, true
	case "ERROR":
		return aRes{{codeERROR, args[0]}}, true
	case "RETURN":
		return aRes{{codeRETURN, args[0]}}, true
	case "YIELD", "YIELD_STATE":
		return aRes{{codeYIELD, args[0]}}, true
	case "BREAK":
		return aRes{{codeBREAK, args[0]}}, true
	case "CONTINUE":
		return aRes{{codeCONTINUE, args[0]}}, true
	case "CUSTOM_RESULT":
		return aRes{{codeCUSTOM, aTop{}}}, true
	case "STR", "NewStringValue":
		return args[0], true
	case "ValueToString", "ValueToStringOrDefault":
		ok := aval(aRes{{codeOK, aTop{}}})
		if a, isArg := args[0].(aArg); isArg && fn.Name() == "ValueToString" {
			if int(a) == e.subArg && e.world != nil && e.world.invalid {
				return aTuple{aRes{{codeERROR, aTop{}}}, ""}, true
			}
			if int(a) == e.subArg && e.sub != nil {
				return aTuple{ok, e.sub}, true
			}
			return aTuple{ok, aTop{}}, true
		}
		return aTuple{aRes{{codeAny, aTop{}}}, aTop{}}, true
	}
	return nil, false
}

// Conversions of arguments are assumed to succeed
func (e *aeval) conversion(fn *ssa.Function, args []aval) (aval, bool) {
	rs := fn.Signature.Results()
	if rs.Len() < 2 || !e.isRes(rs.At(0).Type()) {
		return nil, false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		j := i + len(args) - fn.Signature.Params().Len()
		if _, ok := args[j].(aArg); ok && j >= 0 {
			out := e.top(rs).(aTuple)
			out[0] = aRes{{codeOK, aTop{}}}
			return out, true
		}
	}
	return nil, false
}

// Function or constant a global variable is initialised with and keeps
func (e *aeval) globalInit(cell string) aval {
	if e.p.globalStores == nil {
		e.p.globalStores = map[string][]ssa.Value{}
		for _, fn := range e.p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						k := "G:" + g.String()
						switch x := in.(type) {
						case *ssa.Store:
							if x.Addr == g {
								e.p.globalStores[k] = append(e.p.globalStores[k], x.Val)
								continue
							}
						case *ssa.UnOp:
							continue
						}
						e.p.globalStores[k] = append(e.p.globalStores[k], nil)
					}
				}
			}
		}
	}
	st := e.p.globalStores[cell]
	if len(st) != 1 || st[0] == nil {
		return nil
	}
	switch v := st[0].(type) {
	case *ssa.Function:
		return aFn{fn: v}
	case *ssa.Call:
		if _, ok := v.Type().Underlying().(*types.Signature); !ok {
			return nil
		}
		fn := v.Call.StaticCallee()
		if fn == nil || !e.p.inModule[fn] {
			return nil
		}
		var args []aval
		for _, a := range v.Call.Args {
			var av aval = aTop{}
			switch k := a.(type) {
			case *ssa.Const:
				if isString(k.Type()) && k.Value != nil {
					av = constText(k)
				}
			case *ssa.Function:
				av = aFn{fn: k}
			}
			args = append(args, av)
		}
		if f, ok := e.eval(fn, args, nil).(aFn); ok {
			return f
		}
	}
	return nil
}
