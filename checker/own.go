package main

// Ownership of slices and maps: where they come from, where they are written,
// and where they become part of a value.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type originKind int

const (
	oFresh   originKind = iota // allocated at site
	oParam                     // parameter
	oPayload                   // field of a frozen type
	oGlobal
	oState // field of a structure that may change
	oUnknown
)

type origin struct {
	kind originKind
	site ssa.Value // allocation, parameter or global
	name string    // payload field
}

type originSet map[origin]bool

func (s originSet) addAll(o originSet) {
	for k := range o {
		s[k] = true
	}
}

type own struct {
	p           *Program
	frozen      map[string]bool // struct types that never change once built
	fieldStores map[string][]ssa.Value
	retMemo     map[string]originSet
	memo        map[ssa.Value]originSet
	writes      map[*ssa.Function][]ownWrite
	mutates     map[*ssa.Parameter]*ownWrite // parameter written by the function or its callees
	sinks       map[*ssa.Parameter]*ownSink  // parameter becoming part of a frozen value
	keeps       map[*ssa.Parameter]*ownSink  // parameter kept beyond the call
	busy        map[string]bool
	inPlace     map[string]string // fields of mutable structures whose content is written in place
}

type ownWrite struct {
	in    ssa.Instruction
	v     ssa.Value
	how   string
	via   string
	frame bool // handed over as the frame of another command
}
type ownSink struct {
	in  ssa.Instruction
	v   ssa.Value
	how string
}

func newOwn(p *Program) *own {
	o := &own{p: p, frozen: map[string]bool{}, fieldStores: map[string][]ssa.Value{}, retMemo: map[string]originSet{},
		memo: map[ssa.Value]originSet{}, writes: map[*ssa.Function][]ownWrite{}, mutates: map[*ssa.Parameter]*ownWrite{},
		sinks: map[*ssa.Parameter]*ownSink{}, keeps: map[*ssa.Parameter]*ownSink{}, busy: map[string]bool{}}
	ifaces := []*types.Interface{}
	for _, n := range []string{"Value", "Selector", "Morpheme"} {
		if i := p.coreIface(n); i != nil {
			ifaces = append(ifaces, i)
		}
	}
	var freeze func(t types.Type)
	freeze = func(t types.Type) {
		n, ok := t.(*types.Named)
		if !ok || !p.isModPkg(n.Obj().Pkg()) {
			return
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok || o.frozen[n.String()] {
			return
		}
		o.frozen[n.String()] = true
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			// nested structs stored by value or in slices
			switch u := ft.(type) {
			case *types.Named:
				freeze(u)
			case *types.Slice:
				freeze(u.Elem())
			}
		}
	}
	for _, n := range p.namedT {
		for _, i := range ifaces {
			if types.Implements(n, i) || types.Implements(types.NewPointer(n), i) {
				if isContinuationLike(n) {
					continue
				}
				freeze(n)
			}
		}
	}
	for _, n := range []string{"helena/core.Script", "helena/core.Sentence", "helena/core.Word", "helena/core.WordOrValue"} {
		o.frozen[n] = true
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && sliceOrMap(st.Val.Type()) {
						k := fieldKey(fa)
						o.fieldStores[k] = append(o.fieldStores[k], st.Val)
					}
				}
			}
		}
	}
	o.collect()
	return o
}

// Values that carry state rather than data (pooled continuations): structs with function fields
func isContinuationLike(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (p *Program) coreIface(name string) *types.Interface {
	pk := p.core()
	if pk == nil {
		return nil
	}
	ob := pk.Pkg.Scope().Lookup(name)
	if ob == nil {
		return nil
	}
	i, _ := ob.Type().Underlying().(*types.Interface)
	return i
}

func sliceOrMap(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func fieldKey(fa *ssa.FieldAddr) string {
	t := deref(fa.X.Type())
	return t.String() + "." + fieldName(fa.X.Type(), fa.Field)
}

// Root of an address: the value it is computed from and the first field crossed
func (o *own) addrOrigins(a ssa.Value, seen map[ssa.Value]bool) originSet {
	switch x := a.(type) {
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return o.addrOrigins(x.X, seen) // array
		}
		return o.origins(x.X, seen)
	case *ssa.FieldAddr:
		t := deref(x.X.Type())
		if o.frozen[t.String()] {
			if al := rootAlloc(x.X); al != nil {
				return originSet{origin{kind: oFresh, site: al}: true}
			}
			return originSet{origin{kind: oPayload, name: fieldKey(x)}: true}
		}
		return o.addrOrigins(x.X, seen)
	case *ssa.Alloc:
		return originSet{origin{kind: oFresh, site: x}: true}
	}
	return originSet{origin{kind: oUnknown}: true}
}

// Origins of a slice or map
func (o *own) origins(v ssa.Value, seen map[ssa.Value]bool) originSet {
	if m, ok := o.memo[v]; ok {
		return m
	}
	top := len(seen) == 0
	if seen[v] {
		return originSet{}
	}
	seen[v] = true
	r := o.origins1(v, seen)
	if top {
		o.memo[v] = r
	}
	return r
}

func (o *own) origins1(v ssa.Value, seen map[ssa.Value]bool) originSet {
	r := originSet{}
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.MakeSlice, *ssa.MakeMap:
		r[origin{kind: oFresh, site: v}] = true
	case *ssa.Convert:
		r[origin{kind: oFresh, site: v}] = true
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return o.addrOrigins(x.X, seen)
		}
		return o.origins(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			r.addAll(o.origins(e, seen))
		}
	case *ssa.Parameter:
		r[origin{kind: oParam, site: x}] = true
	case *ssa.FreeVar:
		for _, b := range o.bindings(x) {
			r.addAll(o.origins(b, seen))
		}
	case *ssa.ChangeType:
		return o.origins(x.X, seen)
	case *ssa.TypeAssert:
		return o.origins(x.X, seen)
	case *ssa.MakeInterface:
		return o.origins(x.X, seen)
	case *ssa.Global:
		r[origin{kind: oGlobal, site: x}] = true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return o.load(x.X, seen)
		}
		r[origin{kind: oUnknown}] = true
	case *ssa.Field:
		t := x.X.Type()
		k := t.String() + "." + fieldName(t, x.Field)
		if o.frozen[t.String()] {
			r[origin{kind: oPayload, name: k}] = true
			return r
		}
		r[origin{kind: oState, name: k}] = true
		o.fieldOrigins(k, r, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return o.callOrigins(c, x.Index, seen)
		}
		r[origin{kind: oUnknown}] = true
	case *ssa.Call:
		return o.callOrigins(x, 0, seen)
	default:
		r[origin{kind: oUnknown}] = true
	}
	return r
}

func (o *own) fieldOrigins(k string, r originSet, seen map[ssa.Value]bool) {
	for _, s := range o.fieldStores[k] {
		r.addAll(o.origins(s, seen))
	}
}

func (o *own) bindings(fv *ssa.FreeVar) []ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	var out []ssa.Value
	for _, in := range o.p.makeSites[fn] {
		if mc, ok := in.(*ssa.MakeClosure); ok && idx >= 0 {
			out = append(out, mc.Bindings[idx])
		}
	}
	return out
}

func (o *own) load(addr ssa.Value, seen map[ssa.Value]bool) originSet {
	r := originSet{}
	switch a := addr.(type) {
	case *ssa.Alloc:
		for _, ref := range *a.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
				r.addAll(o.origins(st.Val, seen))
			}
		}
	case *ssa.FreeVar:
		for _, b := range o.bindings(a) {
			r.addAll(o.load(b, seen))
		}
	case *ssa.FieldAddr:
		k := fieldKey(a)
		if al, ok := a.X.(*ssa.Alloc); ok {
			// local structure: what was stored into it
			whole := false
			for _, ref := range *al.Referrers() {
				switch x := ref.(type) {
				case *ssa.FieldAddr:
					if x.Field == a.Field {
						for _, r2 := range *x.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
								r.addAll(o.origins(st.Val, seen))
							}
						}
					}
				case *ssa.Store:
					if _, zero := x.Val.(*ssa.Const); x.Addr == al && !zero {
						whole = true
					}
				}
			}
			if !whole {
				return r
			}
		}
		if o.frozen[deref(a.X.Type()).String()] {
			r[origin{kind: oPayload, name: k}] = true
			return r
		}
		r[origin{kind: oState, name: k}] = true
		o.fieldOrigins(k, r, seen)
	case *ssa.Global:
		r[origin{kind: oGlobal, site: a}] = true
	default:
		r[origin{kind: oUnknown}] = true
	}
	return r
}

func (o *own) callOrigins(c *ssa.Call, idx int, seen map[ssa.Value]bool) originSet {
	r := originSet{}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			r[origin{kind: oFresh, site: c}] = true
			r.addAll(o.origins(c.Call.Args[0], seen))
			return r
		}
		r[origin{kind: oUnknown}] = true
		return r
	}
	callees := o.p.callees(c)
	if len(callees) == 0 {
		if f := c.Call.StaticCallee(); f != nil {
			if pk := stdPath(f); (pk == "slices" || pk == "sort") && len(c.Call.Args) > 0 {
				switch baseName(f) {
				case "Delete", "DeleteFunc", "Insert", "Replace", "Compact", "CompactFunc", "Grow", "Clip":
					r.addAll(o.origins(c.Call.Args[0], seen))
				}
			}
			r[origin{kind: oFresh, site: c}] = true
			return r
		}
		r[origin{kind: oUnknown}] = true
		return r
	}
	for _, f := range callees {
		for og := range o.ret(f, idx) {
			switch og.kind {
			case oParam:
				if pi := paramIndex(f, og.site.(*ssa.Parameter)); pi >= 0 {
					if a := callArg(c, f, pi); a != nil {
						r.addAll(o.origins(a, seen))
						continue
					}
				}
				r[og] = true
			case oFresh:
				r[origin{kind: oFresh, site: c}] = true
			default:
				r[og] = true
			}
		}
	}
	return r
}

// Argument of a call passed as parameter i of callee f (receivers included)
func callArg(c ssa.CallInstruction, f *ssa.Function, i int) ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		i--
	}
	if i < len(cc.Args) {
		return cc.Args[i]
	}
	return nil
}

func paramIndex(f *ssa.Function, p *ssa.Parameter) int {
	for i, x := range f.Params {
		if x == p {
			return i
		}
	}
	return -1
}

func baseName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.Name()
	}
	return f.Name()
}

// Origins of result idx of a function
func (o *own) ret(f *ssa.Function, idx int) originSet {
	k := fmt.Sprintf("%p/%d", f, idx)
	if m, ok := o.retMemo[k]; ok {
		return m
	}
	r := originSet{}
	o.retMemo[k] = r
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok && idx < len(rt.Results) {
				r.addAll(o.origins(rt.Results[idx], map[ssa.Value]bool{}))
			}
		}
	}
	return r
}

// Collect the writes to and the publications of slices and maps
func (o *own) collect() {
	for _, fn := range o.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				add := func(v ssa.Value, how string) {
					o.writes[fn] = append(o.writes[fn], ownWrite{in, v, how, "", false})
				}
				switch x := in.(type) {
				case *ssa.Store:
					a := x.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						break
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						if sliceOrMap(ia.X.Type()) {
							add(ia.X, "element assignment")
						}
					}
				case *ssa.MapUpdate:
					add(x.Map, "map assignment")
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							if noSpareCapacity(x.Call.Args[0]) {
								continue // always reallocates
							}
							add(x.Call.Args[0], "append in place")
						case "copy":
							add(x.Call.Args[0], "copy")
						case "delete":
							add(x.Call.Args[0], "delete")
						case "clear":
							add(x.Call.Args[0], "clear")
						}
						continue
					}
					f := x.Call.StaticCallee()
					if f == nil || fnPkg(f) == nil || len(x.Call.Args) == 0 {
						continue
					}
					switch stdPath(f) {
					case "slices":
						switch baseName(f) {
						case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Delete", "DeleteFunc", "Insert", "Replace", "Compact", "CompactFunc":
							add(x.Call.Args[0], "slices."+baseName(f))
						}
					case "sort":
						switch baseName(f) {
						case "Slice", "SliceStable", "Sort", "Stable", "Strings", "Ints":
							add(x.Call.Args[0], "sort."+baseName(f))
						}
					case "maps":
						switch baseName(f) {
						case "Copy", "DeleteFunc", "Insert", "Clear":
							add(x.Call.Args[0], "maps."+baseName(f))
						}
					}
				}
			}
		}
	}
	o.inPlace = map[string]string{}
	for _, fn := range o.p.funcs {
		for _, w := range o.writes[fn] {
			for og := range o.origins(w.v, map[ssa.Value]bool{}) {
				if og.kind == oState {
					o.inPlace[og.name] = o.p.instrPos(w.in)
				}
			}
		}
	}
	// Parameters written, transitively
	for changed := true; changed; {
		changed = false
		for _, fn := range o.p.funcs {
			mark := func(v ssa.Value, w ownWrite) {
				for og := range o.origins(v, map[ssa.Value]bool{}) {
					if og.kind != oParam {
						continue
					}
					pa := og.site.(*ssa.Parameter)
					if o.mutates[pa] == nil {
						w := w
						o.mutates[pa] = &w
						changed = true
					}
				}
			}
			for _, w := range o.writes[fn] {
				mark(w.v, w)
			}
			o.calls(fn, func(c ssa.CallInstruction, f *ssa.Function, i int, a ssa.Value) {
				if w := o.mutates[f.Params[i]]; w != nil && sliceOrMap(a.Type()) {
					mark(a, ownWrite{c, a, w.how, shortFn(f), o.p.isFrameParam(f.Params[i])})
				}
			})
		}
	}
	// Parameters published or kept, transitively
	for changed := true; changed; {
		changed = false
		for _, fn := range o.p.funcs {
			mark := func(m map[*ssa.Parameter]*ownSink) func(s ownSink) {
				return func(s ownSink) {
					for og := range o.origins(s.v, map[ssa.Value]bool{}) {
						if og.kind != oParam {
							continue
						}
						pa := og.site.(*ssa.Parameter)
						if m[pa] == nil {
							s := s
							m[pa] = &s
							changed = true
						}
					}
				}
			}
			o.publications(fn, mark(o.sinks))
			o.retentions(fn, mark(o.keeps))
		}
	}
}

// Places of a function where a slice is kept beyond the call: stored in a
// structure that isn't a local variable, captured by a closure, stored in a
// map, a global or an element, returned in an interface, or sent.
func (o *own) retentions(fn *ssa.Function, f func(s ownSink)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !sliceOrMap(x.Val.Type()) {
					continue
				}
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					if al := rootAlloc(a); al != nil && !al.Heap {
						continue
					}
					f(ownSink{in, x.Val, "stored in " + fieldKey(a)})
				case *ssa.IndexAddr:
					f(ownSink{in, x.Val, "stored in a container"})
				case *ssa.Global:
					f(ownSink{in, x.Val, "stored in " + a.Name()})
				}
			case *ssa.MakeClosure:
				for _, bd := range x.Bindings {
					if sliceOrMap(bd.Type()) {
						f(ownSink{in, bd, "captured by a closure"})
					} else if al, ok := bd.(*ssa.Alloc); ok && sliceOrMap(deref(al.Type())) {
						for _, ref := range *al.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
								f(ownSink{in, st.Val, "captured by a closure"})
							}
						}
					}
				}
			case *ssa.MapUpdate:
				if sliceOrMap(x.Value.Type()) {
					f(ownSink{in, x.Value, "stored in a map"})
				}
			case *ssa.MakeInterface:
				if sliceOrMap(x.X.Type()) {
					f(ownSink{in, x.X, "converted to an interface"})
				}
			case *ssa.Go, *ssa.Defer:
			}
		}
	}
	o.calls(fn, func(c ssa.CallInstruction, callee *ssa.Function, i int, a ssa.Value) {
		if o.p.isFrameParam(callee.Params[i]) {
			return
		}
		if s := o.keeps[callee.Params[i]]; s != nil && sliceOrMap(a.Type()) {
			f(ownSink{c, a, "passed to " + shortFn(callee) + ", " + s.how})
		}
	})
}

func (o *own) calls(fn *ssa.Function, f func(c ssa.CallInstruction, callee *ssa.Function, i int, a ssa.Value)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, callee := range o.p.callees(c) {
				for i := range callee.Params {
					if a := callArg(c, callee, i); a != nil {
						f(c, callee, i, a)
					}
				}
			}
		}
	}
}

// Places of a function where a slice or map becomes part of a frozen value
func (o *own) publications(fn *ssa.Function, f func(s ownSink)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && sliceOrMap(st.Val.Type()) {
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !o.frozen[deref(fa.X.Type()).String()] {
					continue
				}
				al, ok := fa.X.(*ssa.Alloc)
				if !ok {
					f(ownSink{in, st.Val, "stored in " + fieldKey(fa)})
					continue
				}
				// local structure: published when used as a whole
				for _, ref := range *al.Referrers() {
					switch x := ref.(type) {
					case *ssa.FieldAddr, *ssa.DebugRef:
						continue
					case *ssa.Store:
						if x.Addr == al {
							continue
						}
					}
					f(ownSink{ref, st.Val, "stored in " + fieldKey(fa)})
				}
			}
		}
	}
	o.calls(fn, func(c ssa.CallInstruction, callee *ssa.Function, i int, a ssa.Value) {
		if o.p.isFrameParam(callee.Params[i]) {
			return // handed over as the frame of another command, where the rule applies again
		}
		if s := o.sinks[callee.Params[i]]; s != nil && sliceOrMap(a.Type()) {
			f(ownSink{c, a, "passed to " + shortFn(callee)})
		}
	})
}

func (s originSet) String() string {
	var l []string
	for k := range s {
		switch k.kind {
		case oFresh:
			l = append(l, "fresh")
		case oParam:
			l = append(l, "param "+k.site.Name())
		case oPayload:
			l = append(l, "payload "+k.name)
		case oState:
			l = append(l, "state "+k.name)
		case oGlobal:
			l = append(l, "global "+k.site.Name())
		default:
			l = append(l, "unknown")
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// Is a parameter the argument frame of a command? (method of a command or
// function reachable only with it)
func (p *Program) isFrameParam(pa *ssa.Parameter) bool {
	if !isValueSlice(pa.Type()) {
		return false
	}
	fn := pa.Parent()
	if fn.Signature.Recv() == nil {
		return false
	}
	switch fn.Name() {
	case "Execute", "Help":
	default:
		return false
	}
	i := paramIndex(fn, pa)
	return i == 1
}

// Has a slice no capacity beyond its length?
func noSpareCapacity(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		return x.Max != nil && (x.Max == x.High || sameLen(x.Max, x.High))
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return stdPath(f) == "slices" && baseName(f) == "Clip"
		}
	case *ssa.ChangeType:
		return noSpareCapacity(x.X)
	}
	return false
}
func sameLen(a, b ssa.Value) bool {
	if a == nil || b == nil {
		return false
	}
	if ca, ok := a.(*ssa.Const); ok {
		cb, ok := b.(*ssa.Const)
		return ok && ca.Value.String() == cb.Value.String()
	}
	la, ok1 := a.(*ssa.Call)
	lb, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	ba, ok1 := la.Call.Value.(*ssa.Builtin)
	bb, ok2 := lb.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && ba.Name() == "len" && bb.Name() == "len" && la.Call.Args[0] == lb.Call.Args[0]
}
