package main

// Backward transfer of one instruction (see engine.go)

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func one(c *Cons) ([]*Cons, bool) { return []*Cons{c}, true }

func (q *query) step(it *item, b *ssa.BasicBlock, i int, in ssa.Instruction, c *Cons) ([]*Cons, bool) {
	e := q.e
	ctx := it.ctx
	switch x := in.(type) {
	case *ssa.Store:
		return q.store(ctx, x, c)
	case *ssa.RunDefers:
		return one(e.dropMem(c, e.deferredMods(ctx.fn), true))
	case *ssa.Go:
		return one(e.dropMem(c, nil, false))
	case *ssa.Call:
		return q.call(it, b, i, x, c)
	}
	v, ok := in.(ssa.Value)
	if !ok {
		return one(c)
	}
	t := e.val(ctx, v)
	has := c.leaves()[t]
	switch x := in.(type) {
	case *ssa.Alloc:
		return one(e.allocate(ctx, x, c))
	case *ssa.IndexAddr:
		if has {
			c = e.apply(c, subst{t: e.addr(ctx, x)})
		}
		return one(q.indexFact(ctx, x.X, x.Index, c))
	case *ssa.Index:
		if has && e.enums {
			// Characters of strings never change
			c = e.apply(c, subst{t: e.ts.mk(Term{k: tBin, op: token.LBRACK, a: e.val(ctx, x.X), b: e.val(ctx, x.Index), typ: x.Type()})})
		} else if has {
			c = e.dropVal(c, t)
		}
		return one(q.indexFact(ctx, x.X, x.Index, c))
	case *ssa.TypeAssert:
		xt := e.val(ctx, x.X)
		if x.CommaOk {
			if has {
				c = e.apply(c, subst{t: e.ts.mk(Term{k: tCommaOk, a: xt, typ: x.AssertedType})})
			}
			return one(c)
		}
		if has {
			c = e.apply(c, subst{t: e.mkUnbox(xt, x.AssertedType)})
		}
		if c.leaves()[xt] {
			if _, isI := x.AssertedType.Underlying().(*types.Interface); !isI {
				c = c.clone()
				e.addType(c, TypeAtom{xt, x.AssertedType, false})
			}
		}
		return one(c)
	}
	if !has {
		return one(c)
	}
	switch x := in.(type) {
	case *ssa.BinOp:
		rhs := e.ts.mk(Term{k: tBin, op: x.Op, a: e.val(ctx, x.X), b: e.val(ctx, x.Y), typ: x.X.Type()})
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			if isInteger(x.Type()) {
				return q.arith(ctx, x, t, rhs, c), true
			}
			if x.Op == token.ADD {
				return one(e.apply(c, subst{t: rhs}))
			}
			return one(e.dropVal(c, t))
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return one(e.apply(c, subst{t: rhs}))
		case token.QUO, token.REM:
			if k, ok := x.Y.(*ssa.Const); ok && isInteger(x.Type()) && k.Value != nil && k.Int64() > 0 && k.Int64() < 1<<16 {
				return one(e.apply(c, subst{t: rhs}))
			}
		}
		return one(e.dropVal(c, t))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return one(e.apply(c, subst{t: e.mkMem(e.addr(ctx, x.X))}))
		case token.NOT:
			return one(e.apply(c, subst{t: e.ts.mk(Term{k: tNot, a: e.val(ctx, x.X)})}))
		case token.SUB:
			if isInteger(x.Type()) {
				return one(e.apply(c, subst{t: e.ts.mk(Term{k: tNeg, a: e.val(ctx, x.X)})}))
			}
		}
		return one(e.dropVal(c, t))
	case *ssa.FieldAddr:
		return one(e.apply(c, subst{t: e.addr(ctx, x)}))
	case *ssa.Field:
		return one(e.apply(c, subst{t: e.mkProj(e.val(ctx, x.X), x.Field, x.X.Type())}))
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 && ta.CommaOk {
			if _, ok := c.rels[Rel{t, e.nilT, false}.key()]; ok {
				// A nil outcome means that the assertion failed
				c = c.clone()
				delete(c.rels, Rel{t, e.nilT, false}.key())
				e.addType(c, TypeAtom{e.val(ctx, ta.X), ta.AssertedType, true})
				return one(e.apply(c, subst{t: e.nilT}))
			}
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 && e.optionalElem != nil {
			if _, ok := c.rels[Rel{t, e.nilT, false}.key()]; ok {
				// Entries are never nil: there is none
				c = c.clone()
				delete(c.rels, Rel{t, e.nilT, false}.key())
				e.addRel(c, Rel{e.mkProj(e.val(ctx, l), 1, l.Type()), e.trueT, true})
				return one(e.apply(c, subst{t: e.nilT}))
			}
		}
		return one(e.apply(c, subst{t: e.mkProj(e.val(ctx, x.Tuple), x.Index, x.Tuple.Type())}))
	case *ssa.MakeInterface:
		return one(e.apply(c, subst{t: e.mkBox(e.val(ctx, x.X), x.X.Type())}))
	case *ssa.ChangeInterface:
		return one(e.apply(c, subst{t: e.val(ctx, x.X)}))
	case *ssa.ChangeType:
		return one(e.apply(c, subst{t: e.val(ctx, x.X)}))
	case *ssa.Convert:
		return one(e.convert(ctx, x, t, c))
	case *ssa.Slice:
		s := Term{k: tSlice, a: e.val(ctx, x.X)}
		if x.Low != nil {
			s.b = e.val(ctx, x.Low)
		}
		if x.High != nil {
			s.c = e.val(ctx, x.High)
		}
		c = e.apply(c, subst{t: e.ts.mk(s)})
		// lo <= hi <= len is known from here (strings)
		return one(q.sliceFact(ctx, x, c))
	case *ssa.MakeSlice:
		return one(e.apply(c, subst{t: e.ts.mk(Term{k: tMakeSlice, a: e.val(ctx, x.Len), v: x, ctx: ctx})}))
	case *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan:
		return one(e.fresh(c, t))
	}
	return one(e.dropVal(c, t))
}

func (e *Engine) dropVal(c *Cons, v *Term) *Cons {
	if !c.leaves()[v] {
		return c
	}
	return e.drop(c, func(t *Term) bool { return t == v })
}

// A new object differs from any other one
func (e *Engine) fresh(c *Cons, t *Term) *Cons {
	n := c.clone()
	for k, r := range c.rels {
		if (r.a == t && !r.b.leaf[t]) || (r.b == t && !r.a.leaf[t]) {
			if !r.neq {
				n.false = true
				return n
			}
			delete(n.rels, k)
		}
	}
	n.reset()
	return e.dropVal(n, t)
}

func (e *Engine) allocate(ctx *Ctx, x *ssa.Alloc, c *Cons) *Cons {
	t := e.val(ctx, x)
	if !c.leaves()[t] {
		return c
	}
	// zero values of the fresh memory
	s := subst{}
	et := x.Type().Underlying().(*types.Pointer).Elem()
	for _, m := range e.mems(c) {
		if m.a == t {
			s[m] = e.zeroT(et)
			continue
		}
		// path below the allocation
		base := m.a
		for base.k == tFieldAddr || (base.k == tIndexAddr) {
			base = base.a
		}
		if base == t {
			if tt := e.termType(m); tt != nil {
				s[m] = e.zeroT(tt)
			}
		}
	}
	c = e.apply(c, s)
	return e.fresh(c, t)
}

// All memory terms of the constraints, innermost first
func (e *Engine) mems(c *Cons) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		walk(t.a)
		walk(t.b)
		walk(t.c)
		if t.k == tMem {
			out = append(out, t)
		}
	}
	for _, l := range c.lins {
		for _, t := range l.ts {
			walk(t.t)
		}
	}
	for _, l := range c.nes {
		for _, t := range l.ts {
			walk(t.t)
		}
	}
	for _, r := range c.rels {
		walk(r.a)
		walk(r.b)
	}
	for _, r := range c.tys {
		walk(r.a)
	}
	sort.Slice(out, func(i, j int) bool {
		if len(out[i].key) != len(out[j].key) {
			return len(out[i].key) < len(out[j].key)
		}
		return out[i].key < out[j].key
	})
	return out
}

// Modification keys of the memory designated by an address term
func (e *Engine) addrKey(a *Term) string {
	switch a.k {
	case tFieldAddr:
		return modKeyField(a.typ, a.n)
	case tIndexAddr:
		if t := e.termType(e.mkMem(a)); t != nil {
			return modKeyElem(t)
		}
		return "E:?"
	}
	if t := e.termType(a); t != nil {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return modKeyCell(pt.Elem())
		}
	}
	return "C:?"
}

// Drop memory terms possibly modified; set == nil: everything
func (e *Engine) dropMem(c *Cons, set map[string]bool, keepLocal bool) *Cons {
	if set != nil && len(set) == 0 {
		return c
	}
	return e.drop(c, func(t *Term) bool {
		if t.k != tMem {
			return false
		}
		if b := baseOf(t.a); b.k == tVal {
			if al, ok := b.v.(*ssa.Alloc); ok && !al.Heap && keepLocal {
				return false
			}
		}
		if set == nil {
			return true
		}
		k := e.addrKey(t.a)
		if set[k] || k == "E:?" || k == "C:?" {
			return true
		}
		// whole structs
		if tt := e.termType(t); tt != nil {
			ks := map[string]bool{}
			addStructKeys(ks, tt)
			for k := range ks {
				if set[k] {
					return true
				}
			}
		}
		return false
	})
}

func baseOf(a *Term) *Term {
	for a.k == tFieldAddr || a.k == tIndexAddr {
		a = a.a
	}
	return a
}

func (e *Engine) deferredMods(fn *ssa.Function) map[string]bool {
	set := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				for _, callee := range e.p.callees(d) {
					for k := range e.p.modset(callee) {
						set[k] = true
					}
				}
			}
		}
	}
	return set
}

// -------------------------------------------------------------- facts

func (q *query) near(ts ...*Term) func(c *Cons) bool {
	return func(c *Cons) bool {
		lv := c.leaves()
		for _, t := range ts {
			if t == nil {
				continue
			}
			for l := range t.leaf {
				if lv[l] {
					return true
				}
			}
		}
		return false
	}
}

func (q *query) indexFact(ctx *Ctx, x, idx ssa.Value, c *Cons) *Cons {
	e := q.e
	xt, it := e.val(ctx, x), e.val(ctx, idx)
	if !q.near(it)(c) && !(q.near(xt)(c) && len(c.lins) > 0) {
		return c
	}
	i := e.lin(it)
	n := c.clone()
	// 0 <= i
	n.addLin(LinExpr{}.add(i, -1).le0())
	// i < len
	d := i.add(e.lin(e.mkLen(xt)), -1)
	d.c++
	n.addLin(d.le0())
	return n
}

func (q *query) sliceFact(ctx *Ctx, x *ssa.Slice, c *Cons) *Cons {
	e := q.e
	n := c.clone()
	zero := LinExpr{}
	lo := zero
	if x.Low != nil {
		lo = e.lin(e.val(ctx, x.Low))
		n.addLin(zero.add(lo, -1).le0())
	}
	if x.High != nil {
		hi := e.lin(e.val(ctx, x.High))
		n.addLin(lo.add(hi, -1).le0())
	} else if x.Low != nil {
		n.addLin(lo.add(e.lin(e.mkLen(e.val(ctx, x.X))), -1).le0())
	}
	return n
}

// Integer arithmetic, with the wrapping cases
func (q *query) arith(ctx *Ctx, x *ssa.BinOp, t, rhs *Term, c *Cons) []*Cons {
	e := q.e
	small := func(v ssa.Value) bool {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			i := k.Int64()
			return i > -1<<20 && i < 1<<20
		}
		return isLenLike(v)
	}
	out := []*Cons{e.apply(c, subst{t: rhs})}
	if small(x.X) && small(x.Y) {
		return out
	}
	if x.Op == token.MUL {
		// not bounded
		return append(out, e.dropVal(c, t))
	}
	if !small(x.X) && !small(x.Y) || wideSource(x.X) || wideSource(x.Y) {
		l := e.lin(rhs)
		if len(l.m) == 0 {
			return out
		}
		d := e.dropVal(c, t)
		hi := d.clone()
		h := LinExpr{}.add(l, -1)
		h.c += BIG
		hi.addLin(h.le0())
		lo := d.clone()
		g := LinExpr{}.add(l, 1)
		g.c += BIG
		lo.addLin(g.le0())
		out = append(out, hi, lo)
	}
	return out
}

func isLenLike(v ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			return true
		}
	}
	return false
}

// Values that may come from a script (not loop counters)
func wideSource(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return false
		case *ssa.Phi:
			for _, ed := range x.Edges {
				if walk(ed) {
					return true
				}
			}
			return false
		case *ssa.BinOp:
			return walk(x.X) || walk(x.Y)
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.Next); ok {
				return false
			}
			return true
		case *ssa.Call:
			return !isLenLike(x)
		case *ssa.UnOp, *ssa.Parameter, *ssa.FreeVar, *ssa.Field:
			// int typed counters are assumed not to reach the maximal integer
			// by increments only
			b, ok := x.Type().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Int64
		case *ssa.Convert:
			return walk(x.X)
		}
		return true
	}
	return walk(v)
}

func (e *Engine) convert(ctx *Ctx, x *ssa.Convert, t *Term, c *Cons) *Cons {
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		size := func(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }
		us := fb.Info()&types.IsUnsigned != 0
		ut := tb.Info()&types.IsUnsigned != 0
		if (us == ut && size(tb) >= size(fb)) || (us && !ut && size(tb) > size(fb)) {
			return e.apply(c, subst{t: e.val(ctx, x.X)})
		}
		return e.dropVal(c, t)
	}
	isBytes := func(u types.Type) bool {
		s, ok := u.(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	if ok1 && fb.Info()&types.IsString != 0 && isBytes(to) || ok2 && tb.Info()&types.IsString != 0 && isBytes(from) {
		return e.apply(c, subst{t: e.ts.mk(Term{k: tStr, n: 1, a: e.val(ctx, x.X)})})
	}
	if ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return e.apply(c, subst{t: e.val(ctx, x.X)})
	}
	return e.dropVal(c, t)
}

// -------------------------------------------------------------- stores

func (q *query) store(ctx *Ctx, x *ssa.Store, c *Cons) ([]*Cons, bool) {
	e := q.e
	ms := e.mems(c)
	if len(ms) == 0 {
		return one(c)
	}
	a := e.addr(ctx, x.Addr)
	v := e.val(ctx, x.Val)
	// must alias, including fields of stored structs
	s := subst{}
	for _, m := range ms {
		if r := e.project(m.a, a, v); r != nil {
			s[m] = r
		}
	}
	if len(s) > 0 {
		// nested memory terms: a term inside the address of another one is
		// replaced first by the simultaneous rewriting
		c = e.applyStore(c, s)
		if c.false {
			return one(c)
		}
		ms = e.mems(c)
	}
	done := map[*Term]bool{}
	for _, r := range s {
		// memory terms brought by the stored value itself denote the state before
		var walk func(t *Term)
		walk = func(t *Term) {
			if t == nil {
				return
			}
			if t.k == tMem {
				done[t] = true
			}
			walk(t.a)
			walk(t.b)
			walk(t.c)
		}
		walk(r)
	}
	var may []*Term
	for _, m := range ms {
		if done[m] {
			continue
		}
		if e.mayAlias(m.a, a) {
			may = append(may, m)
		}
	}
	if len(may) == 0 {
		return one(c)
	}
	if len(may) == 1 && may[0].a.k == tFieldAddr && a.k == tFieldAddr && may[0].a.n == a.n {
		m := may[0]
		eq := c.clone()
		e.addRel(eq, Rel{m.a.a, a.a, false})
		eq = e.applyStore(eq, subst{m: v})
		ne := c.clone()
		e.addRel(ne, Rel{m.a.a, a.a, true})
		if eq.false {
			return one(ne)
		}
		if ne.false {
			return one(eq)
		}
		return []*Cons{ne, eq}, true
	}
	if len(may) == 1 && may[0].a.k == tIndexAddr && a.k == tIndexAddr && may[0].a.a == a.a {
		m := may[0]
		d := e.lin(m.a.b).add(e.lin(a.b), -1)
		eq := c.clone()
		eq.addLin(d.le0())
		eq.addLin(LinExpr{}.add(d, -1).le0())
		eq = e.applyStore(eq, subst{m: v})
		ne := c.clone()
		ne.addNe(d.le0Raw())
		return []*Cons{ne, eq}, true
	}
	bad := map[*Term]bool{}
	for _, m := range may {
		bad[m] = true
	}
	return one(e.drop(c, func(t *Term) bool { return bad[t] }))
}

// Value of location m after storing v at a, nil if m isn't inside a
func (e *Engine) project(m, a, v *Term) *Term {
	if m == a {
		return v
	}
	if m.k == tFieldAddr {
		r := e.project(m.a, a, v)
		if r != nil {
			return e.mkProj(r, m.n, m.typ)
		}
	}
	if m.k == tIndexAddr && a.k == tIndexAddr && m.a == a.a {
		d := e.lin(m.b).add(e.lin(a.b), -1)
		if len(d.m) == 0 && d.c == 0 {
			return v
		}
	}
	return nil
}

func (e *Engine) applyStore(c *Cons, s subst) *Cons { return e.apply(c, s) }

func (e *Engine) mayAlias(m, a *Term) bool {
	km, ka := e.addrKey(m), e.addrKey(a)
	mt, at := e.termType(e.mkMem(m)), e.termType(e.mkMem(a))
	if km != ka {
		// one may contain the other
		hit := false
		if mt != nil {
			ks := map[string]bool{}
			addStructKeys(ks, mt)
			hit = hit || ks[ka]
		}
		if at != nil {
			ks := map[string]bool{}
			addStructKeys(ks, at)
			hit = hit || ks[km]
		}
		if mt == nil || at == nil {
			hit = true
		}
		// pointers to fields or elements used as cells
		if !hit && mt != nil && at != nil && types.Identical(mt, at) {
			kindM, kindA := km[0], ka[0]
			if kindM != kindA && (kindM == 'C' || kindA == 'C') {
				hit = true
			}
		}
		if !hit {
			return false
		}
	}
	if m.k == tIndexAddr && a.k == tIndexAddr && m.a == a.a {
		d := e.lin(m.b).add(e.lin(a.b), -1)
		if len(d.m) == 0 {
			return d.c == 0
		}
		return true
	}
	bm, ba := baseOf(m), baseOf(a)
	if bm == ba {
		if bm.k == tVal {
			if _, ok := bm.v.(*ssa.Alloc); ok && m.k == tFieldAddr && a.k == tFieldAddr && m.a == a.a {
				return m.n == a.n
			}
		}
		if m.k == tFieldAddr && a.k == tFieldAddr && m.a == a.a && m.n != a.n {
			return false
		}
		return true
	}
	return !e.distinct(bm, ba)
}

func (e *Engine) distinct(x, y *Term) bool {
	// slices of local arrays
	for x.k == tSlice {
		x = x.a
	}
	for y.k == tSlice {
		y = y.a
	}
	isAlloc := func(t *Term) *ssa.Alloc {
		if t.k == tVal {
			if al, ok := t.v.(*ssa.Alloc); ok {
				return al
			}
		}
		return nil
	}
	ax, ay := isAlloc(x), isAlloc(y)
	if ax != nil && ay != nil {
		return x != y
	}
	if ax == nil && ay == nil {
		if x.k == tVal && y.k == tVal {
			_, gx := x.v.(*ssa.Global)
			_, gy := y.v.(*ssa.Global)
			if gx && gy {
				return x != y
			}
		}
		return false
	}
	if ay != nil {
		x, y = y, x
		ax, ay = ay, ax
	}
	if !ax.Heap {
		return !containsTerm(y, x)
	}
	// parameters and free variables predate the allocation
	if y.k == tVal {
		switch y.v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			for c := x.ctx; c != nil; c = c.parent {
				if c == y.ctx {
					return true
				}
			}
		case *ssa.Global:
			return true
		}
	}
	if y.k == tMem {
		// memory of a parameter read before? unknown
		return false
	}
	return false
}

// -------------------------------------------------------------- calls

func (q *query) call(it *item, b *ssa.BasicBlock, i int, x *ssa.Call, c *Cons) ([]*Cons, bool) {
	e := q.e
	ctx := it.ctx
	t := e.val(ctx, x)
	has := c.leaves()[t]
	cc := x.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			if has {
				c = e.apply(c, subst{t: e.mkLen(e.val(ctx, cc.Args[0]))})
			}
			return one(c)
		case "append":
			if has {
				ap := Term{k: tAppend, a: e.val(ctx, cc.Args[0]), b: e.nilT}
				if len(cc.Args) > 1 {
					ap.b = e.val(ctx, cc.Args[1])
				}
				c = e.apply(c, subst{t: e.ts.mk(ap)})
			}
			return one(c)
		case "min", "max":
			if !has {
				return one(c)
			}
			if !isInteger(x.Type()) {
				return one(e.dropVal(c, t))
			}
			var forks []*Cons
			for k, a := range cc.Args {
				at := e.val(ctx, a)
				n := e.apply(c, subst{t: at}).clone()
				for j, o := range cc.Args {
					if j == k {
						continue
					}
					d := e.lin(at).add(e.lin(e.val(ctx, o)), -1) // a - o
					if bi.Name() == "max" {
						d = LinExpr{}.add(d, -1)
					}
					n.addLin(d.le0())
				}
				forks = append(forks, n)
			}
			return forks, true
		case "copy", "clear":
			set := map[string]bool{}
			if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
				set[modKeyElem(sl.Elem())] = true
				addStructKeys(set, sl.Elem())
			}
			if has {
				c = e.dropVal(c, t)
			}
			return one(e.dropMem(c, set, false))
		case "ssa:wrapnilchk":
			if has {
				c = e.apply(c, subst{t: e.val(ctx, cc.Args[0])})
			}
			return one(c)
		}
		if has {
			c = e.dropVal(c, t)
		}
		return one(c)
	}
	if cc.IsInvoke() && cc.Method.Name() == "Type" && e.p.tagOf(cc.Value.Type()) != nil {
		if has {
			c = e.apply(c, subst{t: e.mkTypeOf(e.val(ctx, cc.Value), cc.Value.Type())})
		}
		return one(c)
	}
	callee := cc.StaticCallee()
	if callee == nil && cc.IsInvoke() {
		if mi, ok := cc.Value.(*ssa.MakeInterface); ok {
			callee = e.p.methodOf(mi.X.Type(), cc.Method.Name())
		} else if iface, ok := cc.Value.Type().Underlying().(*types.Interface); ok {
			if impls := e.p.impls(iface, cc.Method); len(impls) == 1 && e.p.isModPkg(cc.Method.Pkg()) {
				callee = impls[0]
			}
		}
		if callee != nil && callee.Signature.Recv() == nil {
			callee = nil
		}
	}
	if callee != nil {
		if sp := q.special(ctx, x, callee, t, c); sp != nil {
			return one(sp)
		}
	}
	if callee != nil && e.p.inModule[callee] {
		hit := has
		if !hit {
			hit = e.memHit(c, e.p.modset(callee))
		}
		if !hit {
			return one(c)
		}
		rec := false
		for k := ctx; k != nil; k = k.parent {
			if k.fn == callee {
				rec = true
			}
		}
		if !rec && ctx.depth < e.maxDepth && (q.inline == nil || q.inline(ctx, x, c)) {
			q.enter(it, b, i, x, callee, c)
			return nil, false
		}
		if has {
			c = e.dropVal(c, t)
		}
		return one(e.dropMem(c, e.p.modset(callee), true))
	}
	// unknown or external callee
	forks := []*Cons{c}
	if has {
		forks = e.external(ctx, x, callee, t, c)
	}
	set := map[string]bool{}
	for _, f := range e.p.callees(x) {
		for k := range e.p.modset(f) {
			set[k] = true
		}
	}
	if callee != nil || cc.IsInvoke() {
		for _, a := range cc.Args {
			switch u := a.Type().Underlying().(type) {
			case *types.Slice:
				if callee != nil && readOnlyExternal(callee) {
					continue
				}
				set[modKeyElem(u.Elem())] = true
			case *types.Pointer:
				if n, ok := u.Elem().(*types.Named); ok && e.p.isModPkg(n.Obj().Pkg()) {
					set[modKeyCell(u.Elem())] = true
					addStructKeys(set, u.Elem())
				}
			case *types.Signature:
				for _, f := range e.p.funcsOfSig(u) {
					for k := range e.p.modset(f) {
						set[k] = true
					}
				}
			}
		}
	}
	for i := range forks {
		forks[i] = e.dropMem(forks[i], set, true)
	}
	return forks, true
}

func readOnlyExternal(f *ssa.Function) bool {
	pk := fnPkg(f)
	if pk == nil {
		return false
	}
	switch pk.Path() {
	case "strings", "fmt", "strconv", "errors", "os", "unicode", "unicode/utf8", "log/slog", "regexp":
		return true
	}
	return false
}

// Facts on external functions
func (e *Engine) external(ctx *Ctx, x *ssa.Call, callee *ssa.Function, t *Term, c *Cons) []*Cons {
	if callee != nil {
		switch callee.String() {
		case "(*sync.Pool).Get":
			// the elements of a pool have the type made by its New function
			// when nothing else is put in it (checked by the pool rules)
			if g := poolGlobal(x.Call.Args[0]); g != nil {
				if pt := e.p.pools()[g]; pt != nil && pt.elem != nil {
					n := c.clone()
					e.addType(n, TypeAtom{t, pt.elem, false})
					e.addRel(n, Rel{t, e.nilT, true})
					if e.inconsistent(n) {
						n.false = true
						return []*Cons{n}
					}
				}
			}
		case "(*regexp.Regexp).FindStringIndex":
			// nil or a pair of indexes
			two, none := c.clone(), c.clone()
			l := e.lin(e.mkLen(t))
			eq := func(n *Cons, k int64) {
				d := LinExpr{}.add(l, 1)
				d.c -= k
				n.addLin(d.le0())
				n.addLin(LinExpr{}.add(d, -1).le0())
			}
			eq(two, 2)
			e.addRel(two, Rel{t, e.nilT, true})
			eq(none, 0)
			e.addRel(none, Rel{t, e.nilT, false})
			return []*Cons{e.dropChecked(two, t), e.dropChecked(none, t)}
		case "(*regexp.Regexp).FindAllStringIndex":
			// array of pairs
			n := c.clone()
			for _, m := range e.mems(c) {
				if m.a.k == tIndexAddr && m.a.a == t {
					d := e.lin(e.mkLen(m))
					d.c -= 2
					n.addLin(d.le0())
					n.addLin(LinExpr{}.add(d, -1).le0())
				}
			}
			return []*Cons{e.dropChecked(n, t)}
		}
	}
	return []*Cons{e.dropVal(c, t)}
}

func (e *Engine) dropChecked(c *Cons, t *Term) *Cons {
	if e.inconsistent(c) {
		c.false = true
		return c
	}
	return e.dropVal(c, t)
}

func poolGlobal(v ssa.Value) *ssa.Global {
	g, _ := v.(*ssa.Global)
	return g
}

// Global initialised with a composite literal built in v, or v itself
func litPool(v ssa.Value, want *ssa.Global) *ssa.Global {
	if g := poolGlobal(v); g != nil {
		return g
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out *ssa.Global
	for _, r := range *al.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok {
			continue
		}
		for _, r2 := range *u.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Val == u {
				g := poolGlobal(st.Addr)
				if g == nil || want != nil && g != want {
					return nil
				}
				out = g
			}
		}
	}
	return out
}

type poolInfo struct {
	g    *ssa.Global
	elem types.Type // type of the elements, nil if not uniform
	news []*ssa.Function
	gets []*ssa.Call
	puts []ssa.CallInstruction
}

// Global pools and the type of their elements
func (p *Program) pools() map[*ssa.Global]*poolInfo {
	if p.poolMap != nil {
		return p.poolMap
	}
	m := map[*ssa.Global]*poolInfo{}
	for _, pk := range p.prog.AllPackages() {
		if !p.isModPkg(pk.Pkg) {
			continue
		}
		for _, mem := range pk.Members {
			g, ok := mem.(*ssa.Global)
			if ok && g.Type().(*types.Pointer).Elem().String() == "sync.Pool" {
				m[g] = &poolInfo{g: g}
			}
		}
	}
	bad := map[*ssa.Global]bool{}
	merge := func(pi *poolInfo, t types.Type) {
		if pi.elem == nil {
			pi.elem = t
		} else if !types.Identical(pi.elem, t) {
			bad[pi.g] = true
		}
	}
	boxed := func(v ssa.Value) types.Type {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			return mi.X.Type()
		}
		return nil
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					f := x.Common().StaticCallee()
					if f == nil || len(x.Common().Args) == 0 {
						continue
					}
					g := poolGlobal(x.Common().Args[0])
					if g == nil || m[g] == nil {
						continue
					}
					switch f.String() {
					case "(*sync.Pool).Get":
						if c, ok := in.(*ssa.Call); ok {
							m[g].gets = append(m[g].gets, c)
						}
					case "(*sync.Pool).Put":
						m[g].puts = append(m[g].puts, x)
						if t := boxed(x.Common().Args[1]); t != nil {
							merge(m[g], t)
						} else {
							bad[g] = true
						}
					default:
						bad[g] = true
					}
				case *ssa.Store:
					if g := poolGlobal(x.Addr); g != nil && m[g] != nil {
						if u, ok := x.Val.(*ssa.UnOp); !ok || litPool(u.X, g) == nil {
							bad[g] = true
						}
						continue
					}
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					g := litPool(fa.X, nil)
					if g == nil || m[g] == nil {
						continue
					}
					if fieldName(fa.X.Type(), fa.Field) != "New" {
						bad[g] = true
						continue
					}
					var nf *ssa.Function
					switch v := x.Val.(type) {
					case *ssa.Function:
						nf = v
					case *ssa.MakeClosure:
						nf = v.Fn.(*ssa.Function)
					}
					if nf == nil {
						bad[g] = true
						continue
					}
					m[g].news = append(m[g].news, nf)
					for _, nb := range nf.Blocks {
						for _, ni := range nb.Instrs {
							if r, ok := ni.(*ssa.Return); ok {
								if t := boxed(r.Results[0]); t != nil {
									merge(m[g], t)
								} else {
									bad[g] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for g, pi := range m {
		if bad[g] || len(pi.news) != 1 {
			pi.elem = nil
		}
	}
	p.poolMap = m
	return m
}

// Functions of the module given by axioms
func (q *query) special(ctx *Ctx, x *ssa.Call, callee *ssa.Function, t *Term, c *Cons) *Cons {
	return nil
}

func (e *Engine) memHit(c *Cons, set map[string]bool) bool {
	if len(set) == 0 {
		return false
	}
	for _, m := range e.mems(c) {
		if b := baseOf(m.a); b.k == tVal {
			if al, ok := b.v.(*ssa.Alloc); ok && !al.Heap {
				continue
			}
		}
		k := e.addrKey(m.a)
		if set[k] || k == "E:?" || k == "C:?" {
			return true
		}
		if tt := e.termType(m); tt != nil {
			ks := map[string]bool{}
			addStructKeys(ks, tt)
			for k := range ks {
				if set[k] {
					return true
				}
			}
		}
	}
	return false
}

// Continue at the returns of a static callee
func (q *query) enter(it *item, b *ssa.BasicBlock, i int, x *ssa.Call, callee *ssa.Function, c *Cons) {
	e := q.e
	nctx := e.mkCtx(it.ctx, x, callee)
	t := e.val(it.ctx, x)
	h := &hist{up: it.hist, ctx: it.ctx, block: nil, c: c}
	_ = h
	for _, cb := range callee.Blocks {
		if len(cb.Instrs) == 0 {
			continue
		}
		r, ok := cb.Instrs[len(cb.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if cb.Index != 0 && len(cb.Preds) == 0 && callee.Recover != cb {
			continue
		}
		if e.optionalElem != nil && callee.Recover == cb && len(r.Results) > 1 {
			continue // Absent along with an error
		}
		s := subst{}
		if len(r.Results) == 1 {
			s[t] = e.val(nctx, r.Results[0])
		} else {
			for k, rv := range r.Results {
				s[e.mkProj(t, k, x.Type())] = e.val(nctx, rv)
			}
		}
		n := e.apply(c, s)
		n = e.dropVal(n, t)
		if n.false {
			continue
		}
		q.push(&item{ctx: nctx, block: cb, idx: len(cb.Instrs) - 1, c: n, prev: &item{ctx: it.ctx, block: b, idx: i, c: c, prev: it.prev}, hist: it.hist})
	}
}

var _ = constant.MakeBool
