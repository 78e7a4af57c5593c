package main

// Demand-driven backward dataflow analysis over SSA.
//
// A query is a program point and a conjunction of atoms (linear inequalities,
// equalities, dynamic types) describing the offending states at this point.
// The analysis propagates the conjunction backward along the control flow
// graph, substituting definitions, adding branch conditions, entering static
// callees (call strings) and continuing into callers, until all the paths are
// contradictory (the offending states are unreachable: obligation discharged)
// or an entry point of the program is reached with consistent constraints
// (obligation not discharged). Every approximation drops atoms, i.e. enlarges
// the set of offending states. Loops are handled by subsumption against the
// sets already visited at the same point, with widening (dropping of unstable
// atoms). No solver: contradictions are found by Fourier-Motzkin elimination
// on the linear part, and by congruence/type tables on the rest.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	p        *Program
	ts       *terms
	ctxs     map[string]*Ctx
	maxDepth int
	budget   int

	// assume-guarantee contracts of roots
	contract func(e *Engine, fn *ssa.Function, c *Cons)
	// forced outcome for call results, when set
	trueT, falseT, nilT *Term
	enums               bool                    // take the ranges of enumerated types into account
	optionalElem        func(field string) bool // nil analysis: may elements be nil?
	steps               int
	work                int // elimination steps, bounded per query
	numMemo             map[string]bool
	loops               map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	srcLeaves           map[ssa.Value]map[ssa.Value]bool
}

func newEngine(p *Program) *Engine {
	e := &Engine{p: p, ts: newTerms(), ctxs: map[string]*Ctx{}, maxDepth: 8, budget: 4000,
		srcLeaves: map[ssa.Value]map[ssa.Value]bool{}, numMemo: map[string]bool{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	e.trueT = e.constT(constant.MakeBool(true), types.Typ[types.Bool])
	e.falseT = e.constT(constant.MakeBool(false), types.Typ[types.Bool])
	e.nilT = e.ts.mk(Term{k: tConst})
	e.contract = defaultContract
	return e
}

func (e *Engine) rootCtx(fn *ssa.Function) *Ctx {
	return e.mkCtx(nil, nil, fn)
}
func (e *Engine) mkCtx(parent *Ctx, call ssa.CallInstruction, fn *ssa.Function) *Ctx {
	k := ""
	d := 0
	if parent != nil {
		k = fmt.Sprintf("%d/%d/%d", parent.id, e.ts.id(call), e.ts.id(fn))
		d = parent.depth + 1
	} else {
		k = fmt.Sprintf("r%d", e.ts.id(fn))
	}
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	c := &Ctx{parent: parent, call: call, fn: fn, depth: d, id: len(e.ctxs) + 1}
	e.ctxs[k] = c
	return c
}

// ---------------------------------------------------------------- terms

func (e *Engine) constT(v constant.Value, t types.Type) *Term {
	return e.ts.mk(Term{k: tConst, cv: v})
}
func (e *Engine) intT(i int64) *Term { return e.constT(constant.MakeInt64(i), nil) }

func (e *Engine) zeroT(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.falseT
		case u.Info()&types.IsInteger != 0:
			return e.intT(0)
		case u.Info()&types.IsString != 0:
			return e.constT(constant.MakeString(""), nil)
		case u.Info()&types.IsFloat != 0:
			return e.constT(constant.MakeFloat64(0), nil)
		}
		return e.nilT
	case *types.Struct, *types.Array:
		return e.ts.mk(Term{k: tZero, typ: t})
	}
	return e.nilT
}

func (e *Engine) val(ctx *Ctx, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.zeroT(x.Type())
		}
		return e.constT(x.Value, x.Type())
	case *ssa.Function:
		return e.ts.mk(Term{k: tVal, v: v, typ: v.Type()})
	case *ssa.Global:
		return e.ts.mk(Term{k: tVal, v: v, typ: v.Type()})
	}
	return e.ts.mk(Term{k: tVal, ctx: ctx, v: v, typ: v.Type()})
}

// Structural address term
func (e *Engine) addr(ctx *Ctx, v ssa.Value) *Term {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		return e.mkFieldAddr(e.addr(ctx, a.X), a.Field, a.X.Type())
	case *ssa.IndexAddr:
		return e.ts.mk(Term{k: tIndexAddr, a: e.addr(ctx, a.X), b: e.val(ctx, a.Index)})
	}
	return e.val(ctx, v)
}
func (e *Engine) mkFieldAddr(base *Term, n int, bt types.Type) *Term {
	if pt, ok := bt.Underlying().(*types.Pointer); ok {
		bt = pt.Elem()
	}
	return e.ts.mk(Term{k: tFieldAddr, a: base, n: n, typ: bt})
}
func (e *Engine) mkMem(a *Term) *Term {
	return e.ts.mk(Term{k: tMem, a: a})
}
func (e *Engine) mkProj(a *Term, n int, st types.Type) *Term {
	switch a.k {
	case tMem:
		if st != nil {
			return e.mkMem(e.mkFieldAddr(a.a, n, st))
		}
	case tZero:
		if s, ok := a.typ.Underlying().(*types.Struct); ok {
			return e.zeroT(s.Field(n).Type())
		}
	case tCommaOk:
		if n == 0 {
			return e.mkUnbox(a.a, a.typ)
		}
		return e.ts.mk(Term{k: tIsT, a: a.a, typ: a.typ})
	}
	return e.ts.mk(Term{k: tProj, a: a, n: n, typ: st})
}
func (e *Engine) mkUnbox(a *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return a
	}
	if a.k == tBox && types.Identical(a.typ, t) {
		return a.a
	}
	return e.ts.mk(Term{k: tUnbox, a: a, typ: t})
}
func (e *Engine) mkBox(a *Term, t types.Type) *Term {
	if a.k == tUnbox && types.Identical(a.typ, t) {
		return a.a
	}
	return e.ts.mk(Term{k: tBox, a: a, typ: t})
}
func (e *Engine) mkTypeOf(a *Term, it types.Type) *Term {
	if a.k == tBox {
		if ti := e.p.tagOf(it); ti != nil {
			if c, ok := ti.code[a.typ.String()]; ok {
				return e.intT(c)
			}
		}
	}
	return e.ts.mk(Term{k: tTypeOf, a: a, typ: it})
}
func (e *Engine) mkLen(a *Term) *Term {
	return e.ts.mk(Term{k: tLen, a: a})
}

func (e *Engine) termType(t *Term) types.Type {
	switch t.k {
	case tVal:
		return t.v.Type()
	case tUnbox, tZero:
		return t.typ
	case tMem:
		switch t.a.k {
		case tFieldAddr:
			if st, ok := t.a.typ.Underlying().(*types.Struct); ok && t.a.n < st.NumFields() {
				return st.Field(t.a.n).Type()
			}
		case tIndexAddr:
			bt := e.termType(t.a.a)
			if bt == nil {
				return nil
			}
			switch u := bt.Underlying().(type) {
			case *types.Slice:
				return u.Elem()
			case *types.Pointer:
				if ar, ok := u.Elem().Underlying().(*types.Array); ok {
					return ar.Elem()
				}
			}
		case tVal:
			if pt, ok := t.a.v.Type().Underlying().(*types.Pointer); ok {
				return pt.Elem()
			}
		}
	case tProj:
		if t.typ != nil {
			if st, ok := t.typ.Underlying().(*types.Struct); ok && t.n < st.NumFields() {
				return st.Field(t.n).Type()
			}
			if tp, ok := t.typ.(*types.Tuple); ok && t.n < tp.Len() {
				return tp.At(t.n).Type()
			}
		}
	case tSlice, tAppend:
		return e.termType(t.a)
	}
	return nil
}

// Linear form of an integer term
func (e *Engine) lin(t *Term) LinExpr {
	one := func() LinExpr { return LinExpr{m: map[*Term]int64{t: 1}} }
	switch t.k {
	case tConst:
		if t.cv != nil && t.cv.Kind() == constant.Int {
			if i, ok := constant.Int64Val(t.cv); ok {
				if i > BIG {
					i = BIG
				}
				if i < -BIG {
					i = -BIG
				}
				return LinExpr{c: i}
			}
		}
		return one()
	case tNeg:
		return LinExpr{}.add(e.lin(t.a), -1)
	case tBin:
		switch t.op {
		case token.ADD:
			return e.lin(t.a).add(e.lin(t.b), 1)
		case token.SUB:
			return e.lin(t.a).add(e.lin(t.b), -1)
		case token.MUL:
			x, y := e.lin(t.a), e.lin(t.b)
			if len(x.m) == 0 && abs64(x.c) < 1<<16 {
				return LinExpr{}.add(y, x.c)
			}
			if len(y.m) == 0 && abs64(y.c) < 1<<16 {
				return LinExpr{}.add(x, y.c)
			}
		}
	case tLen:
		switch t.a.k {
		case tConst:
			if t.a.cv != nil && t.a.cv.Kind() == constant.String {
				return LinExpr{c: int64(len(constant.StringVal(t.a.cv)))}
			}
			return LinExpr{c: 0}
		case tZero:
			return LinExpr{c: 0}
		case tMakeSlice:
			return e.lin(t.a.a)
		case tAppend:
			return e.lin(e.mkLen(t.a.a)).add(e.lin(e.mkLen(t.a.b)), 1)
		case tBin:
			if t.a.op == token.ADD { // string concatenation
				return e.lin(e.mkLen(t.a.a)).add(e.lin(e.mkLen(t.a.b)), 1)
			}
		case tSlice:
			var hi LinExpr
			if t.a.c != nil {
				hi = e.lin(t.a.c)
			} else {
				hi = e.lin(e.mkLen(t.a.a))
			}
			if t.a.b != nil {
				hi = hi.add(e.lin(t.a.b), -1)
			}
			return hi
		}
		if tt := e.termType(t.a); tt != nil {
			if pt, ok := tt.Underlying().(*types.Pointer); ok {
				tt = pt.Elem()
			}
			if ar, ok := tt.Underlying().(*types.Array); ok {
				return LinExpr{c: ar.Len()}
			}
		}
	}
	return one()
}

// ---------------------------------------------------------------- atoms

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolean(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// Assume boolean term t has value v
func (e *Engine) assume(c *Cons, t *Term, v bool) {
	switch t.k {
	case tConst:
		if t.cv != nil && t.cv.Kind() == constant.Bool {
			if constant.BoolVal(t.cv) != v {
				c.false = true
			}
			return
		}
	case tNot:
		e.assume(c, t.a, !v)
		return
	case tIsT:
		e.addType(c, TypeAtom{t.a, t.typ, !v})
		return
	case tBin:
		op := t.op
		if !v {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			default:
				e.addRel(c, Rel{t, e.trueT, true})
				return
			}
		}
		if t.typ != nil && isInteger(t.typ) {
			d := e.lin(t.a).add(e.lin(t.b), -1) // a - b
			neg := LinExpr{}.add(d, -1)
			switch op {
			case token.EQL:
				c.addLin(d.le0())
				c.addLin(neg.le0())
			case token.NEQ:
				c.addNe(d.le0())
			case token.LSS:
				d.c++
				c.addLin(d.le0())
			case token.LEQ:
				c.addLin(d.le0())
			case token.GTR:
				neg.c++
				c.addLin(neg.le0())
			case token.GEQ:
				c.addLin(neg.le0())
			}
			return
		}
		if t.typ != nil && isBoolean(t.typ) && (op == token.EQL || op == token.NEQ) {
			x, y := t.a, t.b
			if x.k == tConst {
				x, y = y, x
			}
			if y.k == tConst && y.cv != nil {
				e.assume(c, x, constant.BoolVal(y.cv) == (op == token.EQL))
				return
			}
		}
		switch op {
		case token.EQL:
			e.addRel(c, Rel{t.a, t.b, false})
		case token.NEQ:
			e.addRel(c, Rel{t.a, t.b, true})
		}
		// other orderings (strings, floats) are dropped
		return
	}
	e.addRel(c, Rel{t, e.trueT, !v})
}

func (e *Engine) nonNil(t *Term) bool {
	switch t.k {
	case tBox, tFieldAddr, tIndexAddr, tMakeSlice:
		return true
	case tMem:
		// element of a collection
		if e.optionalElem == nil || t.a.k != tIndexAddr {
			return false
		}
		if b := t.a.a; b.k == tMem && b.a.k == tFieldAddr && b.a.typ != nil {
			return !e.optionalElem(modKeyField(b.a.typ, b.a.n))
		}
		return true
	case tVal:
		switch t.v.(type) {
		case *ssa.Alloc, *ssa.Function, *ssa.Global, *ssa.MakeClosure, *ssa.MakeMap:
			return true
		case *ssa.Call:
			return e.optionalElem != nil && isMember(e.p, t.v.(*ssa.Call))
		}
	}
	return false
}

func (e *Engine) addRel(c *Cons, r Rel) {
	if r.a == r.b {
		if r.neq {
			c.false = true
		}
		return
	}
	if r.a.k == tConst && r.a != e.nilT {
		r.a, r.b = r.b, r.a
	}
	// boolean terms compared with true
	if r.b == e.trueT || r.b == e.falseT {
		v := (r.b == e.trueT) != r.neq
		switch r.a.k {
		case tConst, tNot, tIsT, tBin:
			e.assume(c, r.a, v)
			return
		}
		r = Rel{r.a, e.trueT, !v}
		c.rels[r.key()] = r
		c.reset()
		return
	}
	if r.a.k == tConst && r.b.k == tConst {
		eq := r.a == r.b
		if eq == r.neq {
			c.false = true
		}
		return
	}
	for i := 0; i < 2; i++ {
		x, y := r.a, r.b
		if i == 1 {
			x, y = y, x
		}
		if y == e.nilT && e.nonNil(x) {
			if !r.neq {
				c.false = true
			}
			return
		}
	}
	// comparisons of boxed values
	if r.a.k == tBox && r.b.k == tBox {
		if !types.Identical(r.a.typ, r.b.typ) {
			if !r.neq {
				c.false = true
			}
			return
		}
		e.addRel(c, Rel{r.a.a, r.b.a, r.neq})
		return
	}
	// string concatenations can't be equal to shorter constants: ignored
	// distinct allocations
	if r.a.k == tVal && r.b.k == tVal && r.a != r.b {
		_, x := r.a.v.(*ssa.Alloc)
		_, y := r.b.v.(*ssa.Alloc)
		if x && y && r.a.v != r.b.v {
			if !r.neq {
				c.false = true
			}
			return
		}
	}
	c.rels[r.key()] = r
	c.reset()
}

func (e *Engine) implements(t, target types.Type) bool {
	if it, ok := target.Underlying().(*types.Interface); ok {
		return types.Implements(t, it)
	}
	return types.Identical(t, target)
}

func (e *Engine) addType(c *Cons, a TypeAtom) {
	switch a.a.k {
	case tBox:
		if e.implements(a.a.typ, a.t) == a.not {
			c.false = true
		}
		return
	case tConst, tZero:
		if !a.not {
			c.false = true
		}
		return
	}
	if a.not {
		if at := e.termType(a.a); at != nil {
			if _, isI := a.t.Underlying().(*types.Interface); isI {
				if _, srcI := at.Underlying().(*types.Interface); srcI && types.Implements(at, a.t.Underlying().(*types.Interface)) {
					// statically satisfied unless nil
					e.addRel(c, Rel{a.a, e.nilT, false})
					return
				}
			}
		}
	}
	c.tys[a.key()] = a
	c.reset()
}

// ---------------------------------------------------------------- rewriting

type subst map[*Term]*Term

func (e *Engine) touches(t *Term, s subst) bool {
	for k := range s {
		if t.leaf[k] || t == k {
			return true
		}
	}
	return false
}

func (e *Engine) rw(t *Term, s subst, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := s[t]; ok {
		return r
	}
	if t.k == tVal || t.k == tConst || t.k == tZero {
		return t
	}
	if !e.touchesDeep(t, s) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	a, b, c := e.rw(t.a, s, memo), e.rw(t.b, s, memo), e.rw(t.c, s, memo)
	r := e.rebuild(t, a, b, c)
	memo[t] = r
	if q, ok := s[r]; ok {
		return q
	}
	return r
}
func (e *Engine) touchesDeep(t *Term, s subst) bool {
	for k := range s {
		if k.k == tVal {
			if t.leaf[k] {
				return true
			}
		} else {
			if containsTerm(t, k) {
				return true
			}
		}
	}
	return false
}
func containsTerm(t, k *Term) bool {
	if t == nil {
		return false
	}
	if t == k {
		return true
	}
	return containsTerm(t.a, k) || containsTerm(t.b, k) || containsTerm(t.c, k)
}

func (e *Engine) rebuild(t *Term, a, b, c *Term) *Term {
	switch t.k {
	case tLen:
		return e.mkLen(a)
	case tProj:
		return e.mkProj(a, t.n, t.typ)
	case tMem:
		return e.mkMem(a)
	case tFieldAddr:
		return e.mkFieldAddr(a, t.n, t.typ)
	case tUnbox:
		return e.mkUnbox(a, t.typ)
	case tBox:
		return e.mkBox(a, t.typ)
	case tTypeOf:
		return e.mkTypeOf(a, t.typ)
	case tNot:
		if a.k == tConst && a.cv != nil && a.cv.Kind() == constant.Bool {
			if constant.BoolVal(a.cv) {
				return e.falseT
			}
			return e.trueT
		}
	}
	n := *t
	n.a, n.b, n.c = a, b, c
	n.leaf = nil
	return e.ts.mk(n)
}

func (e *Engine) linRw(l Lin, s subst, memo map[*Term]*Term) LinExpr {
	r := LinExpr{c: -l.c, m: map[*Term]int64{}}
	for _, t := range l.ts {
		r = r.add(e.lin(e.rw(t.t, s, memo)), t.k)
	}
	return r
}

func (e *Engine) apply(c *Cons, s subst) *Cons {
	if len(s) == 0 {
		return c
	}
	n := newCons()
	n.false = c.false
	memo := map[*Term]*Term{}
	for k, l := range c.lins {
		hit := false
		for _, t := range l.ts {
			if e.touchesDeep(t.t, s) || s[t.t] != nil {
				hit = true
				break
			}
		}
		if !hit {
			if o, ok := n.lins[k]; !ok || l.c < o.c {
				n.lins[k] = l
			}
			continue
		}
		n.addLin(e.linRw(l, s, memo).le0())
	}
	for k, l := range c.nes {
		hit := false
		for _, t := range l.ts {
			if e.touchesDeep(t.t, s) || s[t.t] != nil {
				hit = true
				break
			}
		}
		if !hit {
			n.nes[k] = l
			continue
		}
		n.addNe(e.linRw(l, s, memo).le0Raw())
	}
	for k, r := range c.rels {
		a, b := e.rw(r.a, s, memo), e.rw(r.b, s, memo)
		if a == r.a && b == r.b {
			n.rels[k] = r
			continue
		}
		e.addRel(n, Rel{a, b, r.neq})
	}
	for k, r := range c.tys {
		a := e.rw(r.a, s, memo)
		if a == r.a {
			n.tys[k] = r
			continue
		}
		e.addType(n, TypeAtom{a, r.t, r.not})
	}
	return n
}

// != constraints can't be divided by their gcd
func (x LinExpr) le0Raw() Lin {
	l := Lin{c: -x.c}
	for t, v := range x.m {
		if v != 0 {
			l.ts = append(l.ts, LinTerm{t, v})
		}
	}
	sortLin(l.ts)
	l.k = linKey(l.ts)
	return l
}

// Drop the atoms satisfying the predicate on terms, projecting linear
// constraints
func (e *Engine) drop(c *Cons, pred func(t *Term) bool) *Cons {
	hit := false
	memo := map[*Term]bool{}
	var deep func(t *Term) bool
	deep = func(t *Term) bool {
		if t == nil {
			return false
		}
		if v, ok := memo[t]; ok {
			return v
		}
		v := pred(t) || deep(t.a) || deep(t.b) || deep(t.c)
		memo[t] = v
		return v
	}
	n := newCons()
	n.false = c.false
	var lins []Lin
	elim := map[*Term]bool{}
	for _, l := range c.lins {
		lins = append(lins, l)
		for _, t := range l.ts {
			if deep(t.t) {
				elim[t.t] = true
				hit = true
			}
		}
	}
	if len(elim) > 0 {
		lins = e.withFacts(lins)
		var ts []*Term
		for t := range elim {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].key < ts[j].key })
		for _, t := range ts {
			lins = e.fmEliminate(lins, t, 40)
		}
	}
	for _, l := range lins {
		n.addLin(l)
	}
	for k, l := range c.nes {
		bad := false
		for _, t := range l.ts {
			if deep(t.t) {
				bad = true
			}
		}
		if !bad {
			n.nes[k] = l
		} else {
			hit = true
		}
	}
	for k, r := range c.rels {
		if deep(r.a) || deep(r.b) {
			hit = true
			continue
		}
		n.rels[k] = r
	}
	for k, r := range c.tys {
		if deep(r.a) {
			hit = true
			continue
		}
		n.tys[k] = r
	}
	if !hit {
		return c
	}
	return n
}

// Implicit facts on the terms of linear constraints
func (e *Engine) withFacts(ls []Lin) []Lin {
	seen := map[*Term]bool{}
	out := append([]Lin{}, ls...)
	for i := 0; i < len(out); i++ {
		l := out[i]
		for _, t := range l.ts {
			if seen[t.t] {
				continue
			}
			seen[t.t] = true
			out = append(out, e.divFacts(t.t)...)
			nonneg := t.t.k == tLen || t.t.k == tTypeOf
			if !nonneg {
				if tt := e.termType(t.t); tt != nil {
					if b, ok := tt.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
						nonneg = true
					}
				}
			}
			if nonneg {
				out = append(out, Lin{ts: []LinTerm{{t.t, -1}}, c: 0})
			}
			if t.t.k == tLen {
				out = append(out, Lin{ts: []LinTerm{{t.t, 1}}, c: 1 << 40})
			}
			if lo, hi, ok := e.enumRange(t.t); ok {
				out = append(out, Lin{ts: []LinTerm{{t.t, 1}}, c: hi}, Lin{ts: []LinTerm{{t.t, -1}}, c: -lo})
			}
		}
	}
	return out
}

// Bounds of a term of an enumerated type
func (e *Engine) enumRange(t *Term) (lo, hi int64, ok bool) {
	if !e.enums {
		return
	}
	tt := e.termType(t)
	if tt == nil {
		return
	}
	r, ok := e.p.enums[tt.String()]
	return r[0], r[1], ok
}

// Enumerated types: consecutive constants, never converted to nor computed
func (p *Program) findEnums() {
	p.enums = map[string][2]int64{}
	for _, pk := range p.prog.AllPackages() {
		if !p.isModPkg(pk.Pkg) {
			continue
		}
		vals := map[string]map[int64]bool{}
		for _, n := range pk.Pkg.Scope().Names() {
			k, ok := pk.Pkg.Scope().Lookup(n).(*types.Const)
			if !ok {
				continue
			}
			nt, ok := k.Type().(*types.Named)
			if !ok || nt.Obj().Pkg() != pk.Pkg || k.Val().Kind() != constant.Int {
				continue
			}
			v, _ := constant.Int64Val(k.Val())
			if vals[nt.String()] == nil {
				vals[nt.String()] = map[int64]bool{}
			}
			vals[nt.String()][v] = true
		}
		for t, vs := range vals {
			lo, hi := int64(1<<62), int64(-1<<62)
			for v := range vs {
				lo, hi = min(lo, v), max(hi, v)
			}
			if lo == 0 && hi-lo+1 == int64(len(vs)) {
				p.enums[t] = [2]int64{lo, hi}
			}
		}
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Convert:
					delete(p.enums, x.Type().String())
				case *ssa.ChangeType:
					delete(p.enums, x.Type().String())
				case *ssa.BinOp:
					delete(p.enums, x.Type().String())
				}
			}
		}
	}
}

// Quotient or remainder of a length by a constant
func (e *Engine) divFacts(t *Term) []Lin {
	if t.k != tBin || t.op != token.QUO && t.op != token.REM || t.b.cv == nil {
		return nil
	}
	x := e.lin(t.a)
	if len(x.m) != 1 || x.c < 0 {
		return nil
	}
	for v, k := range x.m {
		if v.k != tLen || k <= 0 {
			return nil
		}
	}
	k, ok := constant.Int64Val(constant.ToInt(t.b.cv))
	if !ok || k <= 0 {
		return nil
	}
	self := LinExpr{m: map[*Term]int64{t: 1}}
	ge := LinExpr{}.add(self, -1) // 0 <= t
	le := self.add(x, -1)         // t <= x
	out := []Lin{ge.le0(), le.le0()}
	if t.op == token.QUO {
		a := LinExpr{}.add(self, k).add(x, -1) // k t <= x
		b := x.add(self, -k)                   // x <= k t + k - 1
		b.c -= k - 1
		return append(out, a.le0(), b.le0())
	}
	b := self.add(LinExpr{c: k - 1}, -1) // t <= k - 1
	return append(out, b.le0())
}

func (e *Engine) fmEliminate(ls []Lin, t *Term, max int) []Lin {
	var pos, neg, rest []Lin
	coef := func(l Lin) int64 {
		for _, x := range l.ts {
			if x.t == t {
				return x.k
			}
		}
		return 0
	}
	for _, l := range ls {
		switch k := coef(l); {
		case k > 0:
			pos = append(pos, l)
		case k < 0:
			neg = append(neg, l)
		default:
			rest = append(rest, l)
		}
	}
	e.work += len(pos)*len(neg) + len(ls)/4
	if len(pos)*len(neg) > max*4 {
		return rest
	}
	seen := map[string]int{}
	var out []Lin
	push := func(l Lin) {
		k := l.key()
		if i, ok := seen[k]; ok {
			if l.c < out[i].c {
				out[i] = l
			}
			return
		}
		seen[k] = len(out)
		out = append(out, l)
	}
	for _, l := range rest {
		push(l)
	}
	for _, p := range pos {
		for _, q := range neg {
			a, b := coef(p), -coef(q)
			if a > 1<<20 || b > 1<<20 {
				continue
			}
			ex := LinExpr{m: map[*Term]int64{}}
			over := false
			mulc := func(x, k int64) int64 {
				if abs64(x) > (1<<62)/(abs64(k)+1) {
					over = true
				}
				return x * k
			}
			for _, x := range p.ts {
				ex.m[x.t] += mulc(x.k, b)
			}
			for _, x := range q.ts {
				ex.m[x.t] += mulc(x.k, a)
			}
			c1, c2 := mulc(p.c, b), mulc(q.c, a)
			if over || abs64(c1) > 1<<61 || abs64(c2) > 1<<61 {
				continue
			}
			ex.c = -(c1 + c2)
			delete(ex.m, t)
			push(ex.le0())
		}
	}
	return out
}

func (e *Engine) linFalse(ls []Lin) bool {
	ls = e.withFacts(ls)
	for iter := 0; iter < 30; iter++ {
		occ := map[*Term][2]int{}
		for _, l := range ls {
			if len(l.ts) == 0 {
				if l.c < 0 {
					return true
				}
				continue
			}
			for _, t := range l.ts {
				o := occ[t.t]
				if t.k > 0 {
					o[0]++
				} else {
					o[1]++
				}
				occ[t.t] = o
			}
		}
		if len(occ) == 0 {
			return false
		}
		var best *Term
		bestN := 1 << 30
		for t, o := range occ {
			n := o[0]*o[1] - o[0] - o[1]
			if n < bestN || (n == bestN && t.key < best.key) {
				best, bestN = t, n
			}
		}
		ls = e.fmEliminate(ls, best, 400)
		if len(ls) > 300 {
			return false
		}
	}
	return false
}

func (e *Engine) inconsistent(c *Cons) bool {
	if c.false {
		return true
	}
	if len(c.lins)+len(c.nes) > 0 && e.numFalse(c) {
		return true
	}
	// congruence
	if len(c.rels) > 0 {
		if e.relsFalse(c) {
			return true
		}
	}
	return e.typesFalse(c)
}

// Contradiction of the numeric constraints, by connected components
func (e *Engine) numFalse(c *Cons) bool {
	parent := map[*Term]*Term{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		p, ok := parent[t]
		if !ok {
			parent[t] = t
			return t
		}
		if p == t {
			return t
		}
		r := find(p)
		parent[t] = r
		return r
	}
	link := func(l Lin) {
		r := find(l.ts[0].t)
		for _, t := range l.ts[1:] {
			q := find(t.t)
			if q != r {
				parent[q] = r
			}
		}
	}
	for _, l := range c.lins {
		link(l)
	}
	for _, l := range c.nes {
		link(l)
	}
	type comp struct {
		ls, ns []string
	}
	comps := map[*Term]*comp{}
	get := func(l Lin) *comp {
		r := find(l.ts[0].t)
		k := comps[r]
		if k == nil {
			k = &comp{}
			comps[r] = k
		}
		return k
	}
	for k, l := range c.lins {
		g := get(l)
		g.ls = append(g.ls, k)
	}
	for k, l := range c.nes {
		g := get(l)
		g.ns = append(g.ns, k)
	}
	for _, g := range comps {
		sort.Strings(g.ls)
		sort.Strings(g.ns)
		var b []byte
		for _, k := range g.ls {
			b = append(b, k...)
			b = strconv.AppendInt(b, c.lins[k].c, 10)
			b = append(b, ';')
		}
		for _, k := range g.ns {
			b = append(b, k...)
			b = append(b, ';')
		}
		key := string(b)
		r, ok := e.numMemo[key]
		if !ok {
			var ls, ns []Lin
			for _, k := range g.ls {
				ls = append(ls, c.lins[k])
			}
			for _, k := range g.ns {
				ns = append(ns, c.nes[k])
			}
			r = e.compFalse(ls, ns)
			e.numMemo[key] = r
		}
		if r {
			return true
		}
	}
	return false
}

func (e *Engine) compFalse(ls, ns []Lin) bool {
	if len(ns) > 0 {
		// explicit tightening
		m := map[string]int{}
		if e.enums {
			for _, n := range ns {
				for _, t := range n.ts {
					if lo, hi, ok := e.enumRange(t.t); ok {
						ls = append(ls[:len(ls):len(ls)], Lin{ts: []LinTerm{{t.t, 1}}, c: hi}, Lin{ts: []LinTerm{{t.t, -1}}, c: -lo})
					}
				}
			}
		}
		ls = append([]Lin{}, e.withFacts(ls)...)
		for i, l := range ls {
			k := l.key()
			if j, ok := m[k]; !ok || ls[j].c > l.c {
				m[k] = i
			}
		}
		changed := true
		for changed {
			changed = false
			for _, n := range ns {
				if i, ok := m[n.key()]; ok && ls[i].c == n.c {
					ls[i].c--
					changed = true
				}
				neg := n.neg()
				if i, ok := m[neg.key()]; ok && ls[i].c == -n.c {
					ls[i].c--
					changed = true
				}
			}
		}
	}
	if len(ls) > 0 && e.linFalse(ls) {
		return true
	}
	multi := false
	for _, n := range ns {
		if len(n.ts) > 1 {
			multi = true
		}
	}
	for _, l := range ls {
		if len(l.ts) > 1 {
			multi = true
		}
	}
	if len(ns) > 0 && multi {
		return e.nesFalse(ls, ns, 0)
	}
	return false
}

func (e *Engine) nesFalse(ls []Lin, nes []Lin, depth int) bool {
	if depth > 5 {
		return false
	}
	// tighten: for each x != k with x >= k (or <= k) implied, strengthen
	changed := true
	cur := append([]Lin{}, ls...)
	used := make([]bool, len(nes))
	for changed {
		changed = false
		for i, n := range nes {
			if used[i] {
				continue
			}
			lt := Lin{ts: n.ts, c: n.c - 1}
			neg := make([]LinTerm, len(n.ts))
			for j, t := range n.ts {
				neg[j] = LinTerm{t.t, -t.k}
			}
			gt := Lin{ts: neg, c: -n.c - 1}
			noLt := e.linFalse(append(append([]Lin{}, cur...), lt))
			noGt := e.linFalse(append(append([]Lin{}, cur...), gt))
			if noLt && noGt {
				return true
			}
			if noLt {
				cur = append(cur, gt)
				used[i] = true
				changed = true
			} else if noGt {
				cur = append(cur, lt)
				used[i] = true
				changed = true
			}
		}
	}
	return false
}

func (e *Engine) relsFalse(c *Cons) bool {
	parent := map[*Term]*Term{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		if p, ok := parent[t]; ok && p != t {
			r := find(p)
			parent[t] = r
			return r
		}
		return t
	}
	for _, r := range c.rels {
		if !r.neq {
			a, b := find(r.a), find(r.b)
			if a != b {
				// constants are representatives
				if a.k == tConst && b.k == tConst {
					return true
				}
				if a.k == tConst {
					parent[b] = a
				} else {
					parent[a] = b
				}
			}
		}
	}
	for _, r := range c.rels {
		if r.neq && find(r.a) == find(r.b) {
			return true
		}
	}
	for _, r := range c.rels {
		if !r.neq {
			for _, t := range []*Term{r.a, r.b} {
				if e.nonNil(t) && find(t) == e.nilT {
					return true
				}
			}
		}
	}
	return false
}

func (e *Engine) typesFalse(c *Cons) bool {
	if len(c.tys) == 0 {
		hasTypeOf := false
		for _, l := range c.lins {
			for _, t := range l.ts {
				if t.t.k == tTypeOf {
					hasTypeOf = true
				}
			}
		}
		if !hasTypeOf {
			return false
		}
	}
	type info struct {
		is, not []types.Type
		tyOf    *Term
	}
	m := map[*Term]*info{}
	get := func(t *Term) *info {
		if m[t] == nil {
			m[t] = &info{}
		}
		return m[t]
	}
	for _, a := range c.tys {
		i := get(a.a)
		if a.not {
			i.not = append(i.not, a.t)
		} else {
			i.is = append(i.is, a.t)
			if _, ok := c.rels[Rel{a.a, e.nilT, false}.key()]; ok {
				return true
			}
		}
	}
	codes := func(mm map[string]Lin) {
		for _, l := range mm {
			for _, t := range l.ts {
				if t.t.k == tTypeOf {
					get(t.t.a).tyOf = t.t
				}
			}
		}
	}
	codes(c.lins)
	codes(c.nes)
	for t, i := range m {
		// explicit contradictions
		for _, x := range i.is {
			for _, y := range i.not {
				if types.Identical(x, y) {
					return true
				}
				if _, ok := x.Underlying().(*types.Interface); !ok && e.implements(x, y) {
					return true
				}
			}
			for _, y := range i.is {
				_, xi := x.Underlying().(*types.Interface)
				_, yi := y.Underlying().(*types.Interface)
				if !xi && !yi && !types.Identical(x, y) {
					return true
				}
				if !xi && yi && !e.implements(x, y) {
					return true
				}
			}
		}
		// universe of the implementations
		var ti *tagIface
		if i.tyOf != nil {
			ti = e.p.tagOf(i.tyOf.typ)
		} else if ti = e.p.tagOf(e.termType(t)); ti != nil && len(i.is) == 0 {
			// may be nil: the negative atoms alone don't rule nil out
			ti = nil
		}
		if ti == nil {
			continue
		}
		tyOf := i.tyOf
		if tyOf == nil {
			tyOf = e.ts.mk(Term{k: tTypeOf, a: t, typ: ti.t})
		}
		any := false
		try := func(ct types.Type, code int64) {
			for _, x := range i.is {
				if ct == nil {
					if _, isI := x.Underlying().(*types.Interface); !isI {
						return
					}
				} else if !e.implements(ct, x) {
					return
				}
			}
			for _, x := range i.not {
				if ct != nil && e.implements(ct, x) {
					return
				}
			}
			for _, l := range c.lins {
				if len(l.ts) == 1 && l.ts[0].t == tyOf && l.ts[0].k*code > l.c {
					return
				}
			}
			for _, l := range c.nes {
				if len(l.ts) == 1 && l.ts[0].t == tyOf && l.ts[0].k*code == l.c {
					return
				}
			}
			any = true
		}
		for _, ct := range ti.impls {
			if !any {
				try(ct, ti.code[ct.String()])
			}
		}
		for _, code := range ti.open {
			if !any {
				try(nil, code)
			}
		}
		if !any {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- search

type item struct {
	ctx   *Ctx
	block *ssa.BasicBlock
	idx   int
	c     *Cons
	prev  *item // trace
	hist  *hist
	note  string
}
type hist struct {
	up    *hist
	ctx   *Ctx
	block *ssa.BasicBlock
	c     *Cons
}

type Outcome struct {
	proved  bool
	unknown bool // budget exhausted
	trace   []string
	where   *ssa.Function
	cons    string
	steps   int
}

type query struct {
	e      *Engine
	level  int
	stack  []*item
	memo   map[string][]*Cons
	steps  int
	found  *item
	foundC *Cons
	// optional: stop (treat as unreachable) when reaching these blocks/instructions backward
	barrier func(ctx *Ctx, in ssa.Instruction, c *Cons) (stop bool)
	// optional extra handler on entry reached at root
	onRoot func(fn *ssa.Function, c *Cons) bool // true: treat as infeasible
	start  *Ctx
	debug  bool
	inline func(ctx *Ctx, call *ssa.Call, c *Cons) bool // optional restriction of inlining
}

// Solve a query at instruction in (before its execution): is a state
// satisfying c reachable?
func (e *Engine) solve(ctx *Ctx, in ssa.Instruction, c *Cons, mod func(q *query)) Outcome {
	var last Outcome
	for level := -1; level < 2; level++ {
		e.work = 0
		q := &query{e: e, level: level, memo: map[string][]*Cons{}}
		if level < 0 {
			// Most guards are applied to the very value: only follow calls that take it
			q.inline = func(ctx *Ctx, call *ssa.Call, c *Cons) bool {
				leaves := c.leaves()
				for _, a := range call.Call.Args {
					if leaves[e.val(ctx, a)] {
						return true
					}
				}
				return false
			}
		}
		if mod != nil {
			mod(q)
		}
		idx := instrIndex(in)
		q.push(&item{ctx: ctx, block: in.Block(), idx: idx, c: c.clone()})
		q.run()
		last = Outcome{proved: q.found == nil && q.steps < e.budget, unknown: q.steps >= e.budget, steps: q.steps}
		if q.found != nil {
			last.proved = false
			last.unknown = false
			last.cons = q.foundC.String()
			last.where = q.found.ctx.fn
			for it := q.found; it != nil; it = it.prev {
				last.trace = append(last.trace, e.traceLine(it))
			}
		}
		if os.Getenv("QDEBUG") != "" && !last.proved {
			fmt.Fprintln(os.Stderr, "LEVEL", level, in.Parent(), in, "steps", q.steps, "work", e.work, "\n ", strings.Join(last.trace, "\n  "))
		}
		if last.proved {
			return last
		}
	}
	return last
}

func (e *Engine) traceLine(it *item) string {
	pos := "?"
	for k := it.idx; k >= 0 && k <= len(it.block.Instrs); k-- {
		if k < len(it.block.Instrs) && it.block.Instrs[k].Pos().IsValid() {
			pos = e.p.posOf(it.block.Instrs[k].Pos())
			break
		}
	}
	if pos == "?" {
		for _, in := range it.block.Instrs {
			if in.Pos().IsValid() {
				pos = e.p.posOf(in.Pos())
				break
			}
		}
	}
	return fmt.Sprintf("%s (%s b%d) [%s]", pos, shortFn(it.ctx.fn), it.block.Index, it.c)
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (q *query) push(it *item) { q.stack = append(q.stack, it) }

func (q *query) run() {
	for len(q.stack) > 0 && q.found == nil {
		it := q.stack[len(q.stack)-1]
		q.stack = q.stack[:len(q.stack)-1]
		q.steps++
		budget := q.e.budget
		if q.level < 0 {
			budget /= 8
		}
		if q.steps >= budget || q.e.work > budget*500 {
			q.steps = q.e.budget
			return
		}
		q.process(it)
	}
}

func (q *query) reached(it *item, c *Cons) {
	if q.found == nil {
		q.found = it
		q.foundC = c
	}
}

// Walk an item backward to the top of its block
func (q *query) process(it *item) {
	e := q.e
	c := it.c
	if e.inconsistent(c) {
		return
	}
	b := it.block
	for i := it.idx - 1; i >= 0; i-- {
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			break
		}
		if q.barrier != nil && q.barrier(it.ctx, in, c) {
			return
		}
		before := c
		forks, cont := q.step(it, b, i, in, c)
		if !cont {
			return
		}
		for _, f := range forks[1:] {
			q.push(&item{ctx: it.ctx, block: b, idx: i, c: f, prev: it.prev, hist: it.hist})
		}
		c = forks[0]
		if c != before && e.inconsistent(c) {
			return
		}
	}
	q.blockTop(it, b, c)
}

func (q *query) covered(ctx *Ctx, b *ssa.BasicBlock, c *Cons) bool {
	k := fmt.Sprintf("%d/%d/%d", ctx.id, q.e.ts.id(b), 0)
	for _, o := range q.memo[k] {
		if o.subsumes(c) {
			return true
		}
	}
	q.memo[k] = append(q.memo[k], c)
	return false
}

// Linear constraints and their pairwise consequences
func (e *Engine) closure(c *Cons) map[string]Lin {
	if c.cl != nil {
		return c.cl
	}
	out := map[string]Lin{}
	var ls []Lin
	for k, l := range c.lins {
		out[k] = l
		ls = append(ls, l)
	}
	add := func(l Lin) {
		if len(l.ts) == 0 || len(l.ts) > 3 {
			return
		}
		k := l.key()
		if o, ok := out[k]; !ok || l.c < o.c {
			out[k] = l
		}
	}
	for i := range ls {
		for j := range ls {
			if i == j {
				continue
			}
			for _, t := range ls[i].ts {
				if t.k != 1 {
					continue
				}
				for _, u := range ls[j].ts {
					if u.t == t.t && u.k == -1 {
						ex := LinExpr{m: map[*Term]int64{}, c: -ls[i].c - ls[j].c}
						for _, x := range ls[i].ts {
							ex.m[x.t] += x.k
						}
						for _, x := range ls[j].ts {
							ex.m[x.t] += x.k
						}
						add(ex.le0())
					}
				}
			}
		}
	}
	c.cl = out
	return out
}

// Atoms of c that are stable with respect to the previous state
func (e *Engine) widen(c, prev *Cons, n int) *Cons {
	w := newCons()
	cl, pl := e.closure(c), e.closure(prev)
	for k, l := range cl {
		if o, ok := pl[k]; ok && o.c == l.c {
			w.lins[k] = l
		}
	}
	for k, l := range c.nes {
		if _, ok := prev.nes[k]; ok {
			w.nes[k] = l
		}
	}
	for k, r := range c.rels {
		if _, ok := prev.rels[k]; ok {
			w.rels[k] = r
		}
	}
	for k, r := range c.tys {
		if _, ok := prev.tys[k]; ok {
			w.tys[k] = r
		}
	}
	return w
}

// Blocks of the natural loop of header b, nil if b isn't a loop header
func (e *Engine) loopOf(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if l, ok := e.loops[b]; ok {
		return l
	}
	var l map[*ssa.BasicBlock]bool
	for _, p := range b.Preds {
		if !b.Dominates(p) {
			continue
		}
		if l == nil {
			l = map[*ssa.BasicBlock]bool{b: true}
		}
		work := []*ssa.BasicBlock{p}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if l[x] {
				continue
			}
			l[x] = true
			work = append(work, x.Preds...)
		}
	}
	e.loops[b] = l
	return l
}

func (q *query) blockTop(it *item, b *ssa.BasicBlock, c *Cons) {
	e := q.e
	ctx := it.ctx
	// widening at loop headers (within one execution of the loop) and at the
	// entry of recursive functions
	loop := e.loopOf(b)
	if loop != nil || (b.Index == 0 && ctx.parent == nil) {
		n := 0
		var last *hist
		for h := it.hist; h != nil; h = h.up {
			if h.ctx == ctx && loop != nil && !loop[h.block] {
				break // entered the loop from outside
			}
			if h.ctx == ctx && h.block == b {
				if n == 0 {
					last = h
				}
				n++
			}
		}
		if n >= 2 {
			c = e.widen(c, last.c, n)
		}
	}
	if len(b.Preds) > 0 || b.Index == 0 {
		if q.covered(ctx, b, c) {
			return
		}
	}
	h := &hist{up: it.hist, ctx: ctx, block: b, c: c}
	cur := &item{ctx: ctx, block: b, idx: 0, c: c, prev: it, hist: h}
	if b.Index == 0 || (len(b.Preds) == 0) {
		q.entry(cur, b, c)
		if b.Index != 0 {
			return
		}
	}
	for pi, pred := range b.Preds {
		s := subst{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			pt := e.val(ctx, ph)
			s[pt] = e.val(ctx, ph.Edges[pi])
		}
		nc := e.apply(c, s)
		if nc == c {
			nc = c.clone()
		}
		if nc.false {
			continue
		}
		if ifi, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
			taken := pred.Succs[0] == b
			if q.level > 0 || q.relevant(ctx, ifi.Cond, nc) {
				e.assume(nc, e.val(ctx, ifi.Cond), taken)
			}
		}
		if nc.false {
			continue
		}
		q.push(&item{ctx: ctx, block: pred, idx: len(pred.Instrs), c: nc, prev: cur, hist: h})
	}
}

// Leaf sources of a value in its function
func (e *Engine) sources(v ssa.Value) map[ssa.Value]bool {
	if s, ok := e.srcLeaves[v]; ok {
		return s
	}
	s := map[ssa.Value]bool{}
	e.srcLeaves[v] = s
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 12 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
			return
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Alloc:
			s[v] = true
			return
		case *ssa.Phi:
			s[v] = true
			for _, ed := range x.Edges {
				walk(ed, d+1)
			}
			return
		case *ssa.Call:
			s[v] = true
			if x.Call.IsInvoke() {
				walk(x.Call.Value, d+1)
				return
			}
			if _, ok := x.Call.Value.(*ssa.Builtin); ok {
				for _, a := range x.Call.Args {
					walk(a, d+1)
				}
			} else if sc := x.Call.StaticCallee(); sc != nil && e.p.inModule[sc] {
				// guards on the very value
				for _, a := range x.Call.Args {
					s[a] = true
				}
			}
			return
		case *ssa.UnOp:
			s[v] = true
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					walk(*op, d+1)
				}
			}
		}
	}
	walk(v, 0)
	return s
}

func (q *query) relevant(ctx *Ctx, cond ssa.Value, c *Cons) bool {
	return q.relevantTo(ctx, q.e.sources(cond), c)
}

func (q *query) relevantTo(ctx *Ctx, cs map[ssa.Value]bool, c *Cons) bool {
	e := q.e
	if ctx.parent != nil {
		// conditions on parameters bear on the arguments
		up := map[ssa.Value]bool{}
		args := ctx.call.Common().Args
		if ctx.call.Common().IsInvoke() {
			args = append([]ssa.Value{ctx.call.Common().Value}, args...)
		}
		for i, p := range ctx.fn.Params {
			if cs[p] && i < len(args) {
				up[args[i]] = true
			}
		}
		if len(up) > 0 && q.relevantTo(ctx.parent, up, c) {
			return true
		}
	}
	for l := range c.leaves() {
		if l.k != tVal || l.ctx != ctx {
			continue
		}
		if cs[l.v] {
			return true
		}
		for s := range e.sources(l.v) {
			if cs[s] {
				return true
			}
		}
	}
	return false
}

// Function entry reached
func (q *query) entry(it *item, b *ssa.BasicBlock, c *Cons) {
	e := q.e
	ctx := it.ctx
	fn := ctx.fn
	if b.Index != 0 {
		// recover block: nothing is known about the locals
		c = e.drop(c, func(t *Term) bool {
			if t.k == tVal && t.ctx == ctx {
				_, isP := t.v.(*ssa.Parameter)
				return !isP
			}
			return false
		})
	}
	if ctx.parent != nil {
		s := subst{}
		args := ctx.call.Common().Args
		if ctx.call.Common().IsInvoke() {
			args = append([]ssa.Value{ctx.call.Common().Value}, args...)
		}
		for i, p := range fn.Params {
			if i < len(args) {
				s[e.val(ctx, p)] = e.val(ctx.parent, args[i])
			}
		}
		nc := e.apply(c, s)
		// closures called directly
		if len(fn.FreeVars) > 0 {
			if mc, ok := ctx.call.Common().Value.(*ssa.MakeClosure); ok {
				s2 := subst{}
				for i, fv := range fn.FreeVars {
					s2[e.val(ctx, fv)] = e.val(ctx.parent, mc.Bindings[i])
				}
				nc = e.apply(nc, s2)
			}
		}
		nc = e.dropCtx(nc, ctx)
		if nc.false {
			return
		}
		in := ctx.call.(ssa.Instruction)
		q.push(&item{ctx: ctx.parent, block: in.Block(), idx: instrIndex(in), c: nc, prev: it, hist: it.hist})
		return
	}
	q.rootEntry(it, fn, c)
}

func (e *Engine) dropCtx(c *Cons, ctx *Ctx) *Cons {
	return e.drop(c, func(t *Term) bool { return t.k == tVal && t.ctx == ctx })
}

func (q *query) rootEntry(it *item, fn *ssa.Function, c *Cons) {
	e := q.e
	if q.onRoot != nil && q.onRoot(fn, c) {
		return
	}
	nc := c.clone()
	e.contract(e, fn, nc)
	if e.inconsistent(nc) {
		return
	}
	if nc.size() == 0 {
		q.reached(it, nc)
		return
	}
	if e.closedWorld(fn) {
		if fn.Parent() == nil || len(fn.FreeVars) == 0 {
			q.callerEntries(it, fn, nc)
			return
		}
	}
	if q.closureEntry(it, fn, nc) {
		if fn.Parent() == nil {
			q.callerEntries(it, fn, nc)
		}
		return
	}
	q.reached(it, nc)
}

// Simultaneous renaming to the caller, dropping anything else of the callee
func (e *Engine) renameCall(c *Cons, ctx *Ctx, s subst) *Cons {
	params := map[*Term]bool{}
	for k := range s {
		params[k] = true
	}
	n := e.drop(c, func(t *Term) bool { return t.k == tVal && t.ctx == ctx && !params[t] })
	return e.apply(n, s)
}

// Functions whose callers are all known static calls of the module
func (e *Engine) closedWorld(fn *ssa.Function) bool {
	if e.p.addrTaken[fn] || len(e.p.boundSites[fn]) > 0 {
		return false
	}
	if fn.Parent() != nil && len(fn.FreeVars) > 0 {
		return false
	}
	if fn.Parent() != nil {
		return len(e.p.callers[fn]) > 0 && len(e.p.makeSites[fn]) == 0
	}
	if fn.Signature.Recv() != nil && e.p.dynamicMethod(fn) {
		return false
	}
	return len(e.p.callers[fn]) > 0
}

var dynCache = map[*ssa.Function]bool{}

// Method implementing a method of an interface of the module (may be invoked
// dynamically)
func (p *Program) dynamicMethod(fn *ssa.Function) bool {
	if r, ok := dynCache[fn]; ok {
		return r
	}
	if fn.Signature.Recv() == nil {
		return false
	}
	recv := fn.Signature.Recv().Type()
	for _, pk := range p.prog.AllPackages() {
		if !p.isModPkg(pk.Pkg) {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == fn.Name() && types.Implements(recv, it) {
					return true
				}
			}
		}
	}
	if fn.Name() == "String" || fn.Name() == "Error" {
		return true
	}
	return false
}

// Continue at the static calls of a function
func (q *query) callerEntries(it *item, fn *ssa.Function, nc *Cons) {
	e, ctx := q.e, it.ctx
	for _, cs := range e.p.callers[fn] {
		caller := cs.Parent()
		cctx := e.rootCtx(caller)
		s := subst{}
		for i, p := range fn.Params {
			if i < len(cs.Common().Args) {
				s[e.val(ctx, p)] = e.val(cctx, cs.Common().Args[i])
			}
		}
		n2 := e.renameCall(nc, ctx, s)
		if n2.false {
			continue
		}
		in := cs.(ssa.Instruction)
		q.push(&item{ctx: cctx, block: in.Block(), idx: instrIndex(in), c: n2, prev: it, hist: it.hist})
	}
}

// Entry of a closure (or function value): continue at its creation sites
func (q *query) closureEntry(it *item, fn *ssa.Function, c *Cons) bool {
	e := q.e
	sites := append(append([]ssa.Instruction{}, e.p.makeSites[fn]...), e.p.boundSites[fn]...)
	if len(sites) == 0 {
		return false
	}
	ctx := it.ctx
	for _, site := range sites {
		parent := site.Parent()
		pctx := e.rootCtx(parent)
		s := subst{}
		var val ssa.Value = fn
		if mc, ok := site.(*ssa.MakeClosure); ok {
			val = mc
			if mc.Fn != fn { // method value
				s[e.val(ctx, fn.Params[0])] = e.val(pctx, mc.Bindings[0])
			}
			for i, fv := range fn.FreeVars {
				s[e.val(ctx, fv)] = e.val(pctx, mc.Bindings[i])
			}
		}
		// single-assignment captured cells keep their contents, anything else is dropped
		type use struct {
			in   ssa.Instruction
			data ssa.Value
		}
		var uses []use
		paired := true
		if cv, ok := val.(*ssa.MakeClosure); ok {
			for _, r := range *cv.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				d, ok := e.pairedData(r, cv)
				if !ok {
					paired = false
					break
				}
				uses = append(uses, use{r, d})
			}
		} else {
			d, ok := e.pairedData(site, fn)
			if ok {
				uses = append(uses, use{site, d})
			} else {
				paired = false
			}
		}
		if len(uses) == 0 {
			paired = false
		}
		if !paired {
			uses = []use{{site, nil}}
		}
		for _, u := range uses {
			s2 := subst{}
			for k, v := range s {
				s2[k] = v
			}
			if u.data != nil && fn.Signature.Params().Len() == 2 {
				s2[e.val(ctx, fn.Params[len(fn.Params)-1])] = e.val(pctx, u.data)
			}
			// memory: keep the cells assigned once and, for paired data, the owned object
			n := e.drop(c, func(t *Term) bool {
				if t.k == tMem {
					return !e.stableMem(t, ctx, fn, u.data != nil)
				}
				return false
			})
			n = e.renameCall(n, ctx, s2)
			if n.false {
				continue
			}
			q.push(&item{ctx: pctx, block: u.in.Block(), idx: instrIndex(u.in), c: n, prev: it, hist: it.hist})
		}
	}
	return true
}

// Data argument bound with a callback by the continuation constructors
func (e *Engine) pairedData(in ssa.Instruction, cb ssa.Value) (ssa.Value, bool) {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	sc := call.Common().StaticCallee()
	if sc == nil || !e.p.isModPkg(fnPkg(sc)) {
		return nil, false
	}
	args := call.Common().Args
	sig := sc.Signature
	// the callee must take (data any, callback func(Result, any) Result)
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		if args[i] == cb && i > 0 {
			if it, ok := sig.Params().At(i - 1).Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				return args[i-1], true
			}
		}
		if ct, ok := args[i].(*ssa.ChangeType); ok && ct.X == cb && i > 0 {
			return args[i-1], true
		}
	}
	return nil, false
}

// Memory that doesn't change between the creation of a closure and its call
func (e *Engine) stableMem(t *Term, ctx *Ctx, fn *ssa.Function, owned bool) bool {
	root := t.a
	for root.k == tFieldAddr || root.k == tIndexAddr {
		root = root.a
	}
	if root.k == tVal {
		if fv, ok := root.v.(*ssa.FreeVar); ok {
			return e.singleAssigned(fn, fv)
		}
	}
	if len(e.p.boundSites[fn]) > 0 && root.k == tVal && root.v == fn.Params[0] {
		return true
	}
	if owned {
		// object reached through the data parameter
		r := t.a
		for r != nil {
			switch r.k {
			case tFieldAddr, tIndexAddr, tMem, tUnbox, tProj:
				r = r.a
				continue
			}
			break
		}
		if r != nil && r.k == tVal && fn.Signature.Params().Len() == 2 && r.v == fn.Params[len(fn.Params)-1] {
			return true
		}
	}
	// elements of immutable argument slices reached through stable terms
	if root.k == tMem {
		return e.stableMem(root, ctx, fn, owned)
	}
	return false
}

// Captured cell stored once in the creating function and its closures
func (e *Engine) singleAssigned(fn *ssa.Function, fv *ssa.FreeVar) bool {
	var idx = -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	for _, site := range e.p.makeSites[fn] {
		mc, ok := site.(*ssa.MakeClosure)
		if !ok {
			return false
		}
		b := mc.Bindings[idx]
		al, ok := b.(*ssa.Alloc)
		if !ok {
			if f2, ok := b.(*ssa.FreeVar); ok {
				if !e.singleAssigned(site.Parent(), f2) {
					return false
				}
				continue
			}
			return false
		}
		if e.storesToCell(al) != 1 {
			return false
		}
	}
	return true
}

func (e *Engine) storesToCell(al *ssa.Alloc) int {
	seen := map[ssa.Value]bool{}
	n := 0
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					n++
				} else {
					n += 100
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						walk(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case *ssa.FieldAddr:
				// reads only
				for _, rr := range *x.Referrers() {
					if _, ok := rr.(*ssa.UnOp); !ok {
						n += 100
					}
				}
			default:
				n += 100
			}
		}
	}
	walk(al)
	return n
}

// Preconditions of the entry points
func defaultContract(e *Engine, fn *ssa.Function, c *Cons) {
	ctx := e.rootCtx(fn)
	if fn.Signature.Recv() == nil && fn.Parent() != nil && fn.Signature.Params().Len() != 2 {
		return
	}
	switch fn.Name() {
	case "Execute", "Help":
		if fn.Signature.Recv() == nil {
			return
		}
	default:
		if fn.Signature.Recv() != nil {
			if fn.Name() == "Resume" {
				e.contextContract(fn, c)
			}
			return
		}
		// picol commands are functions with the signature of Execute
		ps := fn.Signature.Params()
		if ps.Len() != 2 || ps.At(0).Type().String() != "[]helena/core.Value" {
			return
		}
		if len(e.p.makeSites[fn]) == 0 {
			return
		}
	}
	for _, p := range fn.Params {
		if p.Type().String() == "[]helena/core.Value" {
			t := e.mkLen(e.val(ctx, p))
			c.addLin(Lin{ts: []LinTerm{{t, -1}}, c: -1})
		}
	}
	e.contextContract(fn, c)
}

func (e *Engine) contextContract(fn *ssa.Function, c *Cons) {
	ctx := e.rootCtx(fn)
	last := fn.Params[len(fn.Params)-1]
	if it, ok := last.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
		path := ""
		if pk := fnPkg(fn); pk != nil {
			path = pk.Path()
		}
		var name string
		var pk *ssa.Package
		switch {
		case strings.HasSuffix(path, "picol_dialect"):
			pk, name = e.p.pkg("picol_dialect"), "PicolScope"
		default:
			pk, name = e.p.pkg("helena_dialect"), "Scope"
		}
		if pk != nil && pk.Type(name) != nil {
			e.addType(c, TypeAtom{e.val(ctx, last), types.NewPointer(pk.Type(name).Type()), false})
		}
	}
}
