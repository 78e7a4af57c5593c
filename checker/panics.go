package main

// C14: panics never leave the interpreter

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Explicit panics, except those that raise syntax errors, and divisions by zero
func (e *Engine) panicGoals(fn *ssa.Function) []*Goal {
	var gs []*Goal
	ctx := e.rootCtx(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Panic:
				if !syntaxPanic(x) {
					gs = append(gs, &Goal{fn: fn, in: x, kind: "panic", desc: valName(x.X), cases: []*Cons{newCons()}})
				}
			case *ssa.BinOp:
				if x.Op != token.QUO && x.Op != token.REM {
					break
				}
				if bt, ok := x.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
					break
				}
				g := &Goal{fn: fn, in: x, kind: "division", desc: "by " + valName(x.Y)}
				if k, ok := x.Y.(*ssa.Const); !ok || k.Int64() == 0 {
					c := newCons()
					l := e.lin(e.val(ctx, x.Y))
					neg := LinExpr{map[*Term]int64{}, -l.c}
					for t, k := range l.m {
						neg.m[t] = -k
					}
					c.addLin(l.le0())
					c.addLin(neg.le0())
					g.cases = []*Cons{c}
				}
				gs = append(gs, g)
			}
		}
	}
	return gs
}

func syntaxPanic(x *ssa.Panic) bool {
	v := x.X
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	return strings.HasSuffix(v.Type().String(), ".SyntaxError")
}

func devPanic(p *Program) {
	r := p.raisers()
	for fn, in := range r.from {
		if p.entryPoint(fn) || !isCompiler(fn) {
			fmt.Println("RAISE", isCompiler(fn), shortFn(fn), p.instrPos(in))
		}
	}
	for fn := range r.guard {
		fmt.Println("GUARD", shortFn(fn), len(r.calls(fn)))
	}
	var fns []*ssa.Function
	for _, fn := range p.funcs {
		if !strings.Contains(fn.String(), "benchmarks") && (len(os.Args) < 3 || strings.Contains(fn.String(), os.Args[2])) {
			fns = append(fns, fn)
		}
	}
	p.parallel(fns, func(e *Engine, i int) {
		e.enums = true
		e.budget *= 10
		for _, g := range e.panicGoals(fns[i]) {
			g.ok = true
			for _, c := range g.cases {
				o := e.solve(e.rootCtx(fns[i]), g.in, c, nil)
				g.out = append(g.out, o)
				if !o.proved {
					g.ok = false
				}
			}
			s := fmt.Sprintln(g.ok, p.instrPos(g.in), shortFn(g.fn), g.kind, g.desc)
			if os.Getenv("V") != "" {
				for _, o := range g.out {
					s += fmt.Sprintln("   ", o.unknown, o.steps, o.cons)
					for _, t := range o.trace {
						s += "        " + t + "\n"
					}
				}
			}
			fmt.Print(s)
		}
	})
}

// Functions that may raise a syntax error, with the call that does
type raises struct {
	p     *Program
	from  map[*ssa.Function]ssa.Instruction
	guard map[*ssa.Function]*ssa.Defer
	rank  map[*ssa.Function]int // order of discovery
}

// Deferred call that recovers from syntax errors
func (p *Program) recoverer(d *ssa.Defer) bool {
	for _, f := range p.callees(d) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (p *Program) raisers() *raises {
	r := &raises{p: p, from: map[*ssa.Function]ssa.Instruction{}, guard: map[*ssa.Function]*ssa.Defer{}, rank: map[*ssa.Function]int{}}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Panic:
					if syntaxPanic(x) {
						r.from[fn] = x
					}
				case *ssa.Defer:
					if p.recoverer(x) {
						r.guard[fn] = x
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			if r.from[fn] != nil {
				continue
			}
			for _, c := range r.calls(fn) {
				if !r.guarded(fn, c) {
					r.from[fn] = c
					r.rank[fn] = len(r.rank)
					changed = true
					break
				}
			}
		}
	}
	return r
}

// Calls of a function that may raise a syntax error
func (r *raises) calls(fn *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, f := range r.p.callees(c) {
				if r.from[f] != nil {
					out = append(out, in)
					break
				}
			}
		}
	}
	return out
}

func (r *raises) guarded(fn *ssa.Function, in ssa.Instruction) bool {
	d := r.guard[fn]
	if d == nil {
		return false
	}
	if d.Block() == in.Block() {
		return instrIndex(d) < instrIndex(in)
	}
	return d.Block().Dominates(in.Block())
}

// Does the error come from another function that could be called on its own?
func (r *raises) inner(fn *ssa.Function) bool {
	for {
		c, ok := r.from[fn].(ssa.CallInstruction)
		if !ok {
			return false
		}
		var next *ssa.Function
		for _, f := range r.p.callees(c) {
			if isCompiler(f) && r.from[f] != nil {
				return false
			}
			if r.from[f] != nil && next == nil && r.rank[f] < r.rank[fn] {
				next = f
			}
		}
		if next == nil {
			return false
		}
		if r.p.entryPoint(next) {
			return true
		}
		fn = next
	}
}

// May a function be called by something else than the calls in sight?
func (p *Program) entryPoint(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return len(p.callers[fn]) == 0 || p.addrTaken[fn]
	}
	return p.addrTaken[fn] || p.dynamicMethod(fn) || fn.Object() != nil && fn.Object().Exported() || len(p.callers[fn]) == 0
}

func isCompiler(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	rv := fn.Signature.Recv()
	return rv != nil && strings.HasSuffix(deref(rv.Type()).String(), "core.Compiler")
}

// Why a panic the engine cannot rule out is right
func (p *Program) panicReason(g *Goal) string {
	x, ok := g.in.(*ssa.Panic)
	if !ok {
		return ""
	}
	v := x.X
	for {
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
			continue
		}
		if m, ok := v.(*ssa.ChangeInterface); ok {
			v = m.X
			continue
		}
		break
	}
	switch y := v.(type) {
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
			return "rethrown"
		}
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			s := ""
			if f := c.Call.StaticCallee(); f != nil {
				s = f.String()
			} else if u, ok := c.Call.Value.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					s = g.String()
				}
			}
			if s == "os.Getwd" || strings.Contains(s, "/readline.") {
				return "environment"
			}
		}
	}
	for b := x.Block(); b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "os" && f.Name() == "Exit" {
					return "after os.Exit"
				}
			}
		}
	}
	return ""
}

var panicSites = map[string]string{
	"helena_dialect.ArgspecValue.findSlots panic": "option arguments are either required or optional by construction",
	"helena_dialect.BuildUsage panic":             "option arguments are either required or optional by construction",
}

var compareSites = map[string]string{
	"helena_dialect.binaryOp": "the first operand is the number that the command was resolved from",
}

// Does the function return what the deferred recoverer leaves?
func resultRecovered(fn *ssa.Function, d *ssa.Defer) bool {
	if fn.Recover == nil {
		return false
	}
	vals := append([]ssa.Value{}, d.Call.Args...)
	if m, ok := d.Call.Value.(*ssa.MakeClosure); ok {
		vals = append(vals, m.Bindings...)
	}
	for _, in := range fn.Recover.Instrs {
		ret, ok := in.(*ssa.Return)
		if !ok {
			continue
		}
		for _, x := range ret.Results {
			if !isCoreResult(x.Type()) {
				continue
			}
			u, ok := x.(*ssa.UnOp)
			if !ok {
				return false
			}
			found := false
			for _, v := range vals {
				if v == u.X {
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	return false
}

// Return of a recoverer reached with a panic in progress but without storing an
// error result
func (p *Program) swallows(fn *ssa.Function) ssa.Instruction {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "recover" {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock, from int) ssa.Instruction
			walk = func(b *ssa.BasicBlock, from int) ssa.Instruction {
				for _, in := range b.Instrs[from:] {
					switch x := in.(type) {
					case *ssa.Store:
						if isCoreResult(x.Val.Type()) && errorMade(x.Val) {
							return nil
						}
					case *ssa.Return:
						return x
					case *ssa.If:
						if bo, ok := x.Cond.(*ssa.BinOp); ok {
							isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }
							if bo.X == ssa.Value(c) && isNil(bo.Y) || bo.Y == ssa.Value(c) && isNil(bo.X) {
								s := b.Succs[0]
								if bo.Op == token.EQL {
									s = b.Succs[1]
								}
								if seen[s] {
									return nil
								}
								seen[s] = true
								return walk(s, 0)
							}
						}
					}
				}
				for _, s := range b.Succs {
					if !seen[s] {
						seen[s] = true
						if r := walk(s, 0); r != nil {
							return r
						}
					}
				}
				return nil
			}
			if r := walk(b, instrIndex(c)+1); r != nil {
				return r
			}
		}
	}
	return nil
}

// Is a result made by a function named like an error result?
func errorMade(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	return f != nil && makesErrors(f, 0)
}

func makesErrors(f *ssa.Function, depth int) bool {
	if f.Name() == "ERROR" && fnPkg(f) != nil && fnPkg(f).Path() == "helena/core" {
		return true
	}
	if depth > 3 || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				for _, v := range ret.Results {
					c, ok := v.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil || !makesErrors(c.Call.StaticCallee(), depth+1) {
						return false
					}
				}
			}
		}
	}
	return true
}

// May values of the type hold something that cannot be compared?
func (p *Program) uncomparable(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature:
		return shortT(t)
	case *types.Array:
		return p.uncomparable(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := p.uncomparable(u.Field(i).Type(), seen); s != "" {
				return shortT(t)
			}
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "any value"
		}
		for _, nt := range p.namedT {
			if types.Implements(nt, u) {
				if s := p.uncomparable(nt, seen); s != "" {
					return shortT(nt)
				}
			}
		}
	}
	return ""
}

// Types a value is known to have
func (p *Program) comparableValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return p.uncomparable(x.X.Type(), map[types.Type]bool{}) == ""
	case *ssa.ChangeInterface:
		return p.comparableValue(x.X, seen)
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !p.comparableValue(y, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			found := false
			for _, fn := range p.funcs {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
							found = true
							if !p.comparableValue(s.Val, seen) {
								return false
							}
						}
					}
				}
			}
			return found
		}
	}
	return p.uncomparable(v.Type(), map[types.Type]bool{}) == ""
}

// Is a value checked to be comparable before an instruction?
func (p *Program) comparedSafely(in ssa.Instruction, v ssa.Value) bool {
	same := func(a, b ssa.Value) bool { return strip(a) == strip(b) }
	for b := in.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, want := iff.Cond, d.Succs[0]
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, want = u.X, d.Succs[1]
		}
		if bo, ok := cond.(*ssa.BinOp); ok && bo.Op == token.NEQ {
			// Equal on the other side
			want = d.Succs[0]
			if iff.Cond == cond {
				want = d.Succs[1]
			}
		}
		if len(want.Preds) != 1 || !want.Dominates(in.Block()) {
			continue
		}
		if c, ok := cond.(*ssa.Call); ok {
			if x := comparableTest(c, 0); x != nil && same(x, v) {
				return true
			}
		}
		if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			if same(bo.X, v) && p.comparableValue(bo.Y, map[ssa.Value]bool{}) || same(bo.Y, v) && p.comparableValue(bo.X, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// Value that a call checks to be comparable
func comparableTest(c *ssa.Call, depth int) ssa.Value {
	f := c.Call.StaticCallee()
	if f == nil || depth > 3 {
		return nil
	}
	if f.String() == "(reflect.Value).Comparable" {
		if d, ok := c.Call.Args[0].(*ssa.Call); ok && d.Call.StaticCallee() != nil && d.Call.StaticCallee().String() == "reflect.ValueOf" {
			return d.Call.Args[0]
		}
		return nil
	}
	for i, q := range f.Params {
		good := len(f.Blocks) > 0
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				d, ok := ret.Results[0].(*ssa.Call)
				if !ok || len(ret.Results) != 1 {
					good = false
					continue
				}
				if x := comparableTest(d, depth+1); x == nil || strip(x) != ssa.Value(q) {
					good = false
				}
			}
		}
		if good {
			return c.Call.Args[i]
		}
	}
	return nil
}

// Comparisons of dynamic values
func (p *Program) comparisons(fn *ssa.Function, f func(in ssa.Instruction, what string, ok bool)) {
	isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op != token.EQL && x.Op != token.NEQ || isNil(x.X) || isNil(x.Y) {
					break
				}
				if !holdsInterface(x.X.Type(), 0) && !holdsInterface(x.Y.Type(), 0) {
					break
				}
				ok := p.comparableValue(x.X, map[ssa.Value]bool{}) || p.comparableValue(x.Y, map[ssa.Value]bool{}) ||
					p.comparedSafely(x, x.X) || p.comparedSafely(x, x.Y)
				f(x, "comparison of "+shortT(x.X.Type()), ok)
			case *ssa.Lookup:
				if m, ok := x.X.Type().Underlying().(*types.Map); ok && holdsInterface(m.Key(), 0) {
					f(x, "lookup of "+shortT(m.Key()), p.comparableValue(x.Index, map[ssa.Value]bool{}) || p.comparedSafely(x, x.Index))
				}
			case *ssa.MapUpdate:
				if m, ok := x.Map.Type().Underlying().(*types.Map); ok && holdsInterface(m.Key(), 0) {
					f(x, "store at "+shortT(m.Key()), p.comparableValue(x.Key, map[ssa.Value]bool{}) || p.comparedSafely(x, x.Key))
				}
			}
		}
	}
}

func holdsInterface(t types.Type, depth int) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Array:
		return holdsInterface(u.Elem(), depth)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsInterface(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// Library functions that panic on some arguments, with the argument to check
var panicky = map[string]int{
	"regexp.MustCompile": 0, "regexp.MustCompilePOSIX": 0, "strings.Repeat": 1, "bytes.Repeat": 1,
	"text/template.Must": 0, "time.NewTicker": 0, "math/rand.Intn": 0, "math/rand.Int63n": 0, "math/rand.Int31n": 0,
	"(*strings.Builder).Grow": 1, "strings.NewReplacer": -1, "unicode/utf8.AppendRune": -1,
}

func init() {
	checks["C14"] = func(r *Report, thorough bool) {
		p := r.p
		r.rule("panic", "no explicit panic, other than those raising syntax errors, rethrowing a panic or reporting a broken environment at startup, can be reached, and no integer is divided by zero", 20)
		r.rule("syntax", "syntax errors raised by the compiler are turned into error results by every function calling it: none escapes to another caller", 5)
		r.rule("recover", "a function recovering from a panic leaves an error result, or panics again", 1)
		r.rule("compare", "values of unknown types are only compared, or used as keys, once known to be comparable", 2)
		r.rule("library", "library functions that panic on some arguments only get constants they accept", 1)
		var fns []*ssa.Function
		for _, fn := range p.funcs {
			if !strings.Contains(fn.String(), "benchmarks") {
				fns = append(fns, fn)
			}
		}
		out := make([][]*Goal, len(fns))
		p.parallel(fns, func(e *Engine, i int) {
			e.enums = true
			e.budget *= 10
			if thorough {
				e.budget *= 4
			}
			for _, g := range e.panicGoals(fns[i]) {
				out[i] = append(out[i], g)
				g.ok = true
				if p.panicReason(g) != "" {
					continue
				}
				for _, c := range g.cases {
					o := e.solve(e.rootCtx(fns[i]), g.in, c, nil)
					g.out = append(g.out, o)
					g.ok = g.ok && o.proved
				}
			}
		})
		for i := range fns {
			for _, g := range out[i] {
				what := shortFn(g.fn) + " " + g.kind
				if g.ok {
					r.ok("panic", g.fn, p.instrPos(g.in)+" "+what+" "+p.panicReason(g))
					continue
				}
				if reason := p.covered(g.fn, func(name string) string { return panicSites[name+" "+g.kind] }, 0); reason != "" {
					r.excluded("panic", g.fn, what, reason)
					continue
				}
				var det []string
				for k, o := range g.out {
					if o.proved {
						continue
					}
					res := "reachable when " + o.cons
					if o.where != nil {
						res = "reachable from " + shortFn(o.where) + " when " + o.cons
					}
					if o.unknown {
						res = "not proved within the budget"
					}
					det = append(det, fmt.Sprintf("offending state [%s]: %s", g.cases[k], res))
					for n, t := range o.trace {
						if n == 12 {
							break
						}
						det = append(det, "  "+t)
					}
				}
				msg := "panic may be reached: "
				if g.kind == "division" {
					msg = "division by zero: "
				}
				r.fail("panic", g.fn, what, p.instrPos(g.in), msg+what+" "+g.desc, det...)
			}
		}
		rs := p.raisers()
		recs := map[*ssa.Function]bool{}
		for _, fn := range fns {
			if d := rs.guard[fn]; d != nil {
				for _, f := range p.callees(d) {
					recs[f] = true
				}
				if !resultRecovered(fn, d) {
					r.fail("syntax", fn, shortFn(fn)+" result", p.instrPos(d), "the error recovered from is not the result of "+shortFn(fn))
				}
			}
			in := rs.from[fn]
			if in != nil && !isCompiler(fn) && p.entryPoint(fn) {
				if rs.inner(fn) {
					continue // reported there
				}
				r.fail("syntax", fn, shortFn(fn), p.instrPos(in), "a syntax error raised here may leave "+shortFn(fn)+" as a panic")
				continue
			}
			for _, c := range rs.calls(fn) {
				if rs.guarded(fn, c) {
					r.ok("syntax", fn, p.instrPos(c)+" "+shortFn(fn))
				}
			}
		}
		for _, fn := range p.funcs {
			if !recs[fn] {
				continue
			}
			if in := p.swallows(fn); in != nil {
				r.fail("recover", fn, shortFn(fn), p.instrPos(in), shortFn(fn)+" may return from a panic without leaving an error")
			} else {
				r.ok("recover", fn, shortFn(fn))
			}
		}
		for _, fn := range fns {
			p.comparisons(fn, func(in ssa.Instruction, what string, ok bool) {
				if ok {
					r.ok("compare", fn, p.instrPos(in)+" "+what)
				} else if reason := p.covered(fn, func(name string) string { return compareSites[name] }, 0); reason != "" {
					r.excluded("compare", fn, shortFn(fn), reason)
				} else {
					r.fail("compare", fn, shortFn(fn)+" "+what, p.instrPos(in), what+" may panic: its type may not be comparable")
				}
			})
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() == nil {
						continue
					}
					f := c.Common().StaticCallee()
					name := f.String()
					i, ok := panicky[name]
					if !ok && !(strings.HasPrefix(f.Name(), "Must") && !p.inModule[f]) {
						continue
					}
					good := false
					if ok && i >= 0 {
						if k, isK := c.Common().Args[i].(*ssa.Const); isK && k.Value != nil {
							good = true
							if strings.HasPrefix(name, "regexp.") {
								_, err := regexp.Compile(constant.StringVal(k.Value))
								good = err == nil
							} else if k.Value.Kind() == constant.Int {
								n, _ := constant.Int64Val(k.Value)
								good = n >= 0 && n < 1<<20
							}
						}
					}
					if good {
						r.ok("library", fn, p.instrPos(in)+" "+name)
					} else {
						r.fail("library", fn, shortFn(fn)+" "+name, p.instrPos(in), name+" may panic on this argument")
					}
				}
			}
		}
	}
}
