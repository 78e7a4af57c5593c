package main

// Obligations decided by backward queries

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Goal struct {
	fn    *ssa.Function
	in    ssa.Instruction
	val   ssa.Value // value used, for nil goals
	kind  string
	desc  string
	cases []*Cons // offending states (disjunction)
	out   []Outcome
	ok    bool
}

func (e *Engine) boundsGoals(fn *ssa.Function) []*Goal {
	var gs []*Goal
	ctx := e.rootCtx(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				gs = append(gs, e.indexGoal(ctx, fn, x, x.X, x.Index))
			case *ssa.Index:
				gs = append(gs, e.indexGoal(ctx, fn, x, x.X, x.Index))
			case *ssa.Slice:
				gs = append(gs, e.sliceGoal(ctx, fn, x))
			case *ssa.TypeAssert:
				if !x.CommaOk {
					c := newCons()
					e.addType(c, TypeAtom{e.val(ctx, x.X), x.AssertedType, true})
					gs = append(gs, &Goal{fn: fn, in: x, kind: "assert", desc: shortT(x.AssertedType), cases: []*Cons{c}})
				}
			case *ssa.MakeSlice:
				c := newCons()
				l := e.lin(e.val(ctx, x.Len))
				if len(l.m) == 0 {
					continue
				}
				l.c++
				c.addLin(l.le0())
				gs = append(gs, &Goal{fn: fn, in: x, kind: "make", desc: "len<0", cases: []*Cons{c}})
			}
		}
	}
	var out []*Goal
	for _, g := range gs {
		if g != nil {
			out = append(out, g)
		}
	}
	return out
}

func (e *Engine) indexGoal(ctx *Ctx, fn *ssa.Function, in ssa.Instruction, x, idx ssa.Value) *Goal {
	i := e.lin(e.val(ctx, idx))
	l := e.lin(e.mkLen(e.val(ctx, x)))
	lo := newCons()
	a := LinExpr{}.add(i, 1)
	a.c++ // i + 1 <= 0
	lo.addLin(a.le0())
	hi := newCons()
	hi.addLin(l.add(i, -1).le0()) // len - i <= 0
	g := &Goal{fn: fn, in: in, kind: "index", desc: fmt.Sprintf("%s[%s]", valName(x), valName(idx))}
	for _, c := range []*Cons{lo, hi} {
		if !c.false {
			g.cases = append(g.cases, c)
		}
	}
	if len(g.cases) == 0 {
		return nil
	}
	return g
}

func (e *Engine) sliceGoal(ctx *Ctx, fn *ssa.Function, x *ssa.Slice) *Goal {
	zero := LinExpr{}
	lo := zero
	if x.Low != nil {
		lo = e.lin(e.val(ctx, x.Low))
	}
	l := e.lin(e.mkLen(e.val(ctx, x.X)))
	hi := l
	if x.High != nil {
		hi = e.lin(e.val(ctx, x.High))
	}
	g := &Goal{fn: fn, in: x, kind: "slice", desc: valName(x.X)}
	add := func(a LinExpr) {
		c := newCons()
		c.addLin(a.le0())
		if !c.false {
			g.cases = append(g.cases, c)
		}
	}
	// lo <= -1
	d := zero.add(lo, 1)
	d.c++
	add(d)
	// hi < lo
	d = hi.add(lo, -1)
	d.c++
	add(d)
	// hi > len (capacity isn't used by the code)
	if x.High != nil {
		d = l.add(hi, -1)
		d.c++
		add(d)
	}
	if len(g.cases) == 0 {
		return nil
	}
	return g
}

func valName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return v.Name()
	case *ssa.Const:
		return x.Name()
	case *ssa.UnOp:
		return "*" + valName(x.X)
	case *ssa.FieldAddr:
		return valName(x.X) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		return valName(x.X) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Global:
		return x.Name()
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		if x.Call.IsInvoke() {
			return x.Call.Method.Name() + "()"
		}
		return "call"
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.BinOp:
		return valName(x.X) + x.Op.String() + valName(x.Y)
	case *ssa.Slice:
		return valName(x.X) + "[:]"
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Extract:
		return valName(x.Tuple) + fmt.Sprintf("#%d", x.Index)
	}
	return "_"
}

func dev(p *Program) {
	filter := ""
	if len(os.Args) > 2 {
		filter = os.Args[2]
	}
	kinds := ""
	if len(os.Args) > 3 {
		kinds = os.Args[3]
	}
	t0 := time.Now()
	var fns []*ssa.Function
	for _, fn := range p.funcs {
		if strings.Contains(fn.String(), "benchmarks") {
			continue
		}
		if filter == "" || strings.Contains(fn.String(), filter) {
			fns = append(fns, fn)
		}
	}
	p.modset(p.funcs[0])
	p.prewarm()
	type res struct{ gs []*Goal }
	out := make([]res, len(fns))
	var wg sync.WaitGroup
	ch := make(chan int)
	var mu sync.Mutex
	total, okN := 0, 0
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				e := newEngine(p)
				gs := e.boundsGoals(fns[i])
				var keep []*Goal
				for _, g := range gs {
					if kinds != "" && !strings.Contains(kinds, g.kind) {
						continue
					}
					keep = append(keep, g)
					g.ok = true
					for _, c := range g.cases {
						t1 := time.Now()
						o := e.solve(e.rootCtx(fns[i]), g.in, c, nil)
						if d := time.Since(t1); d > 5*time.Second {
							fmt.Fprintf(os.Stderr, "SLOW %s %s %s %v steps=%d\n", p.instrPos(g.in), g.kind, g.desc, d, o.steps)
						}
						g.out = append(g.out, o)
						if !o.proved {
							g.ok = false
						}
					}
					mu.Lock()
					total++
					if g.ok {
						okN++
					}
					mu.Unlock()
				}
				out[i].gs = keep
			}
		}()
	}
	for i := range fns {
		ch <- i
	}
	close(ch)
	wg.Wait()
	verbose := os.Getenv("V") != ""
	for i := range out {
		for _, g := range out[i].gs {
			if g.ok {
				continue
			}
			fmt.Printf("FAIL %s %s %s %s\n", p.instrPos(g.in), shortFn(g.fn), g.kind, g.desc)
			for k, o := range g.out {
				if o.proved {
					continue
				}
				w := ""
				if o.where != nil {
					w = shortFn(o.where)
				}
				fmt.Printf("    [%s] at %s: %s unknown=%v steps=%d\n", g.cases[k], w, o.cons, o.unknown, o.steps)
				if verbose {
					for _, t := range o.trace {
						fmt.Println("       ", t)
					}
				}
			}
		}
	}
	fmt.Printf("%d obligations, %d proved, %v\n", total, okN, time.Since(t0))
}

var _ = types.Identical
