package main

// C01-C04: obligations decided by the backward engine

import (
	"fmt"
	"go/types"
	"os"
	"slices"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Sites that the analysis cannot decide, by function and kind of obligation,
// each with the reason. A site listed here that is proved anyway counts as
// discharged. Closures, and helpers only called from listed functions, inherit
// the entry. Everything else has to be proved.
var undecidedSites = map[string]string{}

func init() {
	add := func(reason string, sites ...string) {
		for _, s := range sites {
			undecidedSites[s] = reason
		}
	}
	add("depth of the evaluation stacks, a property of whole compiled programs: see C17",
		"core.ProgramState.Reset slice core.Result", "core.ProgramState.Reset slice int",
		"core.ProgramState.SetResult index core.Result", "core.ProgramState.lastFrameResult index core.Result",
		"core.ProgramState.CloseFrame index int", "core.ProgramState.CloseFrame slice core.Result",
		"core.ProgramState.CloseFrame slice core.Value", "core.ProgramState.CloseFrame slice int",
		"core.ProgramState.Pop index core.Value", "core.ProgramState.Pop slice core.Value",
		"core.Executor.ExecuteUntil index core.OpCode", "core.Executor.ExecuteUntil index core.Value")
	add("depth of the process stack, paired by its runner",
		"helena_dialect.ProcessStack.CurrentContext index helena_dialect.ProcessContext",
		"helena_dialect.ProcessStack.Pop index helena_dialect.ProcessContext", "helena_dialect.ProcessStack.Pop slice helena_dialect.ProcessContext")
	add("precondition of the stream, decided at its callers by the stream typestate",
		"core.StringStream.Next index string", "core.StringStream.Current index string", "core.StringStream.Range slice string",
		"core.ArrayTokenStream.Next index core.Token", "core.ArrayTokenStream.Current index core.Token", "core.ArrayTokenStream.Range slice core.Token")
	add("correlates token text with parser contexts",
		"core.taggedStringNode.toMorpheme slice string", "core.Parser.addLiteral index core.morphemeNode", "core.scriptNode.toScript index core.Sentence")
	add("relates substitution levels to the number of stem morphemes, an invariant of the parser",
		"core.Compiler.emitStems index core.Morpheme", "core.Compiler.emitSubstitution index core.Morpheme",
		"core.Compiler.terminateSubstitutionSequence index core.Morpheme", "core.SyntaxChecker.checkStems index core.Morpheme")
	add("pairs result codes and value types across the open interface of custom values",
		"core.RESULT_CODE_NAME assert core.CustomResultCode", "core.IsCustomResult assert core.CustomResultCode",
		"core.IsCustomValue assert core.CustomValue", "cli.resultWriter assert core.CustomValue")
	add("pairs error results with the data of the error",
		"cli.run assert core.ErrorStack", "helena_dialect.Process.Run assert core.ErrorStack")
	add("caller supplies a level of the stack it has measured", "core.ErrorStack.Level index core.ErrorStackLevel")
	add("slot tables sized by the argument specification and counted against it",
		"helena_dialect.ArgspecValue.CollectArguments slice core.Value", "helena_dialect.ArgspecValue.findSlots index core.Value",
		"helena_dialect.ArgspecValue.findSlots index helena_dialect.Argument", "helena_dialect.ArgspecValue.findSlots index int",
		"helena_dialect.ArgspecValue.setPositionalSlotValues index core.Value", "helena_dialect.ArgspecValue.setPositionalSlotValues slice core.Value",
		"helena_dialect.ArgspecValue.setSlotValue index core.Value", "helena_dialect.ArgspecValue.setSlotValues index core.Value",
		"helena_dialect.ArgspecValue.setSlotValues index int", "helena_dialect.ArgspecValue.setSlotValues slice core.Value")
	add("depends on the text of argument names", "helena_dialect.buildArgument index string const", "helena_dialect.buildArgument slice string")
	add("skip count supplied by callers along with the arguments it counts", "helena_dialect.BuildUsage slice helena_dialect.Argument")
	add("state saved with the yielded result and returned to the same command",
		"helena_dialect.ExpandPrefixCommand.Resume assert helena_dialect.expandPrefixState",
		"helena_dialect.EnsembleCommand.Resume assert helena_dialect.ensembleSubcommandState")
	add("sources counted from the number of arguments, then advanced by callbacks",
		"helena_dialect.loopCmd.Execute make", "helena_dialect.loopCmd.Execute index core.Value",
		"helena_dialect.loopCmd.Execute index [2]core.Value", "helena_dialect.loopCmd.Execute index helena_dialect.LoopSourceFn",
		"helena_dialect.loopCmdNextSource index core.Value", "helena_dialect.loopCmdNextSource index helena_dialect.LoopSourceFn")
	add("keyword positions validated by a previous pass over the same arguments",
		"helena_dialect.ifCmdTest index core.Value", "helena_dialect.ifCmdBody index core.Value",
		"helena_dialect.catchCmd.run index core.Value", "helena_dialect.catchCmd.run index core.Value const")
	add("program counter after at least one executed opcode", "helena_dialect.Process.Run index *core.SourcePosition")
	add("values checked against the same pattern beforehand", "helena_dialect.applyValues index core.Value", "helena_dialect.applyValues assert core.TupleValue")
	add("iteration state shared with callbacks",
		"helena_dialect.dictForeachCmd.Execute index [2]core.Value", "helena_dialect.listForeachCmd.Execute index core.Value")
	add("even length checked beforehand", "helena_dialect.valueToMap index core.Value", "helena_dialect.arithmetics index core.Value")
	add("subcommand position follows the fixed number of arguments of the specification",
		"helena_dialect.EnsembleCommand.Execute index core.Value", "helena_dialect.EnsembleCommand.Help index core.Value")
	add("values of other interfaces", "helena_dialect.ValueToArray assert core.TupleValue")
	add("one value collected per export", "helena_dialect.Module.Execute index core.Value")
	add("library result: two bounds per match", "native/go_regexp.RegexpCmd.Execute index int const")
	add("argument positions advanced by two paths counted beforehand", "picol_dialect.procCommand.Execute index core.Value")
}

// Name of a function whatever the kind of its receiver
func plainFn(fn *ssa.Function) string {
	return strings.NewReplacer("(", "", ")", "", "*", "").Replace(shortFn(fn))
}

// Functions using a function as a value
func (p *Program) referrers(fn *ssa.Function) []*ssa.Function {
	refOnce.Do(func() {
		refMap = map[*ssa.Function][]*ssa.Function{}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == g && !slices.Contains(c.Common().Args, ssa.Value(g)) {
							continue
						}
						refMap[g] = append(refMap[g], f)
					}
				}
			}
		}
	})
	return refMap[fn]
}

var refOnce sync.Once
var refMap map[*ssa.Function][]*ssa.Function

// Kind of an obligation with the type of the elements or the asserted type, so
// that an entry doesn't cover unrelated accesses of the same function
func siteKind(g *Goal) string {
	switch x := g.in.(type) {
	case *ssa.IndexAddr:
		q := elemName(x.X.Type())
		if _, ok := x.Index.(*ssa.Const); ok {
			q += " const"
		}
		return g.kind + " " + q
	case *ssa.Index:
		q := elemName(x.X.Type())
		if _, ok := x.Index.(*ssa.Const); ok {
			q += " const"
		}
		return g.kind + " " + q
	case *ssa.Lookup:
		q := elemName(x.X.Type())
		if _, ok := x.Index.(*ssa.Const); ok {
			q += " const"
		}
		return g.kind + " " + q
	case *ssa.Slice:
		return g.kind + " " + elemName(x.X.Type())
	case *ssa.TypeAssert:
		return g.kind + " " + strings.TrimPrefix(shortT(x.AssertedType), "*")
	}
	return g.kind
}
func elemName(t types.Type) string {
	switch u := deref(t).Underlying().(type) {
	case *types.Slice:
		return shortT(u.Elem())
	case *types.Array:
		return shortT(u.Elem())
	}
	return shortT(t)
}

// Entry covering an obligation, if any
func (p *Program) undecided(fn *ssa.Function, kind string, depth int) string {
	return p.covered(fn, func(name string) string { return undecidedSites[name+" "+kind] }, depth)
}

// Entry of a table for a function, or for all the users of an unexported one:
// an entry also holds for helpers extracted from its function
func (p *Program) covered(fn *ssa.Function, lookup func(name string) string, depth int) string {
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	if s := lookup(plainFn(root)); s != "" {
		return s
	}
	users := append([]*ssa.Function{}, p.referrers(root)...)
	for _, c := range p.callers[root] {
		users = append(users, c.Parent())
	}
	if depth > 3 || p.dynamicMethod(root) || len(users) == 0 {
		return ""
	}
	if o := root.Object(); o == nil || o.Exported() {
		return ""
	}
	reason := ""
	for _, f := range users {
		s := p.covered(f, lookup, depth+1)
		if s == "" {
			return ""
		}
		reason = s
	}
	return reason
}

// Does an indexed value originate from the arguments of a command?
func isArgs(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return isValueSlice(x.Type())
	case *ssa.FreeVar:
		return isValueSlice(deref(x.Type())) && x.Name() != ""
	case *ssa.Slice:
		return isArgs(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if isArgs(e, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return isValueSlice(x.Type()) && !isValueType(deref(fa.X.Type()))
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			return isValueSlice(deref(fv.Type()))
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al && isArgs(st.Val, seen) {
					return true
				}
			}
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isValueSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && s.Elem().String() == "helena/core.Value"
}

// Named types implementing core.Value
func isValueType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	for _, m := range []string{"Type"} {
		ms := types.NewMethodSet(types.NewPointer(n))
		if s := ms.Lookup(n.Obj().Pkg(), m); s != nil {
			if sg, ok := s.Type().(*types.Signature); ok && sg.Results().Len() == 1 && sg.Results().At(0).Type().String() == "helena/core.ValueType" {
				return true
			}
		}
	}
	return false
}

func goalBase(g *Goal) ssa.Value {
	switch x := g.in.(type) {
	case *ssa.IndexAddr:
		return x.X
	case *ssa.Index:
		return x.X
	case *ssa.Slice:
		return x.X
	}
	return nil
}

func (p *Program) parallel(fns []*ssa.Function, f func(e *Engine, i int)) {
	p.modset(p.funcs[0])
	p.prewarm()
	var wg sync.WaitGroup
	ch := make(chan int)
	var mu sync.Mutex
	var failed any
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if x := recover(); x != nil {
							mu.Lock()
							failed = x
							mu.Unlock()
						}
					}()
					f(newEngine(p), i)
				}()
			}
		}()
	}
	for i := range fns {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
}

func corePipeline(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && pk.Path() == "helena/core"
}

func engineCheck(r *Report, rule string, thorough bool, keep func(g *Goal) bool) {
	p := r.p
	var fns []*ssa.Function
	for _, fn := range p.funcs {
		if !strings.Contains(fn.String(), "benchmarks") {
			fns = append(fns, fn)
		}
	}
	out := make([][]*Goal, len(fns))
	p.parallel(fns, func(e *Engine, i int) {
		if thorough {
			e.budget *= 4
		}
		for _, g := range e.boundsGoals(fns[i]) {
			if !keep(g) {
				continue
			}
			g.ok = true
			for _, c := range g.cases {
				o := e.solve(e.rootCtx(fns[i]), g.in, c, nil)
				g.out = append(g.out, o)
				if !o.proved {
					g.ok = false
				}
			}
			out[i] = append(out[i], g)
		}
	})
	for i := range fns {
		for _, g := range out[i] {
			what := fmt.Sprintf("%s %s %s", shortFn(g.fn), g.kind, g.desc)
			if g.ok {
				r.ok(rule, g.fn, p.instrPos(g.in)+" "+what)
				continue
			}
			reason := p.undecided(g.fn, siteKind(g), 0)
			if reason == "" && slotIndex(g.in) {
				reason = "slot number looked up in the table the values were laid out with"
			}
			if reason != "" {
				if os.Getenv("SITES") != "" {
					fmt.Println("SITE", shortFn(g.fn)+" "+siteKind(g), p.instrPos(g.in))
				}
				r.excluded(rule, g.fn, shortFn(g.fn)+" "+g.kind, reason)
				continue
			}
			var det []string
			for k, o := range g.out {
				if o.proved {
					continue
				}
				where := ""
				if o.where != nil {
					where = " from " + shortFn(o.where)
				}
				res := "reachable" + where + " when " + o.cons
				if o.unknown {
					res = "not proved within the budget"
				}
				det = append(det, fmt.Sprintf("offending state [%s]: %s", g.cases[k], res))
				for n, t := range o.trace {
					if n == 12 {
						break
					}
					det = append(det, "  "+t)
				}
			}
			msg := map[string]string{"index": "index may be out of bounds", "slice": "slice bounds may be out of range",
				"assert": "type assertion may fail", "make": "allocation size may be negative"}[g.kind]
			r.fail(rule, g.fn, what, p.instrPos(g.in), msg+": "+what, det...)
		}
	}
}

func init() {
	checks["C01"] = func(r *Report, thorough bool) {
		r.rule("args", "every access to a command argument, and every slice of an argument list, is within the arguments supplied on all paths from every entry point", 200)
		engineCheck(r, "args", thorough, func(g *Goal) bool {
			b := goalBase(g)
			return (g.kind == "index" || g.kind == "slice") && !corePipeline(g.fn) && b != nil && isArgs(b, map[ssa.Value]bool{})
		})
	}
	checks["C02"] = func(r *Report, thorough bool) {
		r.rule("bounds", "every index, slice and allocation size computed by a command or value operation is within bounds on all paths from every entry point", 100)
		engineCheck(r, "bounds", thorough, func(g *Goal) bool {
			if g.kind == "assert" {
				return false
			}
			if corePipeline(g.fn) {
				f := p0file(r.p, g.fn)
				return f == "values.go" || f == "selectors.go" || f == "intrinsics.go" || f == "results.go" || f == "display.go"
			}
			b := goalBase(g)
			return b == nil || !isArgs(b, map[ssa.Value]bool{})
		})
	}
	checks["C03"] = func(r *Report, thorough bool) {
		r.rule("pipeline", "every index and slice of the tokenizer, parser, syntax checker and compiler is within bounds on all paths from every entry point", 30)
		engineCheck(r, "pipeline", thorough, func(g *Goal) bool {
			if g.kind == "assert" || !corePipeline(g.fn) {
				return false
			}
			f := p0file(r.p, g.fn)
			return !(f == "values.go" || f == "selectors.go" || f == "intrinsics.go" || f == "results.go" || f == "display.go")
		})
		streamRule(r)
	}
	checks["C04"] = func(r *Report, thorough bool) {
		r.rule("assert", "every unchecked type assertion only sees values of the asserted type on all paths from every entry point", 100)
		engineCheck(r, "assert", thorough, func(g *Goal) bool { return g.kind == "assert" })
	}
}

// Base name of the file of a function
func p0file(p *Program, fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	f := p.fset.Position(fn.Pos()).Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return f
}

// Is an element accessed by a number found in a table of slots?
func slotIndex(in ssa.Instruction) bool {
	var v ssa.Value
	switch x := in.(type) {
	case *ssa.IndexAddr:
		v = x.Index
	case *ssa.Index:
		v = x.Index
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		return x.X.Type().Underlying().String() == "map[string]uint"
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return l.X.Type().Underlying().String() == "map[string]uint"
		}
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			rg, ok := n.Iter.(*ssa.Range)
			return ok && rg.X.Type().Underlying().String() == "map[string]uint"
		}
	}
	return false
}
