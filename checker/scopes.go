package main

// C19: scripts run in the scope that they belong to

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type scoping struct {
	p     *Program
	scope *types.Named
	// Functions that may run for a command, and what is known of scopes there
	funcs  map[*ssa.Function]bool
	forms  map[any]map[string]bool // of parameters, free variables, fields, results
	made   map[scopeField]bool     // fields of the commands created along the way
	root   *ssa.Function
	change bool
}

func (p *Program) scopeType() *types.Named {
	for _, n := range p.namedT {
		if n.Obj().Name() == "Scope" && n.Obj().Pkg().Name() == "helena_dialect" {
			return n
		}
	}
	return nil
}

func (s *scoping) isScope(t types.Type) bool {
	return isPtr(t) && types.Identical(deref(t), s.scope)
}

type scopeField struct {
	t string
	f int
}

// Is a type that of commands?
func (s *scoping) isCommand(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	if !ok {
		return false
	}
	return s.p.executeOf(types.NewPointer(n)) != nil
}

func (s *scoping) add(k any, f map[string]bool) {
	m := s.forms[k]
	if m == nil {
		m = map[string]bool{}
		s.forms[k] = m
	}
	for x := range f {
		if !m[x] && len(m) < 20 {
			m[x] = true
			s.change = true
		}
	}
}

func oneForm(s string) map[string]bool { return map[string]bool{s: true} }

func wrapForms(w string, m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		if len(k) > 60 {
			k = "?"
		}
		r[w+"("+k+")"] = true
	}
	return r
}

// What a scope is
func (s *scoping) of(v ssa.Value, seen map[ssa.Value]bool) map[string]bool {
	if seen[v] {
		return nil
	}
	seen[v] = true
	defer delete(seen, v)
	switch y := v.(type) {
	case *ssa.Parameter:
		if y.Parent() == s.root {
			if len(s.root.Params) > 0 && y == s.root.Params[len(s.root.Params)-1] {
				return oneForm("caller")
			}
			return nil
		}
		return s.forms[y]
	case *ssa.FreeVar:
		return s.forms[y]
	case *ssa.TypeAssert:
		return s.of(y.X, seen)
	case *ssa.MakeInterface:
		return s.of(y.X, seen)
	case *ssa.ChangeInterface:
		return s.of(y.X, seen)
	case *ssa.ChangeType:
		return s.of(y.X, seen)
	case *ssa.Extract:
		if ta, ok := y.Tuple.(*ssa.TypeAssert); ok {
			return s.of(ta.X, seen)
		}
		if c, ok := y.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && s.funcs[f] {
				return s.results(f, y.Index, seen)
			}
		}
	case *ssa.Phi:
		r := map[string]bool{}
		for _, e := range y.Edges {
			for k := range s.of(e, seen) {
				r[k] = true
			}
		}
		return r
	case *ssa.UnOp:
		switch a := y.X.(type) {
		case *ssa.FieldAddr:
			return s.field(a.X.Type(), a.Field)
		case *ssa.Alloc, *ssa.FreeVar:
			return s.forms[a]
		}
	case *ssa.Field:
		return s.field(y.X.Type(), y.Field)
	case *ssa.Call:
		f := y.Call.StaticCallee()
		if f == nil {
			return oneForm("?")
		}
		if f.Signature.Recv() != nil && s.isScope(f.Signature.Recv().Type()) && s.isScope(y.Type()) {
			switch {
			case strings.Contains(f.Name(), "Child"):
				return wrapForms("child", s.of(y.Call.Args[0], seen))
			case strings.Contains(f.Name(), "Local"):
				return wrapForms("local", s.of(y.Call.Args[0], seen))
			}
		}
		if f.Name() == "NewRootScope" {
			return oneForm("root")
		}
		if s.funcs[f] {
			return s.results(f, 0, seen)
		}
	case *ssa.Const:
		return nil
	case *ssa.Alloc:
		return s.forms[y]
	}
	return oneForm("?")
}

func (s *scoping) results(f *ssa.Function, i int, seen map[ssa.Value]bool) map[string]bool {
	r := map[string]bool{}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			for k := range s.of(ret.Results[i], seen) {
				r[k] = true
			}
		}
	}
	return r
}

func (s *scoping) field(t types.Type, f int) map[string]bool {
	if k := (scopeField{deref(t).String(), f}); s.isCommand(t) && !s.made[k] {
		return oneForm("own")
	}
	return s.forms[scopeField{deref(t).String(), f}]
}

// Run of a program
type runSite struct {
	in   ssa.Instruction
	kind string // of program
	form map[string]bool
}

func (s *scoping) analyse(root *ssa.Function) []runSite {
	s.root = root
	s.funcs = map[*ssa.Function]bool{}
	s.forms = map[any]map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if s.funcs[f] || fnPkg(f) != s.scope.Obj().Pkg() || len(f.Blocks) == 0 {
			return
		}
		if r := f.Signature.Recv(); r != nil && f != root {
			d := deref(r.Type())
			if types.Identical(d, s.scope) || (f.Name() == "Execute" || f.Name() == "Resume" || f.Name() == "Help") && s.isCommand(d) {
				return
			}
		}
		s.funcs[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch y := (*op).(type) {
					case *ssa.Function:
						walk(y)
					case *ssa.MakeClosure:
						walk(y.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	walk(root)
	s.made = map[scopeField]bool{}
	for f := range s.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !s.isScope(st.Val.Type()) {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && s.isCommand(fa.X.Type()) {
					if r := root.Signature.Recv(); r == nil || !types.Identical(deref(r.Type()), deref(fa.X.Type())) {
						s.made[scopeField{deref(fa.X.Type()).String(), fa.Field}] = true
					}
				}
			}
		}
	}
	relevant := func(t types.Type) bool { return s.isScope(t) || types.IsInterface(t) && t.String() == "any" }
	for n := 0; n < 12; n++ {
		s.change = false
		for f := range s.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch y := in.(type) {
					case ssa.CallInstruction:
						g := y.Common().StaticCallee()
						if g == nil || !s.funcs[g] {
							continue
						}
						for i, a := range y.Common().Args {
							if i < len(g.Params) && relevant(g.Params[i].Type()) {
								s.add(g.Params[i], s.of(a, map[ssa.Value]bool{}))
							}
						}
					case *ssa.MakeClosure:
						g := y.Fn.(*ssa.Function)
						for i, a := range y.Bindings {
							if al, ok := a.(*ssa.Alloc); ok {
								s.add(g.FreeVars[i], s.forms[al])
							} else {
								s.add(g.FreeVars[i], s.of(a, map[ssa.Value]bool{}))
							}
						}
					case *ssa.Store:
						if !relevant(y.Val.Type()) {
							continue
						}
						switch a := y.Addr.(type) {
						case *ssa.FieldAddr:
							if !s.isCommand(a.X.Type()) || s.made[scopeField{deref(a.X.Type()).String(), a.Field}] {
								s.add(scopeField{deref(a.X.Type()).String(), a.Field}, s.of(y.Val, map[ssa.Value]bool{}))
							}
						case *ssa.Alloc, *ssa.FreeVar:
							s.add(a, s.of(y.Val, map[ssa.Value]bool{}))
						}
					}
				}
			}
		}
		if !s.change {
			break
		}
	}
	var sites []runSite
	for f := range s.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					if fa, ok := y.Addr.(*ssa.FieldAddr); ok && s.isScope(y.Val.Type()) && s.isCommand(fa.X.Type()) {
						sites = append(sites, runSite{in, "scope of " + strings.TrimPrefix(shortT(deref(fa.X.Type())), "helena_dialect."), s.of(y.Val, map[ssa.Value]bool{})})
					}
				case ssa.CallInstruction:
					c := y.Common()
					if c.IsInvoke() {
						for _, a := range c.Args {
							if mi, ok := a.(*ssa.MakeInterface); ok && s.isScope(mi.X.Type()) || !ok && relevantContext(c, a) {
								sites = append(sites, runSite{in, "calls", s.of(a, map[ssa.Value]bool{})})
							}
						}
						continue
					}
					g := c.StaticCallee()
					if g == nil {
						continue
					}
					var sc, pr ssa.Value
					for _, a := range c.Args {
						if s.isScope(a.Type()) {
							sc = a
						}
						if isPtr(a.Type()) && shortT(deref(a.Type())) == "core.Program" {
							pr = a
						}
					}
					switch {
					case (g.Name() == "Execute" || g.Name() == "Resume") && g.Signature.Recv() != nil && s.isCommand(g.Signature.Recv().Type()):
						sites = append(sites, runSite{in, "calls", s.of(c.Args[len(c.Args)-1], map[ssa.Value]bool{})})
					case g.Signature.Recv() != nil && s.isScope(g.Signature.Recv().Type()) && pr == nil:
						switch n := g.Name(); {
						case strings.HasPrefix(n, "Compile") || strings.HasPrefix(n, "New") || n == "PrepareProcess":
						default:
							sites = append(sites, runSite{in, scopeUse(n), s.of(c.Args[0], map[ssa.Value]bool{})})
						}
					case sc != nil && pr != nil && !s.forwards(f, sc, pr) && !s.isCommand(c.Signature().Results().At(0).Type()):
						sites = append(sites, runSite{in, s.kind(pr, map[ssa.Value]bool{}), s.of(sc, map[ssa.Value]bool{})})
					}
				}
			}
		}
	}
	return sites
}

func relevantContext(c *ssa.CallCommon, a ssa.Value) bool {
	switch c.Method.Name() {
	case "Execute", "Resume":
		return a == c.Args[len(c.Args)-1]
	}
	return false
}

// Kinds of uses of a scope
func scopeUse(n string) string {
	switch {
	case strings.HasPrefix(n, "Register"):
		return "defines commands"
	case strings.HasPrefix(n, "Set"), strings.HasPrefix(n, "Unset"), strings.HasPrefix(n, "Destructure"), strings.HasPrefix(n, "Clear"), strings.HasPrefix(n, "check"):
		return "sets variables"
	case strings.HasSuffix(n, "Command"), strings.HasSuffix(n, "CommandNames"):
		return "resolves commands"
	default:
		return "reads variables"
	}
}

// Does a function pass on the scope and the program it is given?
func (s *scoping) forwards(f *ssa.Function, sc, pr ssa.Value) bool {
	_, a := sc.(*ssa.Parameter)
	_, b := pr.(*ssa.Parameter)
	if u, ok := pr.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && s.isScope(sc.Type()) {
			if n := fieldName(fa.X.Type(), fa.Field); n == "program" || n == "Program" {
				b = b || shortT(deref(fa.X.Type())) == "helena_dialect.ProcessContext"
				if u2, ok := sc.(*ssa.UnOp); ok {
					if fb, ok := u2.X.(*ssa.FieldAddr); ok && shortT(deref(fb.X.Type())) == "helena_dialect.ProcessContext" {
						a = true
					}
				}
			}
		}
	}
	return a && b
}

// Is a program the call of a command, or a script?
func (s *scoping) kind(v ssa.Value, seen map[ssa.Value]bool) string {
	if s.isCall(v, seen) {
		return "calls"
	}
	return "runs"
}
func (s *scoping) isCall(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Call:
		if f := y.Call.StaticCallee(); f != nil {
			switch f.Name() {
			case "CompilePair", "CompileArgs", "CompileTupleValue":
				return true
			}
			if !s.funcs[f] {
				return false
			}
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 && !s.isCall(ret.Results[0], seen) {
					return false
				}
			}
			return true
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !s.isCall(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// Scopes that commands use other than the one they are called in. Anything else
// is done in the scope of the caller.
var scopeSpec = map[string][]string{
	// Callables
	"procCmd.scope of procCommand":           {"caller", "local(caller)"},
	"procCommand.runs":                       {"child(own)", "own"}, // own: defaults of arguments
	"procCommand.calls":                      {"own"},               // guards
	"procCommand.sets variables":             {"child(own)"},
	"closureCmd.scope of closureCommand":     {"caller", "local(caller)"},
	"closureCommand.runs":                    {"local(own)", "own"},
	"closureCommand.calls":                   {"own"},
	"macroCommand.runs":                      {"local(caller)", "caller"},
	"macroCommand.calls":                     {"caller"},
	"coroutineCmd.scope of coroutineCommand": {"caller", "local(caller)"},
	"coroutineCommand.runs":                  {"own"},
	// Scopes by name
	"namespaceCmd.runs":                      {"child(caller)"},
	"namespaceCmd.scope of namespaceCommand": {"child(caller)"},
	"namespaceCommand.calls":                 {"own"},
	"namespaceCommand.resolves commands":     {"own"},
	"namespaceMetacommand.runs":              {"own"},
	"namespaceMetacommand.calls":             {"own"},
	"namespaceMetacommand.resolves commands": {"own"},
	"scopeCmd.runs":                          {"child(caller)"},
	"scopeCmd.scope of scopeCommand":         {"child(caller)"},
	"scopeCommand.runs":                      {"own"},
	"scopeCommand.calls":                     {"own"},
	"scopeCommand.resolves commands":         {"own"},
	"ensembleCmd.runs":                       {"child(caller)"},
	"ensembleCmd.scope of EnsembleCommand":   {"child(caller)"},
	"EnsembleCommand.resolves commands":      {"own"},
	"ensembleMetacommand.runs":               {"own"},
	"ensembleMetacommand.resolves commands":  {"own"},
	// Modules
	"Module.resolves commands":        {"own"},
	"importCmd.resolves commands":     {"own"},
	"importCmd.runs":                  {"root"},
	"moduleCommand.runs":              {"root"},
	"moduleCommand.resolves commands": {"own"},
	// Iterations
	"loopCmd.runs":                  {"local(caller)"},
	"loopCmd.calls":                 {"local(caller)"},
	"loopCmd.sets variables":        {"local(caller)"},
	"dictForeachCmd.runs":           {"local(caller)"},
	"dictForeachCmd.sets variables": {"local(caller)"},
	"listForeachCmd.runs":           {"local(caller)"},
	"listForeachCmd.sets variables": {"local(caller)"},
	// Handlers
	"catchCmd.runs": {"caller", "local(caller)"},
}

func plainScope(k string) string {
	for {
		n := strings.NewReplacer("local(local(", "local((", "child(local(", "child((").Replace(k)
		if n == k {
			break
		}
		k = n
	}
	for strings.Contains(k, "((") {
		k = strings.Replace(k, "((", "(", 1)
		k = strings.Replace(k, "))", ")", 1)
	}
	return k
}

func scopeRules(r *Report) {
	p := r.p
	s := &scoping{p: p, scope: p.scopeType()}
	if s.scope == nil {
		return
	}
	for _, fn := range p.funcs {
		if fnPkg(fn) == s.scope.Obj().Pkg() && fn.Parent() == nil && fn.Signature.Recv() == nil && len(fn.Params) == 1 && s.isScope(fn.Params[0].Type()) && fn.Object() != nil && fn.Object().Exported() {
			s.rules(r, fn, "", []string{"caller", "child(caller)"})
		}
	}
	for _, n := range p.namedT {
		if p.test(n.Obj().Pos()) || n.Obj().Pkg() != s.scope.Obj().Pkg() {
			continue
		}
		t := types.Type(types.NewPointer(n))
		if p.executeOf(t) == nil {
			continue
		}
		for _, m := range []string{"Execute", "Resume", "Help"} {
			fn := p.methodOf(t, m)
			if fn == nil || len(fn.Blocks) == 0 {
				continue
			}
			s.rules(r, fn, n.Obj().Name(), []string{"caller"})
		}
	}
}

func (s *scoping) rules(r *Report, fn *ssa.Function, cmd string, usual []string) {
	p := s.p
	m := fn.Name()
	for _, u := range s.analyse(fn) {
		spec, ok := scopeSpec[cmd+"."+u.kind]
		if !ok {
			spec = usual
			if strings.HasPrefix(u.kind, "scope of ") { // or kept elsewhere
				for k, l := range scopeSpec {
					if cmd != "" && strings.HasPrefix(k, cmd+".scope of ") {
						spec = append(slices.Clone(l), spec...)
					}
				}
			}
		}
		rule := "run"
		switch u.kind {
		case "runs", "calls":
		case "defines commands", "resolves commands", "sets variables", "reads variables":
			rule = "names"
		default:
			rule = "definition"
		}
		in := u.in.Parent()
		what := strings.TrimSpace(cmd + " " + u.kind)
		who := m
		if cmd != "" {
			who += " of " + cmd
		}
		var forms []string
		bad, unknown := "", len(u.form) == 0
		for k := range u.form {
			k = plainScope(k)
			forms = append(forms, k)
			switch {
			case strings.Contains(k, "?"):
				unknown = true
			case strings.Contains(k, "root") && rule != "run": // of a new module
			case !slices.Contains(spec, k):
				bad = k
			}
		}
		sort.Strings(forms)
		switch {
		case bad != "":
			r.fail(rule, in, what+" "+bad, p.instrPos(u.in), fmt.Sprintf("%s %s in a scope that is %s, should be %s", who, u.kind, scopeText(bad), scopeTexts(spec)),
				"in "+shortFn(in))
		case unknown:
			r.excluded(rule, in, what, "scope of unknown origin")
		default:
			r.ok(rule, in, p.instrPos(u.in)+" "+what+" in "+strings.Join(forms, " or "))
		}
	}
}

func scopeText(k string) string {
	if i := strings.Index(k, "("); i > 0 {
		return "a new " + k[:i] + " scope of " + scopeText(strings.TrimSuffix(k[i+1:], ")"))
	}
	switch k {
	case "caller":
		return "that of the caller"
	case "own":
		return "its own"
	case "root":
		return "a new root scope"
	}
	return k
}
func scopeTexts(l []string) string {
	var r []string
	for _, k := range l {
		r = append(r, scopeText(k))
	}
	return strings.Join(r, " or ")
}

func init() {
	checks["C19"] = func(r *Report, thorough bool) {
		r.rule("run", "scopes that the scripts and commands run by a command are given", 60)
		r.rule("names", "scopes whose variables and commands a command reads or defines", 40)
		r.rule("definition", "scopes kept by the commands that a command creates", 8)
		scopeRules(r)
	}
}
