package main

// C15: module files are loaded once, and circular imports are refused

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Registries hold modules and reserved names by path
type registry struct {
	p        *Program
	typ      *types.Named
	modules  int // fields
	reserved int
	loads    map[*ssa.Function]bool // functions that touch a registry, read files or run programs
	runs     map[*ssa.Function]bool // functions reaching the execution of programs
}

func (p *Program) findRegistry() *registry {
	for _, n := range p.namedT {
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		g := &registry{p: p, typ: n, modules: -1, reserved: -1}
		for i := 0; i < s.NumFields(); i++ {
			m, ok := s.Field(i).Type().Underlying().(*types.Map)
			if !ok {
				continue
			}
			switch e := m.Elem().Underlying().(type) {
			case *types.Pointer:
				if strings.HasSuffix(m.Elem().String(), ".Module") {
					g.modules = i
				}
			case *types.Struct:
				if e.NumFields() == 0 {
					g.reserved = i
				}
			case *types.Basic:
				if e.Kind() == types.Bool {
					g.reserved = i
				}
			}
		}
		if g.modules >= 0 && g.reserved >= 0 {
			g.closure()
			return g
		}
	}
	return nil
}

// Field of a registry that a map is
func (g *registry) field(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !types.Identical(deref(fa.X.Type()), g.typ) {
		return ""
	}
	switch fa.Field {
	case g.modules:
		return "modules"
	case g.reserved:
		return "reserved"
	}
	return ""
}

// Access to the tables of a registry
func (g *registry) access(in ssa.Instruction) (field, op string, key, val ssa.Value) {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if f := g.field(x.Map); f != "" {
			op := "add"
			if k, ok := x.Value.(*ssa.Const); ok && f == "reserved" && k.Value != nil && k.Value.String() == "false" {
				op = "remove"
			}
			return f, op, x.Key, x.Value
		}
	case *ssa.Lookup:
		if f := g.field(x.X); f != "" {
			return f, "get", x.Index, nil
		}
	case ssa.CallInstruction:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			if f := g.field(x.Common().Args[0]); f != "" {
				return f, "remove", x.Common().Args[1], nil
			}
		}
	}
	return "", "", nil, nil
}

func readsFile(c ssa.CallInstruction) ssa.Value {
	f := c.Common().StaticCallee()
	if f == nil {
		return nil
	}
	switch f.String() {
	case "os.ReadFile", "os.Open", "os.OpenFile", "io/ioutil.ReadFile":
		return c.Common().Args[0]
	}
	return nil
}

// Functions to enter: those of the package of the registry that statically reach
// accesses to registries, file reads or executions
func (g *registry) closure() {
	p := g.p
	g.loads, g.runs = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var exec *ssa.Function
	for _, fn := range p.funcs {
		if strings.HasSuffix(fn.String(), "core.Executor).ExecuteUntil") {
			exec = fn
		}
	}
	g.runs[exec] = true
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, isCall := in.(ssa.CallInstruction)
					var f *ssa.Function
					if isCall {
						f = c.Common().StaticCallee()
					}
					if !g.runs[fn] && f != nil && g.runs[f] {
						g.runs[fn] = true
						changed = true
					}
					if !g.loads[fn] && fnPkg(fn) == g.typ.Obj().Pkg() {
						_, op, _, _ := g.access(in)
						mk, isMk := in.(*ssa.MakeClosure)
						if op != "" || isCall && readsFile(c) != nil || f != nil && g.loads[f] || isMk && g.loads[mk.Fn.(*ssa.Function)] {
							g.loads[fn] = true
							changed = true
						}
					}
				}
			}
		}
	}
}

// Is a call the execution of a program?
func (g *registry) isRun(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f != nil && g.runs[f] && !g.enters(f)
}

func (g *registry) enters(f *ssa.Function) bool {
	if g.loads[f] {
		return true
	}
	if fnPkg(f) != g.typ.Obj().Pkg() {
		return false
	}
	// Functions making modules out of scripts
	if !g.runs[f] {
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if strings.HasSuffix(f.Signature.Results().At(i).Type().String(), ".Module") {
			return true
		}
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() == nil && g.p.fset.Position(f.Pos()).Filename == g.p.fset.Position(g.typ.Obj().Pos()).Filename
}

func init() {
	checks["C15"] = func(r *Report, thorough bool) {
		p := r.p
		r.rule("reserve", "a path is only reserved once known not to be, and released by who reserved it", 1)
		r.rule("release", "no function loading a module ends with a path still reserved, whatever the outcome", 3)
		r.rule("read", "files are only read, and their scripts run, while their path is reserved and known not to be registered", 1)
		r.rule("register", "modules are registered under the path they were read from, only after their script succeeded, and never replaced", 1)
		r.rule("once", "a module file whose script succeeded is registered by the time it is returned", 1)
		r.rule("relative", "the script of a module file imports other files from the directory of this file", 1)
		r.rule("exported", "commands are only taken from the scope of a module under names that it exports", 1)
		g := p.findRegistry()
		if g == nil {
			panic("no registry of modules")
		}
		var roots []*ssa.Function
		for _, fn := range p.funcs {
			if !g.loads[fn] || fn.Parent() != nil {
				continue
			}
			if rv := fn.Signature.Recv(); rv != nil && types.Identical(deref(rv.Type()), g.typ) && fn.Object().Exported() {
				// Methods called by embedding programs
				if len(p.callers[fn]) > 0 || !g.readsWithin(fn) {
					continue
				}
			}
			inner := false
			for _, c := range p.callers[fn] {
				if g.loads[c.Parent()] {
					inner = true
				}
			}
			if !inner && g.works(fn) {
				roots = append(roots, fn)
			}
		}
		if len(roots) == 0 {
			panic("no function loads modules")
		}
		for _, fn := range roots {
			g.check(r, fn)
		}
		g.exported(r)
		r.extra["roots"] = len(roots)
	}
}

// Does a function read files, or write tables?
func (g *registry) works(fn *ssa.Function) bool { return g.has(fn, map[*ssa.Function]bool{}, true) }
func (g *registry) readsWithin(fn *ssa.Function) bool {
	return g.has(fn, map[*ssa.Function]bool{}, false)
}

func (g *registry) has(fn *ssa.Function, seen map[*ssa.Function]bool, writes bool) bool {
	if seen[fn] || !g.loads[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, op, _, _ := g.access(in); writes && (op == "add" || op == "remove") {
				return true
			}
			if mk, ok := in.(*ssa.MakeClosure); ok && g.has(mk.Fn.(*ssa.Function), seen, writes) {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if readsFile(c) != nil {
					return true
				}
				if f := c.Common().StaticCallee(); f != nil && g.has(f, seen, writes) {
					return true
				}
			}
		}
	}
	return false
}

func (g *registry) check(r *Report, root *ssa.Function) {
	p := g.p
	seen := map[string]bool{}
	good := map[string]*ssa.Function{} // obligations met, by rule and position
	report := func(rule string, fn *ssa.Function, in ssa.Instruction, msg string) {
		key := shortFn(fn) + " " + msg
		if !seen[rule+key] {
			seen[rule+key] = true
			r.fail(rule, fn, key, p.instrPos(in), msg+" in "+shortFn(fn)+", on a path from "+shortFn(root))
		}
		seen["bad "+rule+p.instrPos(in)] = true
	}
	judge := func(rule string, fn *ssa.Function, in ssa.Instruction, ok bool, msg string) {
		if ok {
			good[rule+"\x00"+p.instrPos(in)] = fn
		} else {
			report(rule, fn, in, msg)
		}
	}
	x := newExplorer(p)
	x.enter = g.enters
	// Facts: "held K", "res K" = no, "reg K" = no|yes, "read" = K, "ran" = id of the result
	x.branch = func(x *explorer, st *xstate, c ref, truth bool) bool {
		v := c.v
		if e, ok := v.(*ssa.Extract); ok && e.Index == 1 {
			v = e.Tuple
		}
		if bo, ok := v.(*ssa.BinOp); ok {
			// Entry compared with nil
			for _, pair := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				a := x.resolve(st, ref{pair[0], c.fr})
				k, isK := pair[1].(*ssa.Const)
				if e, ok := a.v.(*ssa.Extract); ok && e.Index == 0 {
					a.v = e.Tuple
				}
				if l, ok := a.v.(*ssa.Lookup); ok && isK && k.IsNil() && g.field(l.X) == "modules" {
					key := x.keyOf(st, ref{l.Index, a.fr})
					absent := (bo.Op.String() == "==") == truth
					return g.learn(st, "reg "+key, absent)
				}
			}
			return true
		}
		if l, ok := v.(*ssa.Lookup); ok {
			key := x.keyOf(st, ref{l.Index, c.fr})
			switch g.field(l.X) {
			case "reserved":
				if _, held := st.facts["held "+key]; held {
					return truth
				}
				return g.learn(st, "res "+key, !truth)
			case "modules":
				return g.learn(st, "reg "+key, !truth)
			}
		}
		return true
	}
	x.visit = func(x *explorer, st *xstate, fr *xframe, in ssa.Instruction) {
		fn := fr.fn
		field, op, kv, val := g.access(in)
		if op == "add" || op == "remove" {
			key := x.keyOf(st, ref{kv, fr})
			_, held := st.facts["held "+key]
			switch {
			case field == "reserved" && op == "add":
				judge("reserve", fn, in, !held && st.facts["res "+key] == "no", "path reserved without knowing that it isn't")
				st.facts["held "+key] = "yes"
				delete(st.facts, "res "+key)
			case field == "reserved":
				judge("reserve", fn, in, held, "path released by a loader that hasn't reserved it")
				delete(st.facts, "held "+key)
			case op == "add":
				judge("register", fn, in, st.facts["reg "+key] == "no", "module registered without knowing that its path isn't taken")
				judge("register", fn, in, st.facts["read"] == key, "module registered under another path than that of its file")
				code, ran := st.facts["code"]
				judge("register", fn, in, ran && code == fmt.Sprint(codeOK), "module registered though its script may have failed")
				m := x.resolve(st, ref{val, fr})
				k, isK := m.v.(*ssa.Const)
				judge("register", fn, in, !isK || !k.IsNil(), "absent module registered")
				st.facts["reg "+key] = "yes"
				st.facts["done"] = "yes"
			}
			return
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if _, ok := c.(*ssa.Defer); ok {
			return
		}
		if k := readsFile(c); k != nil {
			key := x.keyOf(st, ref{k, fr})
			_, held := st.facts["held "+key]
			judge("read", fn, in, held, "file read without its path being reserved")
			judge("read", fn, in, st.facts["reg "+key] == "no", "file read without knowing that it isn't loaded")
			st.facts["read"] = key
		}
		if key, ok := st.facts["read"]; ok && st.facts["ran"] == "" && g.isRun(c) {
			_, held := st.facts["held "+key]
			judge("read", fn, in, held, "script of a module file run without its path being reserved")
			if v, ok := c.(*ssa.Call); ok && isCoreResult(v.Type()) {
				st.facts["ran"] = x.id(ref{v, fr})
			}
		}
		if key, ok := st.facts["read"]; ok && st.facts["ran"] == "" {
			if f := c.Common().StaticCallee(); f != nil && p.inModule[f] && x.target(st, fr, c) == nil {
				reg, dir := false, ssa.Value(nil)
				for _, a := range c.Common().Args {
					if types.Identical(deref(a.Type()), g.typ) {
						reg = true
					} else if a.Type().Underlying().String() == "string" {
						dir = a
					}
				}
				if reg && dir != nil {
					judge("relative", fn, in, x.keyOf(st, ref{dir, fr}) == "Dir("+key+")", "scripts of module files import from another directory than theirs")
				}
			}
		}
		if id, ok := st.facts["ran"]; ok {
			if m, ok := st.codes[id]; ok {
				st.facts["code"] = fmt.Sprint(m)
			}
		}
	}
	x.end = func(x *explorer, st *xstate, in ssa.Instruction, res []ref) {
		fn := root
		var held []string
		for k := range st.facts {
			if strings.HasPrefix(k, "held ") {
				held = append(held, k)
			}
		}
		judge("release", fn, in, len(held) == 0, "module path still reserved")
		if id, ok := st.facts["ran"]; ok {
			m, ok := st.codes[id]
			if !ok {
				m = codeAny
			}
			if m&codeOK != 0 {
				judge("once", fn, in, st.facts["done"] == "yes", "module file run but not registered")
			}
		}
	}
	x.run(root, newXstate())
	var keys []string
	for k := range good {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		rule, pos, _ := strings.Cut(k, "\x00")
		if !seen["bad "+rule+pos] {
			r.ok(rule, good[k], pos+" "+shortFn(good[k])+" from "+shortFn(root))
		}
	}
	r.extra["steps "+shortFn(root)] = x.steps
}

// Record what a test tells, false if known otherwise
func (g *registry) learn(st *xstate, fact string, absent bool) bool {
	v := "yes"
	if absent {
		v = "no"
	}
	if old, ok := st.facts[fact]; ok && old != v {
		return false
	}
	st.facts[fact] = v
	return true
}

// Module that a scope belongs to is read through its field
func isModuleMap(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Type().Underlying().String() == "map[string]helena/core.Value"
}

// Commands of the scope of a module are resolved by exported names only
func (g *registry) exported(r *Report) {
	p := g.p
	file := p.fset.Position(g.typ.Obj().Pos()).Filename
	within := func(fn *ssa.Function) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return p.fset.Position(fn.Pos()).Filename == file
	}
	resolves := func(c ssa.CallInstruction) ssa.Value {
		f := c.Common().StaticCallee()
		if f == nil || f.Signature.Recv() == nil || !strings.HasSuffix(deref(f.Signature.Recv().Type()).String(), ".Scope") {
			return nil
		}
		res := f.Signature.Results()
		if res.Len() != 1 || !strings.HasSuffix(res.At(0).Type().String(), "core.Command") || len(c.Common().Args) != 2 {
			return nil
		}
		return c.Common().Args[1]
	}
	has := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && within(fn) && resolves(c) != nil {
					has[fn] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && within(fn) && !has[fn] {
						if f := c.Common().StaticCallee(); f != nil && has[f] {
							has[fn] = true
							changed = true
						}
					}
				}
			}
		}
	}
	counted := map[string]bool{}
	for _, root := range p.funcs {
		if !has[root] || !p.entryPoint(root) {
			continue
		}
		x := newExplorer(p)
		x.enter = within
		x.branch = func(x *explorer, st *xstate, c ref, truth bool) bool {
			var l *ssa.Lookup
			fr := c.fr
			absent := !truth
			if e, ok := c.v.(*ssa.Extract); ok && e.Index == 1 {
				l, _ = e.Tuple.(*ssa.Lookup)
			} else if bo, ok := c.v.(*ssa.BinOp); ok {
				for _, pair := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					a := x.resolve(st, ref{pair[0], c.fr})
					if e, ok := a.v.(*ssa.Extract); ok && e.Index == 0 {
						a.v = e.Tuple
					}
					if k, ok := pair[1].(*ssa.Const); ok && k.IsNil() {
						l, _ = a.v.(*ssa.Lookup)
						fr = a.fr
						absent = (bo.Op.String() == "==") == truth
					}
				}
			}
			if l != nil && isModuleMap(l.X) {
				return g.learn(st, "exp "+x.keyOf(st, ref{l.Index, fr}), absent)
			}
			return true
		}
		x.visit = func(x *explorer, st *xstate, fr *xframe, in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			k := resolves(c)
			if k == nil {
				return
			}
			if st.facts["exp "+x.keyOf(st, ref{k, fr})] == "yes" {
				pos := p.instrPos(in) + shortFn(root)
				if counted[pos] {
					return
				}
				counted[pos] = true
				r.ok("exported", fr.fn, p.instrPos(in)+" "+shortFn(fr.fn)+" from "+shortFn(root))
			} else {
				r.fail("exported", fr.fn, shortFn(fr.fn), p.instrPos(in), "command taken from a module without checking that it exports it, in "+shortFn(fr.fn))
			}
		}
		x.run(root, newXstate())
	}
}
