package main

// C16: interpreters are independent and deterministic

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions that run at most once, as the package is initialised
func (p *Program) initOnly() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || !strings.HasSuffix(c.Common().StaticCallee().String(), "sync.Once).Do") {
					continue
				}
				switch f := c.Common().Args[1].(type) {
				case *ssa.Function:
					out[f] = true
				case *ssa.MakeClosure:
					out[f.Fn.(*ssa.Function)] = true
				}
			}
		}
		if fn.Name() == "init" || len(fn.Name()) > 5 && fn.Name()[:5] == "init#" {
			out[fn] = true
		}
	}
	return out
}

// Shared state: what package variables give access to, and is written outside of
// initialisation
type globals struct {
	p       *Program
	ini     map[*ssa.Function]bool
	inits   map[*ssa.Function]bool // functions called by initialisation
	tainted map[ssa.Value]string
	cells   map[string]string // fields holding shared references -> variable
	work    []ssa.Value
}

// May a value give access to something that can be modified?
func (g *globals) mutable(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		return true
	case *types.Interface:
		return true
	case *types.Array:
		return g.mutable(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if g.mutable(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// Types shared by design
func sharedType(t types.Type) string {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "sync.Once":
		return "initialisation on first use"
	case "sync.Pool":
		return "pools of objects that are cleared when released (C07)"
	case "helena/helena_dialect.ModuleRegistry":
		return "registry of modules, shared by the scopes that InitCommands sets up"
	}
	return ""
}

func (g *globals) taint(v ssa.Value, why string) {
	if v == nil || g.tainted[v] != "" {
		return
	}
	t := v.Type()
	if _, isAddr := v.(*ssa.Global); !isAddr && (!g.mutable(t, map[types.Type]bool{}) || sharedType(t) != "") {
		return
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil {
		return
	}
	g.tainted[v] = why
	g.work = append(g.work, v)
}

func (p *Program) globals() *globals {
	g := &globals{p: p, ini: p.initOnly(), inits: map[*ssa.Function]bool{}, tainted: map[ssa.Value]string{}, cells: map[string]string{}}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if g.inits[fn] || len(fn.Blocks) == 0 || !p.inModule[fn] {
			return
		}
		g.inits[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						walk(f)
					}
				}
			}
		}
	}
	for fn := range g.ini {
		walk(fn)
	}
	for _, v := range g.vars() {
		why := v.Name()
		if sharedType(deref(v.Type())) == "" {
			g.taint(v, why)
		}
	}
	for fn := range g.inits {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeClosure:
					// Variables captured by functions made once
					f := x.Fn.(*ssa.Function)
					for _, fv := range f.FreeVars {
						g.taint(fv, fv.Name()+" captured by "+shortFn(f))
					}
				case *ssa.MakeInterface:
					if g.ini[fn] {
						g.methods(x.X.Type())
					}
				}
			}
		}
	}
	for len(g.work) > 0 {
		v := g.work[len(g.work)-1]
		g.work = g.work[:len(g.work)-1]
		g.flow(v)
	}
	return g
}

// Receivers of the methods of an object made once
func (g *globals) methods(t types.Type) {
	if sharedType(t) != "" || !g.mutable(t, map[types.Type]bool{}) {
		return
	}
	n, ok := deref(t).(*types.Named)
	if !ok || !g.p.isModPkg(n.Obj().Pkg()) {
		return
	}
	for _, fn := range g.p.funcs {
		rv := fn.Signature.Recv()
		if rv == nil || len(fn.Params) == 0 || !types.Identical(deref(rv.Type()), n) {
			continue
		}
		if _, isPtr := rv.Type().(*types.Pointer); isPtr {
			if _, ok := t.(*types.Pointer); !ok {
				continue
			}
		}
		g.taint(fn.Params[0], "shared "+shortT(t))
	}
}

func (g *globals) vars() []*ssa.Global {
	var out []*ssa.Global
	for _, pk := range g.p.prog.AllPackages() {
		if !g.p.isModPkg(pk.Pkg) || exemptPkg(pk.Pkg) {
			continue
		}
		for _, n := range sortedKeys(pk.Members) {
			if v, ok := pk.Members[n].(*ssa.Global); ok && n != "init$guard" {
				out = append(out, v)
			}
		}
	}
	return out
}

// Programs using the interpreter
func exemptPkg(pk *types.Package) bool {
	return pk == nil || pk.Path() == "helena/cli" || pk.Path() == "helena/benchmarks" || pk.Path() == "helena"
}

// Values giving access to the same objects
func (g *globals) flow(v ssa.Value) {
	why := g.tainted[v]
	if v.Referrers() == nil {
		// Globals and functions have no referrers
		for _, fn := range g.p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == v {
							g.use(v, in, why)
							break
						}
					}
				}
			}
		}
		return
	}
	for _, in := range *v.Referrers() {
		g.use(v, in, why)
	}
}

func (g *globals) use(v ssa.Value, in ssa.Instruction, why string) {
	if g.ini[in.Parent()] {
		return
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		g.taint(x, why)
	case *ssa.FieldAddr:
		g.taint(x, why)
	case *ssa.IndexAddr:
		g.taint(x, why)
	case *ssa.Field:
		g.taint(x, why)
	case *ssa.Index:
		g.taint(x, why)
	case *ssa.Lookup:
		if x.X == v {
			g.taint(x, why)
		}
	case *ssa.Extract:
		g.taint(x, why)
	case *ssa.Slice:
		g.taint(x, why)
	case *ssa.Phi:
		g.taint(x, why)
	case *ssa.ChangeType:
		g.taint(x, why)
	case *ssa.ChangeInterface:
		g.taint(x, why)
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
			g.taint(x, why)
		}
	case *ssa.TypeAssert:
		g.taint(x, why)
	case *ssa.Return:
		for i, r := range x.Results {
			if r != v {
				continue
			}
			for _, c := range g.p.callers[x.Parent()] {
				cv, ok := c.(*ssa.Call)
				if !ok {
					continue
				}
				if len(x.Results) == 1 {
					g.taint(cv, why)
					continue
				}
				for _, u := range *cv.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == i {
						g.taint(e, why)
					}
				}
			}
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v {
				g.taint(f.FreeVars[i], why)
			}
		}
	case ssa.CallInstruction:
		if f := x.Common().StaticCallee(); f != nil && g.p.inModule[f] {
			for i, a := range x.Common().Args {
				if a == v && i < len(f.Params) {
					// Values and commands are what interpreters work on: they are
					// covered by the ownership rules
					if _, isIface := v.Type().Underlying().(*types.Interface); !isIface {
						g.taint(f.Params[i], why)
					}
				}
			}
		}
	}
}

// Writes to shared state
func (g *globals) writes(f func(fn *ssa.Function, in ssa.Instruction, what string)) {
	for _, fn := range g.p.funcs {
		if g.ini[fn] || exemptPkg(fnPkg(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if why := g.tainted[x.Addr]; why != "" {
						if _, ok := x.Addr.(*ssa.Alloc); !ok {
							f(fn, in, why)
						}
					}
				case *ssa.MapUpdate:
					if why := g.tainted[x.Map]; why != "" {
						f(fn, in, why)
					}
				case *ssa.Send:
					if why := g.tainted[x.Chan]; why != "" {
						f(fn, in, why)
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							if why := g.tainted[cc.Args[0]]; why != "" {
								f(fn, in, why)
							}
						}
						continue
					}
					// Methods of library types called on shared objects (sync.Map,
					// atomic values, maps.Copy)
					callee := cc.StaticCallee()
					if callee == nil || g.p.inModule[callee] {
						continue
					}
					for i, a := range cc.Args {
						why := g.tainted[a]
						if why == "" || sharedType(a.Type()) != "" {
							continue
						}
						switch t := a.Type().Underlying().(type) {
						case *types.Pointer:
							if n, ok := t.Elem().(*types.Named); ok && n.String() == "regexp.Regexp" {
								continue
							}
							f(fn, in, why)
						case *types.Map, *types.Slice:
							if i == 0 && !pureLib(callee.String()) {
								f(fn, in, why)
							}
						}
					}
				}
			}
		}
	}
}

// Library functions only reading their first argument
func pureLib(name string) bool {
	name, _, _ = strings.Cut(name, "[")
	switch name {
	case "golang.org/x/exp/maps.Clone", "maps.Clone", "slices.Clone", "strings.Join", "maps.Keys", "slices.Contains", "slices.Index", "fmt.Sprint":
		return true
	}
	return false
}

// What packages of the interpreter may use of the libraries
var purePkgs = map[string]bool{
	"fmt": true, "strings": true, "strconv": true, "regexp": true, "reflect": true, "math": true, "math/big": true, "sort": true,
	"slices": true, "maps": true, "golang.org/x/exp/maps": true, "golang.org/x/exp/slices": true, "sync": true, "path/filepath": true, "path": true,
	"bytes": true, "errors": true, "unicode": true, "unicode/utf8": true, "cmp": true, "iter": true, "regexp/syntax": true, "math/bits": true,
	"container/list": true, "container/heap": true, "sync/atomic": true, "math/cmplx": true, "encoding/json": true, "internal/reflectlite": true,
	"unique": true, "bufio": true,
}
var impure = map[string]bool{"fmt.Print": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Scan": true, "fmt.Scanln": true, "fmt.Scanf": true,
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "path/filepath.EvalSymlinks": true, "path/filepath.Abs": true}

// Exceptions, by package
var capabilities = map[string]map[string]string{
	"helena/helena_dialect": {"os.ReadFile": "import of a module file", "os.Getwd": "root directory of the scopes set up by InitCommands"},
	"helena/native/go_os":   {"os": "module giving access to the system"},
	"helena/native/go_slog": {"log/slog": "module giving access to logs"},
}

func init() {
	checks["C16"] = func(r *Report, thorough bool) {
		p := r.p
		r.rule("shared", "nothing that package variables give access to is written once initialised, except pools and the registry of modules: what one interpreter does can't be seen by another", 30)
		r.rule("ambient", "apart from the import command and the native modules meant for it, the interpreter calls no library function depending on, or acting on, anything else than its arguments (files, environment, time, random numbers, output)", 40)
		r.rule("sequential", "the interpreter starts no goroutine and uses no channel: commands run in the order of the script", 400)
		g := p.globals()
		bad := map[string]bool{}
		n := 0
		g.writes(func(fn *ssa.Function, in ssa.Instruction, what string) {
			bad[what] = true
			n++
			r.fail("shared", fn, shortFn(fn)+" "+what, p.instrPos(in), "state shared by all interpreters ("+what+") is written by "+shortFn(fn))
		})
		for _, v := range g.vars() {
			if s := sharedType(deref(v.Type())); s != "" {
				r.excluded("shared", nil, "variables of type "+shortT(deref(v.Type())), s)
			} else if !bad[v.Name()] {
				r.ok("shared", nil, v.String())
			}
		}
		r.extra["shared_values_followed"] = len(g.tainted)
		for _, fn := range p.funcs {
			pk := fnPkg(fn)
			if exemptPkg(pk) {
				continue
			}
			seq := true
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					why := ""
					switch x := in.(type) {
					case *ssa.Go:
						why = "goroutine started"
					case *ssa.Send, *ssa.Select, *ssa.MakeChan:
						why = "channel used"
					case *ssa.UnOp:
						if x.Op == token.ARROW {
							why = "channel used"
						}
						if gl, ok := x.X.(*ssa.Global); ok && gl.Pkg != nil && !p.isModPkg(gl.Pkg.Pkg) && !purePkgs[gl.Pkg.Pkg.Path()] && capability(pk, gl.String()) == "" {
							r.fail("ambient", fn, shortFn(fn)+" "+gl.String(), p.instrPos(in), gl.String()+" is used by "+shortFn(fn))
						}
					}
					if why != "" {
						seq = false
						r.fail("sequential", fn, shortFn(fn), p.instrPos(in), why+" by "+shortFn(fn))
					}
					for _, op := range in.Operands(nil) {
						f, ok := (*op).(*ssa.Function)
						if !ok || p.inModule[f] || f.Name() == "init" {
							continue
						}
						lib := fnPkg(f)
						if lib == nil || p.isModPkg(lib) {
							continue
						}
						name := f.String()
						switch {
						case capability(pk, name) != "":
							r.ok("ambient", fn, p.instrPos(in)+" "+name+": "+capability(pk, name))
						case purePkgs[lib.Path()] && !impure[lib.Path()+"."+f.Name()]:
							r.ok("ambient", fn, p.instrPos(in)+" "+name)
						default:
							r.fail("ambient", fn, shortFn(fn)+" "+name, p.instrPos(in), name+" is called by "+shortFn(fn))
						}
					}
				}
			}
			if seq {
				r.ok("sequential", fn, "")
			}
		}
	}
}

func capability(pk *types.Package, name string) string {
	name = strings.NewReplacer("(", "", ")", "", "*", "").Replace(name)
	for k, v := range capabilities[pk.Path()] {
		if name == k || strings.HasPrefix(name, k+".") {
			return v
		}
	}
	return ""
}
