package main

// Loading of the analysed program and whole-program indexes shared by all the
// rules: source functions, static callers, address-taken functions, method
// implementations and modification sets.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	secondPass   map[*ssa.Call]bool
	globalStores map[string][]ssa.Value
	root         string
	pkgs         []*packages.Package
	prog         *ssa.Program
	fset         *token.FileSet
	byPath       map[string]*ssa.Package
	funcs        []*ssa.Function // source functions of the module, deterministic order
	inModule     map[*ssa.Function]bool

	enums      map[string][2]int64
	callers    map[*ssa.Function][]ssa.CallInstruction // static call sites in the module
	addrTaken  map[*ssa.Function]bool                  // used as a value (not as a callee)
	makeSites  map[*ssa.Function][]ssa.Instruction     // closure creation / function value uses
	boundSites map[*ssa.Function][]ssa.Instruction     // method values
	namedT     []*types.Named                          // concrete named types of the module
	tags       map[string]*tagIface                    // interfaces with a constant Type() method
	modsets    map[*ssa.Function]map[string]bool
	implCache  map[string][]*ssa.Function
	poolMap    map[*ssa.Global]*poolInfo
	cells      map[*ssa.Alloc]int // number of stores, -1 if unknown
}

func loadProgram(root string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  root,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d package errors", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{root: root, pkgs: pkgs, prog: prog, fset: prog.Fset,
		byPath: map[string]*ssa.Package{}, inModule: map[*ssa.Function]bool{},
		callers: map[*ssa.Function][]ssa.CallInstruction{}, addrTaken: map[*ssa.Function]bool{},
		makeSites:  map[*ssa.Function][]ssa.Instruction{},
		boundSites: map[*ssa.Function][]ssa.Instruction{},
		tags:       map[string]*tagIface{}, modsets: map[*ssa.Function]map[string]bool{},
		implCache: map[string][]*ssa.Function{}, cells: map[*ssa.Alloc]int{},
	}
	for _, pk := range prog.AllPackages() {
		p.byPath[pk.Pkg.Path()] = pk
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "instance") && !strings.Contains(fn.Synthetic, "package initializer") {
			continue
		}
		if !p.isModPkg(fnPkg(fn)) || len(fn.Blocks) == 0 {
			continue
		}
		p.inModule[fn] = true
		p.funcs = append(p.funcs, fn)
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.Pos() != b.Pos() {
			pa, pb := p.fset.Position(a.Pos()), p.fset.Position(b.Pos())
			if pa.Filename != pb.Filename {
				return pa.Filename < pb.Filename
			}
			return pa.Offset < pb.Offset
		}
		return a.String() < b.String()
	})
	p.index()
	return p, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	return nil
}

func (p *Program) isModPkg(pk *types.Package) bool {
	return pk != nil && (pk.Path() == "helena" || strings.HasPrefix(pk.Path(), "helena/"))
}

func (p *Program) pos(n interface{ Pos() token.Pos }) string {
	return p.posOf(n.Pos())
}
func (p *Program) posOf(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	rel, err := filepath.Rel(filepath.Dir(p.root), q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// Position of an instruction, falling back on neighbours
func (p *Program) instrPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.posOf(i.Pos())
	}
	b := i.Block()
	if b != nil {
		seen := false
		for _, j := range b.Instrs {
			if j == i {
				seen = true
			}
			if seen && j.Pos().IsValid() {
				return p.posOf(j.Pos())
			}
		}
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			if b.Instrs[k].Pos().IsValid() {
				return p.posOf(b.Instrs[k].Pos())
			}
		}
	}
	return p.posOf(i.Parent().Pos())
}

func (p *Program) index() {
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var calleeVal ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					if sc := c.Common().StaticCallee(); sc != nil {
						p.callers[sc] = append(p.callers[sc], c)
						calleeVal = c.Common().Value
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == calleeVal {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						p.addrTaken[f] = true
						p.makeSites[f] = append(p.makeSites[f], in)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					p.makeSites[f] = append(p.makeSites[f], in)
					if m := p.boundMethod(f); m != nil {
						p.boundSites[m] = append(p.boundSites[m], in)
					}
				}
			}
		}
	}
	for _, pk := range p.prog.AllPackages() {
		if !p.isModPkg(pk.Pkg) {
			continue
		}
		names := pk.Pkg.Scope().Names()
		for _, n := range names {
			if tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					if _, isI := nt.Underlying().(*types.Interface); !isI && nt.TypeParams().Len() == 0 {
						p.namedT = append(p.namedT, nt)
					}
				}
			}
		}
	}
	// local named types
	sort.Slice(p.namedT, func(i, j int) bool { return p.namedT[i].String() < p.namedT[j].String() })
	p.indexTags()
}

// Method that a method value calls, if known
func (p *Program) boundMethod(f *ssa.Function) *ssa.Function {
	o, ok := f.Object().(*types.Func)
	if !ok || !strings.HasPrefix(f.Synthetic, "bound method") {
		return nil
	}
	if types.IsInterface(o.Type().(*types.Signature).Recv().Type()) {
		return nil
	}
	return p.prog.FuncValue(o)
}

// Interface whose Type() method returns a constant specific to each
// implementation (core.Value, core.Morpheme)
type tagIface struct {
	t     *types.Named
	impls []types.Type
	code  map[string]int64
	open  []int64 // codes of implementations outside the module
}

func (p *Program) indexTags() {
	for _, pk := range p.prog.AllPackages() {
		if !p.isModPkg(pk.Pkg) {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			iface, ok := nt.Underlying().(*types.Interface)
			if !ok {
				continue
			}
			has := false
			for i := 0; i < iface.NumMethods(); i++ {
				m := iface.Method(i)
				if m.Name() == "Type" && m.Type().(*types.Signature).Params().Len() == 0 {
					has = true
				}
			}
			if !has {
				continue
			}
			ti := &tagIface{t: nt, code: map[string]int64{}}
			good := true
			for _, ct := range p.namedT {
				for _, t := range []types.Type{ct, types.NewPointer(ct)} {
					if !types.Implements(t, iface) {
						continue
					}
					if pt, ok := t.(*types.Pointer); ok && types.Implements(pt.Elem(), iface) {
						continue // used by value
					}
					m := p.methodOf(t, "Type")
					if m == nil {
						good = false
						continue
					}
					c, ok := constReturn(m)
					if !ok {
						good = false
						continue
					}
					ti.impls = append(ti.impls, t)
					ti.code[t.String()] = c
				}
			}
			if !good || len(ti.impls) < 2 {
				continue
			}
			if n == "Value" {
				// values of other modules are custom values
				if c, ok := pk.Members["ValueType_CUSTOM"].(*ssa.NamedConst); ok {
					ti.open = append(ti.open, c.Value.Int64())
				}
			}
			p.tags[nt.String()] = ti
		}
	}
}

func (p *Program) tagOf(t types.Type) *tagIface {
	if t == nil {
		return nil
	}
	return p.tags[t.String()]
}

func (p *Program) core() *ssa.Package { return p.byPath["helena/core"] }
func (p *Program) pkg(name string) *ssa.Package {
	return p.byPath["helena/"+name]
}

// Concrete method of type t, seeing through synthetic wrappers
func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			f := p.prog.FuncValue(s.Obj().(*types.Func))
			if f != nil && len(f.Blocks) > 0 {
				return f
			}
			return p.prog.MethodValue(s)
		}
	}
	return nil
}

func constReturn(fn *ssa.Function) (int64, bool) {
	var res int64
	found := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
				c, ok := r.Results[0].(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
					return 0, false
				}
				if found && c.Int64() != res {
					return 0, false
				}
				res, found = c.Int64(), true
			}
		}
	}
	return res, found
}

// Implementations, in the module, of an interface method
func (p *Program) impls(iface *types.Interface, m *types.Func) []*ssa.Function {
	key := iface.String() + "." + m.Name()
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, nt := range p.namedT {
		for _, t := range []types.Type{nt, types.NewPointer(nt)} {
			if types.Implements(t, iface) {
				f := p.methodOf(t, m.Name())
				if f != nil && !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	p.implCache[key] = out
	return out
}

// Possible callees of a call in the module (class hierarchy + signatures)
func (p *Program) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if sc := cc.StaticCallee(); sc != nil {
		return []*ssa.Function{sc}
	}
	if cc.IsInvoke() {
		if iface, ok := cc.Value.Type().Underlying().(*types.Interface); ok {
			return p.impls(iface, cc.Method)
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	sig, ok := cc.Value.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	return p.funcsOfSig(sig)
}

func (p *Program) funcsOfSig(sig *types.Signature) []*ssa.Function {
	key := "sig:" + types.TypeString(sig, nil)
	key = sigKey(sig)
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, fn := range p.funcs {
		if len(p.makeSites[fn]) == 0 {
			continue
		}
		s := fn.Signature
		if s.Recv() != nil {
			continue
		}
		if sigKey(s) == key {
			out = append(out, fn)
		}
	}
	p.implCache[key] = out
	return out
}

func sigKey(s *types.Signature) string {
	var b strings.Builder
	b.WriteString("sig(")
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(s.Params().At(i).Type().String() + ",")
	}
	b.WriteString(")(")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(s.Results().At(i).Type().String() + ",")
	}
	b.WriteString(")")
	return b.String()
}

// Modification keys: memory locations are abstracted by the struct type and
// field, by the element type of slices/arrays, or by the cell type
func modKeyField(structT types.Type, idx int) string {
	return "F:" + structKey(structT) + "#" + fmt.Sprint(idx)
}
func modKeyElem(elem types.Type) string { return "E:" + elem.String() }
func modKeyCell(t types.Type) string    { return "C:" + t.String() }

func structKey(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return t.String()
}

func addStoreKeys(set map[string]bool, addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		set[modKeyField(a.X.Type(), a.Field)] = true
		ft := a.Type().Underlying().(*types.Pointer).Elem()
		addStructKeys(set, ft)
	case *ssa.IndexAddr:
		et := a.Type().Underlying().(*types.Pointer).Elem()
		set[modKeyElem(et)] = true
		addStructKeys(set, et)
	default:
		et := addr.Type().Underlying().(*types.Pointer).Elem()
		set[modKeyCell(et)] = true
		addStructKeys(set, et)
	}
}
func addStructKeys(set map[string]bool, t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			set[modKeyField(t, i)] = true
			addStructKeys(set, st.Field(i).Type())
		}
	}
}

// Transitive set of memory keys a function may modify. nil map entry for
// recursion; computed by a global fixpoint on first use.
func (p *Program) modset(fn *ssa.Function) map[string]bool {
	if len(p.modsets) == 0 {
		p.computeModsets()
	}
	return p.modsets[fn]
}
func (p *Program) computeModsets() {
	for _, fn := range p.funcs {
		set := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch s := in.(type) {
				case *ssa.Store:
					if al := rootAlloc(s.Addr); al != nil && !al.Heap {
						continue // private memory
					}
					addStoreKeys(set, s.Addr)
				case *ssa.Call:
					if bi, ok := s.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "clear") {
						if sl, ok := s.Call.Args[0].Type().Underlying().(*types.Slice); ok {
							set[modKeyElem(sl.Elem())] = true
						}
					}
				}
			}
		}
		p.modsets[fn] = set
	}
	changed := true
	for changed {
		changed = false
		for _, fn := range p.funcs {
			set := p.modsets[fn]
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, callee := range p.callees(c) {
						for k := range p.modsets[callee] {
							if !set[k] {
								set[k] = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch a := v.(type) {
		case *ssa.Alloc:
			return a
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = a.X
		default:
			return nil
		}
	}
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "helena/", "")
	return s
}

// Fill the caches so that the program can be shared by concurrent engines
func (p *Program) prewarm() {
	p.pools()
	p.findEnums()
	for _, fn := range p.funcs {
		if fn.Signature.Recv() != nil {
			dynCache[fn] = p.dynamicMethod(fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					p.callees(c)
					for _, a := range c.Common().Args {
						if s, ok := a.Type().Underlying().(*types.Signature); ok {
							p.funcsOfSig(s)
						}
					}
				}
			}
		}
	}
}
