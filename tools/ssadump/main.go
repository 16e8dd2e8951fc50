// ssadump loads the packages of /repo from the current working tree and writes
// their SSA form (golang.org/x/tools/go/ssa) as JSON. Nothing is rewritten: the
// SSA is generated mechanically from the source the compiler sees.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	typeIDs  = map[string]int{}
	typeTab  []M
	prog     *ssa.Program
	modpath  string
	funcs    = M{}
	todo     []*ssa.Function
	seenFunc = map[*ssa.Function]bool{}
)

func typeID(t types.Type) int {
	if t == nil {
		return -1
	}
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	typeTab = append(typeTab, nil)
	m := M{"id": id, "s": key}
	switch x := t.(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = x.Name()
	case *types.Named:
		m["k"] = "named"
		m["u"] = typeID(x.Underlying())
		if x.Obj().Pkg() != nil {
			m["pkg"] = x.Obj().Pkg().Path()
		}
		m["name"] = x.Obj().Name()
		if x.Obj().Pkg() != nil && strings.HasPrefix(x.Obj().Pkg().Path(), modpath) {
			ms := M{}
			for _, tt := range []types.Type{x, types.NewPointer(x)} {
				mset := prog.MethodSets.MethodSet(tt)
				for i := 0; i < mset.Len(); i++ {
					if f := prog.MethodValue(mset.At(i)); f != nil {
						n := f.Name()
						if _, isp := tt.(*types.Pointer); isp {
							n = "*" + n
						}
						ms[n] = fname(f)
						queue(f)
					}
				}
			}
			m["methods"] = ms
		}
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = typeID(x.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = typeID(x.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = typeID(x.Elem())
		m["n"] = x.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = typeID(x.Key())
		m["e"] = typeID(x.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = typeID(x.Elem())
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < x.NumFields(); i++ {
			fs = append(fs, M{"n": x.Field(i).Name(), "t": typeID(x.Field(i).Type()), "emb": x.Field(i).Embedded()})
		}
		m["fields"] = fs
	case *types.Interface:
		m["k"] = "iface"
		names := []string{}
		for i := 0; i < x.NumMethods(); i++ {
			names = append(names, x.Method(i).Name())
		}
		m["methods"] = names
	case *types.Signature:
		m["k"] = "func"
		m["params"] = tupleIDs(x.Params())
		m["results"] = tupleIDs(x.Results())
		m["variadic"] = x.Variadic()
	case *types.Tuple:
		m["k"] = "tuple"
		m["es"] = tupleIDs(x)
	default:
		m["k"] = "other"
	}
	typeTab[id] = m
	return id
}

func tupleIDs(t *types.Tuple) []int {
	r := []int{}
	for i := 0; i < t.Len(); i++ {
		r = append(r, typeID(t.At(i).Type()))
	}
	return r
}

func fname(f *ssa.Function) string { return f.String() }

func queue(f *ssa.Function) {
	if f == nil || seenFunc[f] {
		return
	}
	seenFunc[f] = true
	todo = append(todo, f)
}

func inMod(f *ssa.Function) bool {
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modpath)
	}
	if f.Parent() != nil {
		return inMod(f.Parent())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modpath)
	}
	return false
}

func operand(v ssa.Value) M {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		m := M{"k": "const", "t": typeID(x.Type())}
		if x.Value == nil {
			m["nil"] = true
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(x.Value)
			case constant.String:
				s := constant.StringVal(x.Value)
				bs := []int{}
				for i := 0; i < len(s); i++ {
					bs = append(bs, int(s[i]))
				}
				m["sb"] = bs
			case constant.Int:
				m["v"] = x.Value.ExactString()
			case constant.Float:
				// integer-valued?
				if i := constant.ToInt(x.Value); i.Kind() == constant.Int {
					m["v"] = i.ExactString()
				}
				m["f"] = x.Value.ExactString()
			default:
				m["other"] = x.Value.ExactString()
			}
		}
		return m
	case *ssa.Global:
		return M{"k": "global", "n": x.String(), "t": typeID(x.Type())}
	case *ssa.Function:
		queue(x)
		return M{"k": "func", "n": fname(x), "t": typeID(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name(), "t": typeID(x.Type())}
	case *ssa.Parameter:
		return M{"k": "reg", "n": x.Name(), "t": typeID(x.Type())}
	case *ssa.FreeVar:
		return M{"k": "reg", "n": "fv:" + x.Name(), "t": typeID(x.Type())}
	}
	return M{"k": "reg", "n": v.Name(), "t": typeID(v.Type())}
}

func callCommon(c *ssa.CallCommon, m M) {
	args := []M{}
	for _, a := range c.Args {
		args = append(args, operand(a))
	}
	m["args"] = args
	m["sig"] = typeID(c.Signature())
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = operand(c.Value)
		m["recvt"] = c.Value.Type().String()
		return
	}
	m["fn"] = operand(c.Value)
}

func posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

func instr(in ssa.Instruction) M {
	m := M{}
	if v, ok := in.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = typeID(v.Type())
	}
	if p := posStr(in.Pos()); p != "" {
		m["pos"] = p
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = x.Heap
		m["c"] = x.Comment
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["o"] = x.Op.String()
		m["x"] = operand(x.X)
		m["y"] = operand(x.Y)
	case *ssa.Call:
		m["op"] = "Call"
		callCommon(&x.Call, m)
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = operand(x.X)
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = operand(x.X)
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = operand(x.X)
	case *ssa.MultiConvert:
		m["op"] = "MultiConvert"
		m["x"] = operand(x.X)
	case *ssa.Defer:
		m["op"] = "Defer"
		callCommon(&x.Call, m)
	case *ssa.Go:
		m["op"] = "Go"
		callCommon(&x.Call, m)
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = operand(x.Tuple)
		m["i"] = x.Index
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = operand(x.X)
		m["i"] = x.Field
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = operand(x.X)
		m["i"] = x.Field
	case *ssa.If:
		m["op"] = "If"
		m["x"] = operand(x.Cond)
	case *ssa.Index:
		m["op"] = "Index"
		m["x"] = operand(x.X)
		m["y"] = operand(x.Index)
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"] = operand(x.X)
		m["y"] = operand(x.Index)
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"] = operand(x.X)
		m["y"] = operand(x.Index)
		m["ok"] = x.CommaOk
	case *ssa.MakeChan:
		m["op"] = "MakeChan"
		m["x"] = operand(x.Size)
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = operand(x.Fn)
		bs := []M{}
		for _, b := range x.Bindings {
			bs = append(bs, operand(b))
		}
		m["bindings"] = bs
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = operand(x.X)
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["len"] = operand(x.Len)
		m["cap"] = operand(x.Cap)
	case *ssa.MapUpdate:
		m["op"] = "MapUpdate"
		m["m"] = operand(x.Map)
		m["x"] = operand(x.Key)
		m["y"] = operand(x.Value)
	case *ssa.Next:
		m["op"] = "Next"
		m["x"] = operand(x.Iter)
		m["str"] = x.IsString
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = operand(x.X)
	case *ssa.Phi:
		m["op"] = "Phi"
		m["c"] = x.Comment
		es := []M{}
		for _, e := range x.Edges {
			es = append(es, operand(e))
		}
		m["edges"] = es
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = operand(x.X)
	case *ssa.Return:
		m["op"] = "Return"
		rs := []M{}
		for _, e := range x.Results {
			rs = append(rs, operand(e))
		}
		m["xs"] = rs
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.Select:
		m["op"] = "Select"
		sts := []M{}
		for _, s := range x.States {
			sts = append(sts, M{"dir": int(s.Dir), "ch": operand(s.Chan), "send": operand(s.Send)})
		}
		m["states"] = sts
		m["blocking"] = x.Blocking
	case *ssa.Send:
		m["op"] = "Send"
		m["x"] = operand(x.Chan)
		m["y"] = operand(x.X)
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = operand(x.X)
		if x.Low != nil {
			m["lo"] = operand(x.Low)
		}
		if x.High != nil {
			m["hi"] = operand(x.High)
		}
		if x.Max != nil {
			m["max"] = operand(x.Max)
		}
	case *ssa.SliceToArrayPointer:
		m["op"] = "SliceToArrayPointer"
		m["x"] = operand(x.X)
	case *ssa.Store:
		m["op"] = "Store"
		m["x"] = operand(x.Addr)
		m["y"] = operand(x.Val)
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = operand(x.X)
		m["at"] = typeID(x.AssertedType)
		m["ok"] = x.CommaOk
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["o"] = x.Op.String()
		m["x"] = operand(x.X)
		m["ok"] = x.CommaOk
	case *ssa.DebugRef:
		v, ok := x.Object().(*types.Var)
		if !ok || v.IsField() || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
			return nil
		}
		m["op"] = "DebugRef"
		m["x"] = operand(x.X)
		m["isaddr"] = x.IsAddr
		m["n"] = v.Name()
	default:
		m["op"] = fmt.Sprintf("%T", in)
	}
	return m
}

func dumpFunc(f *ssa.Function) {
	name := fname(f)
	m := M{"name": name, "short": f.Name(), "pos": posStr(f.Pos()), "inmod": inMod(f)}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	m["synthetic"] = f.Synthetic
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": typeID(p.Type())})
	}
	m["params"] = ps
	sigp := []M{}
	if f.Signature != nil {
		if f.Signature.Recv() != nil {
			m["recv"] = true
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			v := f.Signature.Params().At(i)
			sigp = append(sigp, M{"n": v.Name(), "t": typeID(v.Type())})
		}
	}
	m["sigparams"] = sigp
	rs := []M{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		v := f.Signature.Results().At(i)
		rs = append(rs, M{"n": v.Name(), "t": typeID(v.Type())})
	}
	m["results"] = rs
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": p.Name(), "t": typeID(p.Type())})
	}
	m["freevars"] = fv
	if inMod(f) || f.Parent() != nil || f.Synthetic != "" {
		bl := []M{}
		for _, b := range f.Blocks {
			ins := []M{}
			for _, i := range b.Instrs {
				if d := instr(i); d != nil {
					ins = append(ins, d)
				}
			}
			preds, succs := []int{}, []int{}
			for _, p := range b.Preds {
				preds = append(preds, p.Index)
			}
			for _, s := range b.Succs {
				succs = append(succs, s.Index)
			}
			bl = append(bl, M{"i": b.Index, "c": b.Comment, "preds": preds, "succs": succs, "ins": ins})
		}
		m["blocks"] = bl
		if f.Recover != nil {
			m["recover"] = f.Recover.Index
		}
	}
	funcs[name] = m
}

func main() {
	// ssadump OVERLAY.json MODPATH OUT pkgs...
	overlayFile, out := os.Args[1], os.Args[3]
	modpath = os.Args[2]
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(overlayFile)
	if err == nil {
		err = json.Unmarshal(b, &ov)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	overlay := map[string][]byte{}
	for k, v := range ov.Replace {
		c, err := os.ReadFile(v)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		overlay[k] = c
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     "/repo",
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, os.Args[4:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, p.PkgPath, e)
			bad = true
		}
	}
	if bad {
		os.Exit(3)
	}
	prog, _ = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	var mine []*ssa.Package
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modpath) {
			p.Build()
			mine = append(mine, p)
		}
	}
	sort.Slice(mine, func(i, j int) bool { return mine[i].Pkg.Path() < mine[j].Pkg.Path() })
	globals := M{}
	for _, p := range mine {
		names := []string{}
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch x := p.Members[n].(type) {
			case *ssa.Function:
				queue(x)
			case *ssa.Global:
				globals[x.String()] = M{"t": typeID(x.Type()), "pos": posStr(x.Pos())}
			case *ssa.Type:
				typeID(x.Type())
				typeID(types.NewPointer(x.Type()))
			}
		}
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		dumpFunc(f)
		for _, a := range f.AnonFuncs {
			queue(a)
		}
	}
	o, err := json.Marshal(M{"types": typeTab, "funcs": funcs, "globals": globals})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(out, o, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
