// ssajson loads Go packages (with overlay files), builds go/ssa for them and
// writes the SSA of every function of the listed packages as JSON. It is the
// front end of the verifier: the text that is verified is the SSA of the
// working tree, produced on every run by the same type checker and SSA
// builder that golang.org/x/tools ships.
package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	typesOut = M{}
	fset     *token.FileSet
)

func typ(t types.Type) string {
	if t == nil {
		return ""
	}
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if _, ok := typesOut[key]; ok {
		return key
	}
	m := M{}
	typesOut[key] = m
	switch t := t.(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = t.Name()
	case *types.Named:
		m["k"] = "named"
		m["under"] = typ(t.Underlying())
		if p := t.Obj().Pkg(); p != nil {
			m["pkg"] = p.Path()
		}
		m["name"] = t.Obj().Name()
	case *types.Slice:
		m["k"] = "slice"
		m["elem"] = typ(t.Elem())
	case *types.Array:
		m["k"] = "array"
		m["elem"] = typ(t.Elem())
		m["len"] = t.Len()
	case *types.Pointer:
		m["k"] = "ptr"
		m["elem"] = typ(t.Elem())
	case *types.Struct:
		m["k"] = "struct"
		var fs []M
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"n": f.Name(), "t": typ(f.Type()), "emb": f.Embedded()})
		}
		m["fields"] = fs
	case *types.Interface:
		m["k"] = "iface"
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Signature:
		m["k"] = "func"
		m["params"] = tuple(t.Params())
		m["results"] = tuple(t.Results())
		m["variadic"] = t.Variadic()
	case *types.Map:
		m["k"] = "map"
		m["key"] = typ(t.Key())
		m["elem"] = typ(t.Elem())
	case *types.Tuple:
		m["k"] = "tuple"
		m["elems"] = tuple(t)
	case *types.Chan:
		m["k"] = "chan"
		m["elem"] = typ(t.Elem())
	default:
		m["k"] = "other"
		m["go"] = fmt.Sprintf("%T", t)
	}
	return key
}

func tuple(t *types.Tuple) []string {
	r := []string{}
	for i := 0; i < t.Len(); i++ {
		r = append(r, typ(t.At(i).Type()))
	}
	return r
}

func val(v ssa.Value) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"t": typ(v.Type())}
		if v.Value == nil {
			m["c"] = nil
			return m
		}
		switch v.Value.Kind() {
		case constant.Bool:
			m["c"] = constant.BoolVal(v.Value)
		case constant.String:
			m["s"] = hex.EncodeToString([]byte(constant.StringVal(v.Value)))
		case constant.Int:
			m["i"] = v.Value.ExactString()
		case constant.Float:
			if i := constant.ToInt(v.Value); i.Kind() == constant.Int {
				m["i"] = i.ExactString()
			} else {
				m["f"] = v.Value.ExactString()
			}
		default:
			m["x"] = v.Value.ExactString()
		}
		return m
	case *ssa.Global:
		return "@g:" + v.String()
	case *ssa.Function:
		need(v)
		return "@f:" + v.String()
	case *ssa.Builtin:
		return "@b:" + v.Name()
	default:
		return "%" + v.Name()
	}
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

var funcs = map[string]*ssa.Function{}
var queue []*ssa.Function

func need(f *ssa.Function) {
	if _, ok := funcs[f.String()]; !ok {
		funcs[f.String()] = f
		queue = append(queue, f)
	}
}

func callc(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["v"] = val(c.Value)
		m["rt"] = typ(c.Value.Type())
	} else {
		m["v"] = val(c.Value)
	}
	m["sig"] = typ(c.Signature())
	return m
}

func instr(i ssa.Instruction) M {
	m := M{}
	op := strings.TrimPrefix(fmt.Sprintf("%T", i), "*ssa.")
	m["op"] = op
	if v, ok := i.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = typ(v.Type())
	}
	if p := i.Pos(); p.IsValid() {
		pp := fset.Position(p)
		m["pos"] = fmt.Sprintf("%s:%d", filepath.Base(pp.Filename), pp.Line)
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		m["heap"] = i.Heap
		m["comment"] = i.Comment
		m["elem"] = typ(i.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		m["tok"] = i.Op.String()
		m["x"], m["y"] = val(i.X), val(i.Y)
		m["xt"] = typ(i.X.Type())
		m["yt"] = typ(i.Y.Type())
	case *ssa.UnOp:
		m["tok"] = i.Op.String()
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
		m["commaok"] = i.CommaOk
	case *ssa.Call:
		m["call"] = callc(&i.Call)
	case *ssa.Defer:
		m["call"] = callc(&i.Call)
	case *ssa.Go:
		m["call"] = callc(&i.Call)
	case *ssa.ChangeInterface:
		m["x"] = val(i.X)
	case *ssa.ChangeType:
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
	case *ssa.Convert:
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
	case *ssa.MultiConvert:
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
	case *ssa.SliceToArrayPointer:
		m["x"] = val(i.X)
	case *ssa.Extract:
		m["x"], m["i"] = val(i.Tuple), i.Index
	case *ssa.Field:
		m["x"], m["i"] = val(i.X), i.Field
	case *ssa.FieldAddr:
		m["x"], m["i"] = val(i.X), i.Field
	case *ssa.If:
		m["x"] = val(i.Cond)
	case *ssa.Index:
		m["x"], m["i"] = val(i.X), val(i.Index)
		m["xt"], m["it"] = typ(i.X.Type()), typ(i.Index.Type())
	case *ssa.IndexAddr:
		m["x"], m["i"] = val(i.X), val(i.Index)
		m["xt"], m["it"] = typ(i.X.Type()), typ(i.Index.Type())
	case *ssa.Jump:
	case *ssa.Lookup:
		m["x"], m["i"] = val(i.X), val(i.Index)
		m["xt"], m["it"] = typ(i.X.Type()), typ(i.Index.Type())
		m["commaok"] = i.CommaOk
	case *ssa.MakeClosure:
		need(i.Fn.(*ssa.Function))
		m["fn"] = i.Fn.(*ssa.Function).String()
		m["b"] = vals(i.Bindings)
	case *ssa.MakeInterface:
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		m["len"], m["cap"] = val(i.Len), val(i.Cap)
		m["lt"], m["ct"] = typ(i.Len.Type()), typ(i.Cap.Type())
	case *ssa.MapUpdate:
		m["m"], m["k"], m["v"] = val(i.Map), val(i.Key), val(i.Value)
	case *ssa.Next:
		m["x"] = val(i.Iter)
		m["str"] = i.IsString
	case *ssa.Range:
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
	case *ssa.Panic:
		m["x"] = val(i.X)
	case *ssa.Phi:
		m["e"] = vals(i.Edges)
		m["comment"] = i.Comment
	case *ssa.Return:
		m["r"] = vals(i.Results)
	case *ssa.RunDefers:
	case *ssa.Slice:
		m["x"], m["lo"], m["hi"], m["max"] = val(i.X), val(i.Low), val(i.High), val(i.Max)
		m["xt"] = typ(i.X.Type())
		for _, a := range [][2]interface{}{{"lot", i.Low}, {"hit", i.High}} {
			if v, ok := a[1].(ssa.Value); ok && v != nil {
				m[a[0].(string)] = typ(v.Type())
			}
		}
	case *ssa.Store:
		m["a"], m["v"] = val(i.Addr), val(i.Val)
	case *ssa.TypeAssert:
		m["x"], m["at"], m["commaok"] = val(i.X), typ(i.AssertedType), i.CommaOk
	case *ssa.DebugRef:
		return nil
	default:
		m["unsupported"] = true
	}
	return m
}

func fn(f *ssa.Function) M {
	m := M{"name": f.String(), "short": f.Name(), "synthetic": f.Synthetic}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		m["parent"] = f.Parent().String()
	}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": typ(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": p.Name(), "t": typ(p.Type())})
	}
	m["freevars"] = fv
	m["sig"] = typ(f.Signature)
	m["results"] = tuple(f.Signature.Results())
	if f.Pos().IsValid() {
		m["pos"] = fset.Position(f.Pos()).String()
	}
	bs := []M{}
	for _, b := range f.Blocks {
		is := []M{}
		for _, i := range b.Instrs {
			if x := instr(i); x != nil {
				is = append(is, x)
			}
		}
		succ, pred := []int{}, []int{}
		for _, s := range b.Succs {
			succ = append(succ, s.Index)
		}
		for _, s := range b.Preds {
			pred = append(pred, s.Index)
		}
		bs = append(bs, M{"i": is, "s": succ, "p": pred, "c": b.Comment})
	}
	m["blocks"] = bs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	return m
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ssajson: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "module directory")
	overlayDir := flag.String("overlay", "", "directory with <pkg>/<file>.go overlay sources")
	out := flag.String("o", "", "output file")
	std := flag.String("std", "", "comma separated std functions' packages whose bodies are dumped")
	flag.Parse()

	overlay := map[string][]byte{}
	if *overlayDir != "" {
		filepath.Walk(*overlayDir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			rel, _ := filepath.Rel(*overlayDir, p)
			data, err := os.ReadFile(p)
			if err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(*repo, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))] = data
			return nil
		})
	}
	stdset := map[string]bool{}
	for _, s := range strings.Split(*std, ",") {
		if s != "" {
			stdset[s] = true
		}
	}

	dropped := []string{}
	repoErrs := []string{}
	var initial []*packages.Package
	for round := 0; ; round++ {
		fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
				packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir: *repo, Fset: fset, Overlay: overlay,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
		}
		var err error
		initial, err = packages.Load(cfg, "./...")
		if err != nil {
			die("load: %v", err)
		}
		// overlay declarations that do not type-check are removed: they
		// are contracts of internal functions that no longer exist.
		bad := map[string]map[int]string{}
		repoErrs = repoErrs[:0]
		nbad := 0
		packages.Visit(initial, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				parts := strings.SplitN(e.Pos, ":", 3)
				if len(parts) >= 2 && strings.HasPrefix(filepath.Base(parts[0]), "zz_verif_") {
					line := 0
					fmt.Sscanf(parts[1], "%d", &line)
					if bad[parts[0]] == nil {
						bad[parts[0]] = map[int]string{}
					}
					bad[parts[0]][line] = e.Msg
					nbad++
				} else if p.Module != nil && p.Module.Main {
					repoErrs = append(repoErrs, e.Error())
				}
			}
		})
		if nbad == 0 {
			break
		}
		if round > 12 {
			die("overlay does not type-check: %v", bad)
		}
		progress := false
		for file, lines := range bad {
			src := overlay[file]
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, file, src, parser.ParseComments)
			if err != nil {
				die("overlay %s: %v", file, err)
			}
			type cut struct{ a, b int }
			var cuts []cut
			for _, d := range af.Decls {
				gd, isGen := d.(*ast.GenDecl)
				if isGen && gd.Tok == token.IMPORT {
					continue
				}
				a, b := fs.Position(d.Pos()).Line, fs.Position(d.End()).Line
				hit := ""
				for l, msg := range lines {
					if a <= l && l <= b {
						hit = msg
					}
				}
				if hit != "" {
					name := "?"
					if fd, ok := d.(*ast.FuncDecl); ok {
						name = fd.Name.Name
					}
					dropped = append(dropped, fmt.Sprintf("%s: %s: %s", filepath.Base(file), name, hit))
					cuts = append(cuts, cut{fs.Position(d.Pos()).Offset, fs.Position(d.End()).Offset})
				}
			}
			// unused or broken imports
			for _, d := range af.Decls {
				gd, isGen := d.(*ast.GenDecl)
				if !isGen || gd.Tok != token.IMPORT {
					continue
				}
				for _, sp := range gd.Specs {
					l := fs.Position(sp.Pos()).Line
					if _, ok := lines[l]; ok {
						cuts = append(cuts, cut{fs.Position(sp.Pos()).Offset, fs.Position(sp.End()).Offset})
						dropped = append(dropped, fmt.Sprintf("%s: import: %s", filepath.Base(file), lines[l]))
					}
				}
			}
			if len(cuts) > 0 {
				progress = true
			}
			b := append([]byte{}, src...)
			for _, c := range cuts {
				for i := c.a; i < c.b; i++ {
					if b[i] != '\n' {
						b[i] = ' '
					}
				}
			}
			overlay[file] = b
		}
		if !progress {
			die("overlay errors cannot be isolated: %v", bad)
		}
	}
	if len(repoErrs) > 0 {
		die("repository does not type-check: %s", strings.Join(repoErrs, "; "))
	}

	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()

	mains := map[*types.Package]bool{}
	for _, p := range initial {
		mains[p.Types] = true
	}
	isMain := func(f *ssa.Function) bool {
		if f.Pkg != nil && (mains[f.Pkg.Pkg] || stdset[f.Pkg.Pkg.Path()]) {
			return true
		}
		if o := f.Origin(); o != nil && o.Pkg != nil && mains[o.Pkg.Pkg] {
			return true
		}
		if f.Pkg == nil && f.Synthetic != "" {
			return true // wrappers, thunks, bounds
		}
		return false
	}
	pkgs := M{}
	methods := M{}
	globals := M{}
	for _, p := range prog.AllPackages() {
		if !mains[p.Pkg] && !stdset[p.Pkg.Path()] {
			continue
		}
		names := []string{}
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		imps := []string{}
		for _, im := range p.Pkg.Imports() {
			imps = append(imps, im.Path())
		}
		pkgs[p.Pkg.Path()] = M{"members": names, "imports": imps}
		for _, n := range names {
			switch mem := p.Members[n].(type) {
			case *ssa.Function:
				if mem.TypeParams().Len() == 0 {
					need(mem)
				}
			case *ssa.Global:
				globals[mem.String()] = M{"t": typ(mem.Type().Underlying().(*types.Pointer).Elem())}
			case *ssa.Type:
				T := mem.Type()
				if nt, ok := T.(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				for _, t := range []types.Type{T, types.NewPointer(T)} {
					if types.IsInterface(t) {
						continue
					}
					ms := prog.MethodSets.MethodSet(t)
					mm := M{}
					for i := 0; i < ms.Len(); i++ {
						sel := ms.At(i)
						f := prog.MethodValue(sel)
						if f != nil {
							need(f)
							mm[sel.Obj().Name()] = f.String()
						}
					}
					methods[typ(t)] = mm
				}
			}
		}
	}
	fout := M{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if !isMain(f) {
			fout[f.String()] = M{"name": f.String(), "short": f.Name(), "extern": true, "sig": typ(f.Signature), "results": tuple(f.Signature.Results()),
				"pkg": func() string {
					if f.Pkg != nil {
						return f.Pkg.Pkg.Path()
					}
					return ""
				}()}
			continue
		}
		fout[f.String()] = fn(f)
	}
	srcs := map[string]string{}
	for f, b := range overlay {
		srcs[f] = string(b)
	}
	res := M{"types": typesOut, "funcs": fout, "methods": methods, "globals": globals, "packages": pkgs, "dropped": dropped, "overlay": srcs}
	data, err := json.Marshal(res)
	if err != nil {
		die("%v", err)
	}
	if *out == "" {
		os.Stdout.Write(data)
	} else if err := os.WriteFile(*out, data, 0o644); err != nil {
		die("%v", err)
	}
}
