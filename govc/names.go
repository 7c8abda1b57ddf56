package main

// Renamed private names. The specifications name the private functions, types and fields of the
// repository; names.json records those that existed when they were written. When one of them is
// gone and exactly one new name in the same place has the same type, the sources are read with
// the new name replaced by the recorded one, everywhere it resolves to that object (an overlay in
// memory: the files are not touched). Nothing depends on the guess being right: the obligations
// are generated from the code so read, which only differs from the real one by these names.

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type nameTable struct {
	Types  map[string]string      // pkg.Name -> underlying type
	Fields map[string][][2]string // pkg.Name -> name and type of each field
	Funcs  map[string]string      // pkg.Name or pkg.Recv.Name -> signature
}

func nameQual(p *types.Package) string { return p.Name() }

func namesOf(pk []*packages.Package) (*nameTable, map[string]types.Object) {
	t := &nameTable{map[string]string{}, map[string][][2]string{}, map[string]string{}}
	objs := map[string]types.Object{}
	for _, p := range pk {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			k := p.Types.Name() + "." + n
			switch o := sc.Lookup(n).(type) {
			case *types.Func:
				t.Funcs[k] = types.TypeString(o.Type(), nameQual)
				objs["func "+k] = o
			case *types.TypeName:
				nt, ok := o.Type().(*types.Named)
				if !ok {
					continue
				}
				u := types.TypeString(nt.Underlying(), nameQual)
				t.Types[k] = strings.ReplaceAll(u, k, "self")
				objs["type "+k] = o
				if s, ok := nt.Underlying().(*types.Struct); ok {
					var fs [][2]string
					for i := 0; i < s.NumFields(); i++ {
						f := s.Field(i)
						fs = append(fs, [2]string{f.Name(), types.TypeString(f.Type(), nameQual)})
						if !f.Embedded() {
							objs["field "+k+"."+f.Name()] = f
						}
					}
					t.Fields[k] = fs
				}
				for i := 0; i < nt.NumMethods(); i++ {
					m := nt.Method(i)
					sig := m.Type().(*types.Signature)
					star := ""
					if _, ok := sig.Recv().Type().(*types.Pointer); ok {
						star = "*"
					}
					t.Funcs[k+"."+m.Name()] = star + types.TypeString(sig, nameQual)
					objs["func "+k+"."+m.Name()] = m
				}
			}
		}
	}
	return t, objs
}

func private(n string) bool { return !ast.IsExported(n[strings.LastIndex(n, ".")+1:]) }

// renames: new object -> recorded name
func (was *nameTable) renames(now *nameTable, objs map[string]types.Object) map[types.Object]string {
	out := map[types.Object]string{}
	match := func(kind string, was, now map[string]string, place func(string) string) {
		gone, come := map[string][]string{}, map[string][]string{}
		var ks []string
		for n, ty := range was {
			if _, ok := now[n]; !ok && private(n) {
				k := place(n) + " " + ty
				if len(gone[k]) == 0 {
					ks = append(ks, k)
				}
				gone[k] = append(gone[k], n)
			}
		}
		for n, ty := range now {
			if _, ok := was[n]; !ok && private(n) {
				k := place(n) + " " + ty
				come[k] = append(come[k], n)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if len(gone[k]) == 1 && len(come[k]) == 1 {
				old := gone[k][0]
				if o := objs[kind+" "+come[k][0]]; o != nil {
					out[o] = old[strings.LastIndex(old, ".")+1:]
				}
			}
		}
	}
	place := func(n string) string { return n[:strings.LastIndex(n, ".")] }
	match("type", was.Types, now.Types, place)
	if len(out) > 0 {
		return out // the rest once these are known
	}
	match("func", was.Funcs, now.Funcs, place)
	for k, fs := range was.Fields {
		ns, ok := now.Fields[k]
		if !ok {
			continue
		}
		a, b := map[string]string{}, map[string]string{}
		same := len(fs) == len(ns)
		for i := range fs {
			same = same && fs[i][1] == ns[i][1]
			a[k+"."+fs[i][0]] = fs[i][1]
		}
		for _, f := range ns {
			b[k+"."+f[0]] = f[1]
		}
		if same {
			// the same fields in the same order: by position
			for i := range fs {
				if _, gone := b[k+"."+fs[i][0]]; gone || !private(fs[i][0]) || fs[i][0] == ns[i][0] {
					continue
				}
				if _, known := a[k+"."+ns[i][0]]; known || !private(ns[i][0]) {
					continue
				}
				if o := objs["field "+k+"."+ns[i][0]]; o != nil {
					out[o] = fs[i][0]
				}
			}
			continue
		}
		match("field", a, b, place)
	}
	return out
}

func namesFile(specDir string) string { return filepath.Join(specDir, "names.json") }

// loadRepo loads the packages, with the recorded names.
func loadRepo(repo, specDir string) ([]*packages.Package, []string, error) {
	overlay := map[string][]byte{}
	load := func() ([]*packages.Package, error) {
		fset := token.NewFileSet()
		pk, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: repo, Overlay: overlay, Fset: fset}, "./...")
		if err != nil {
			return nil, err
		}
		for _, p := range pk {
			if len(p.Errors) > 0 {
				return nil, p.Errors[0]
			}
		}
		return pk, nil
	}
	pk, err := load()
	if err != nil {
		return nil, nil, err
	}
	var was nameTable
	if b, err := os.ReadFile(namesFile(specDir)); err != nil || json.Unmarshal(b, &was) != nil {
		return pk, nil, nil
	}
	var notes []string
	for round := 0; round < 4; round++ {
		now, objs := namesOf(pk)
		ren := was.renames(now, objs)
		if len(ren) == 0 {
			break
		}
		type edit struct {
			at, n int
			name  string
		}
		edits := map[string][]edit{}
		for _, p := range pk {
			seen := map[*ast.Ident]bool{}
			for _, m := range []map[*ast.Ident]types.Object{p.TypesInfo.Defs, p.TypesInfo.Uses} {
				for id, o := range m {
					if name, ok := ren[o]; ok && !seen[id] {
						seen[id] = true
						pos := p.Fset.Position(id.Pos())
						edits[pos.Filename] = append(edits[pos.Filename], edit{pos.Offset, len(id.Name), name})
					}
				}
			}
		}
		before := map[string][]byte{}
		for f, es := range edits {
			src, ok := overlay[f]
			before[f] = src
			if !ok {
				if src, err = os.ReadFile(f); err != nil {
					return pk, notes, nil
				}
			}
			sort.Slice(es, func(i, j int) bool { return es[i].at > es[j].at })
			out := append([]byte{}, src...)
			for _, e := range es {
				out = append(out[:e.at:e.at], append([]byte(e.name), out[e.at+e.n:]...)...)
			}
			overlay[f] = out
		}
		pk2, err := load()
		if err != nil || !sameUses(pk, pk2, ren) {
			for f, b := range before {
				if b == nil {
					delete(overlay, f)
				} else {
					overlay[f] = b
				}
			}
			break
		}
		for o, name := range ren {
			notes = append(notes, o.Pkg().Name()+"."+o.Name()+" is read as "+name)
		}
		pk = pk2
	}
	sort.Strings(notes)
	return pk, notes, nil
}

// sameUses: each name is used as many times as the object it replaces was.
func sameUses(a, b []*packages.Package, ren map[types.Object]string) bool {
	count := func(pk []*packages.Package, name func(o types.Object) string) map[string]int {
		n := map[string]int{}
		for _, p := range pk {
			for _, o := range p.TypesInfo.Uses {
				if o.Pkg() == nil {
					continue
				}
				kind := "other"
				switch v := o.(type) {
				case *types.Func:
					kind = "func"
				case *types.TypeName:
					kind = "type"
				case *types.Var:
					kind = "var"
					if v.IsField() {
						kind = "field"
					}
				}
				n[kind+" "+o.Pkg().Path()+" "+name(o)]++
			}
		}
		return n
	}
	x := count(a, func(o types.Object) string {
		if n, ok := ren[o]; ok {
			return n
		}
		return o.Name()
	})
	y := count(b, func(o types.Object) string { return o.Name() })
	if len(x) != len(y) {
		return false
	}
	for k, v := range x {
		if y[k] != v {
			return false
		}
	}
	return true
}
