package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
)

// Go types for schema types.

var anyT = reflect.TypeOf((*any)(nil)).Elem()

var goInts = map[string]reflect.Type{
	"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
}

// wider[n]: Go integer types that hold every value of the CUE type n.
var wider = map[string][]string{
	"int8": {"int16", "int32", "int64"}, "int16": {"int32", "int64"}, "int32": {"int64"},
	"uint8": {"uint16", "uint32", "uint64", "int16", "int32", "int64"}, "uint16": {"uint32", "uint64", "int32", "int64"}, "uint32": {"uint64", "int64"},
}

// goType returns a Go type that can hold every instance of t, and whether it is
// one that the assignability rules admit.
func (t *Type) goType(r *rand.Rand, ptr bool) reflect.Type {
	return goBuilder{r: r}.typ(t, ptr)
}

// goBuilder makes Go types; at the site of type target, mut breaks them.
type goBuilder struct {
	r      *rand.Rand
	target *Type
	mut    func(t *Type, g reflect.Type) reflect.Type
}

func (b goBuilder) typ(t *Type, ptr bool) reflect.Type {
	r := b.r
	g := b.typ0(t, ptr, r)
	if t == b.target {
		g = b.mut(t, g)
	}
	return g
}

func (b goBuilder) typ0(t *Type, ptr bool, r *rand.Rand) reflect.Type {
	if t.K == KUnion || t.K == KDisc || t.K == KAny || t.K == KTuple && !t.homogeneous() || r != nil && r.Intn(20) == 0 {
		return anyT
	}
	var g reflect.Type
	switch t.K {
	case KString, KRegex, KEnum:
		g = reflect.TypeOf("")
	case KBool:
		g = reflect.TypeOf(false)
	case KInt:
		g = goInts[t.Num]
		if t.Num == "int" {
			if t.Lo == nil {
				return anyT // unbounded
			}
			g = goInts["int64"]
		} else if w := wider[t.Num]; r != nil && len(w) > 0 && r.Intn(4) == 0 {
			g = goInts[pick(r, w)]
		}
	case KFloat:
		g = reflect.TypeOf(float64(0))
		if t.Num == "number" {
			return anyT
		}
		if t.Num == "float" {
			return anyT
		}
	case KConst:
		switch t.Const.(type) {
		case string:
			g = reflect.TypeOf("")
		case bool:
			g = reflect.TypeOf(false)
		default:
			g = goInts["int64"]
		}
	case KStruct:
		g = b.strct(t)
	case KList:
		return reflect.SliceOf(notByte(b.typ(t.Elem, false)))
	case KTuple:
		g = reflect.ArrayOf(len(t.Alts), notByte(t.Alts[0].goType(nil, false)))
	case KMap:
		g = reflect.MapOf(reflect.TypeOf(""), b.typ(t.Elem, false))
	}
	if t.Null || ptr {
		g = reflect.PtrTo(g)
	}
	return g
}

// notByte: CUE takes []uint8 to be bytes.
func notByte(g reflect.Type) reflect.Type {
	if g.Kind() == reflect.Uint8 {
		return goInts["uint16"]
	}
	return g
}

func (t *Type) homogeneous() bool {
	for _, a := range t.Alts {
		if a.cue() != t.Alts[0].cue() {
			return false
		}
	}
	return true
}

func (t *Type) goStruct(r *rand.Rand) reflect.Type { return goBuilder{r: r}.strct(t) }

func (b goBuilder) strct(t *Type) reflect.Type {
	r := b.r
	var fs []reflect.StructField
	for i, f := range t.Fields {
		tag := f.Name
		ptr := false
		if f.Opt {
			tag += ",omitempty"
			ptr = f.T.K != KList && f.T.K != KMap
		}
		ft := b.typ(f.T, ptr)
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft, Tag: reflect.StructTag(fmt.Sprintf(`json:"%s"`, tag))})
	}
	if r != nil {
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	return reflect.StructOf(fs)
}

// showGo renders a Go type.
func showGo(g reflect.Type) string { return strings.ReplaceAll(g.String(), "interface {}", "any") }

// goSites returns the types in t that show in the Go type.
func (t *Type) goSites(out *[]*Type) {
	*out = append(*out, t)
	switch t.K {
	case KUnion, KDisc, KAny:
		return // shows as any
	case KTuple:
		if !t.homogeneous() {
			return
		}
	}
	for _, f := range t.Fields {
		f.T.goSites(out)
	}
	if t.Elem != nil && t.K != KMap { // known finding: the types of map elements are not looked at
		t.Elem.goSites(out)
	}
}
