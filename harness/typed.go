package main

// A lineage with static Go types for each of its schemas.

type nest0 struct {
	On    bool    `json:"on"`
	Label *string `json:"label,omitempty"`
	Lvl   uint8   `json:"lvl"`
}

type item0 struct {
	ID   int64    `json:"id"`
	Tags []string `json:"tags,omitempty"`
	Kind string   `json:"kind"`
}

// T00 is for version 0.0, and so on.
type T00 struct {
	Name  string   `json:"name"`
	Count int32    `json:"count"`
	Mode  string   `json:"mode"`
	Tags  []string `json:"tags"`
	Nest  nest0    `json:"nest"`
	Items []item0  `json:"items"`
	Ratio *float64 `json:"ratio,omitempty"`
	Fixed string   `json:"fixed"`
	Pair  [2]int32 `json:"pair"`
	Free  any      `json:"free,omitempty"`
}

type T01 struct {
	Name  string   `json:"name"`
	Count int32    `json:"count"`
	Mode  string   `json:"mode"`
	Tags  []string `json:"tags"`
	Nest  nest0    `json:"nest"`
	Items []item0  `json:"items"`
	Ratio *float64 `json:"ratio,omitempty"`
	Fixed string   `json:"fixed"`
	Pair  [2]int32 `json:"pair"`
	Free  any      `json:"free,omitempty"`
	Extra *int16   `json:"extra,omitempty"`
	More  *nest0   `json:"more,omitempty"`
}

type T10 struct {
	Title string   `json:"title"`
	Count int64    `json:"count"`
	Mode  string   `json:"mode"`
	Tags  []string `json:"tags"`
	Nest  *nest0   `json:"nest,omitempty"`
	Items []item0  `json:"items"`
	On    bool     `json:"on"`
}

type T11 struct {
	Title string   `json:"title"`
	Count int64    `json:"count"`
	Mode  string   `json:"mode"`
	Tags  []string `json:"tags"`
	Nest  *nest0   `json:"nest,omitempty"`
	Items []item0  `json:"items"`
	On    bool     `json:"on"`
	Note  *string  `json:"note,omitempty"`
}

func typedLin(c *Ctx) *Lin {
	str := func() *Type { return &Type{K: KString} }
	strD := func(d string) *Type { return &Type{K: KString, HasDef: true, Def: d} }
	num := func(n string) *Type { return &Type{K: KInt, Num: n} }
	numD := func(n string, d int64) *Type { return &Type{K: KInt, Num: n, HasDef: true, Def: d} }
	boolD := func(d bool) *Type { return &Type{K: KBool, HasDef: true, Def: d} }
	enum := func(def string, e ...string) *Type { return &Type{K: KEnum, Enum: e, HasDef: def != "", Def: def} }
	nest := func() *Type {
		return &Type{K: KStruct, Fields: []*Field{{"on", false, boolD(true)}, {"label", true, str()}, {"lvl", false, num("uint8")}}}
	}
	item := func() *Type {
		return &Type{K: KStruct, Fields: []*Field{{"id", false, num("int64")}, {"tags", true, &Type{K: KList, Elem: str()}}, {"kind", false, enum("", "a", "b")}}}
	}
	t00 := &Type{K: KStruct, Fields: []*Field{
		{"name", false, str()},
		{"count", false, numD("int32", 5)},
		{"mode", false, enum("slow", "fast", "slow")},
		{"tags", false, &Type{K: KList, Elem: str(), HasDef: true, Def: []any{"t1", "t2"}}},
		{"nest", false, nest()},
		{"items", false, &Type{K: KList, Elem: item()}},
		{"ratio", true, &Type{K: KFloat, Num: "float64"}},
		{"fixed", false, &Type{K: KConst, Const: "lit"}},
		{"pair", false, &Type{K: KTuple, Alts: []*Type{num("int32"), num("int32")}}},
		{"free", true, &Type{K: KUnion, Alts: []*Type{str(), {K: KBool}}}},
	}}
	t01 := t00.clone()
	t01.Fields = append(t01.Fields, &Field{"extra", true, num("int16")}, &Field{"more", true, nest()})
	t10 := &Type{K: KStruct, Fields: []*Field{
		{"title", false, str()},
		{"count", false, num("int64")},
		{"mode", false, str()},
		{"tags", false, &Type{K: KList, Elem: str(), HasDef: true, Def: []any{"t1", "t2"}}},
		{"nest", true, nest()},
		{"items", false, &Type{K: KList, Elem: item()}},
		{"on", false, boolD(false)},
	}}
	t11 := t10.clone()
	t11.Fields = append(t11.Fields, &Field{"note", true, str()})
	_ = strD
	l := &Lin{Name: "typed", Schs: []*Sch{
		{V: Ver{0, 0}, T: t00, Ren: map[string]string{}},
		{V: Ver{0, 1}, T: t01, Ren: map[string]string{}},
		{V: Ver{1, 0}, T: t10, Ren: map[string]string{"title": "name"}},
		{V: Ver{1, 1}, T: t11, Ren: map[string]string{}},
	}}
	l.genLenses(c.Rand, stdLin())
	return l
}
