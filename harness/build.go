package harness

import (
	"fmt"
	"reflect"
	"strconv"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
)

// B builds library objects from models through the public setters.  It chooses
// between ways to do so with a fixed list of numbers, so that a saved case
// builds the same objects again.
type B struct {
	choices []uint8
	i       int
	// plain leaves out setter calls that have no effect
	plain bool
	// given are the slices that were given to setters, with copies of them.  They
	// belong to the caller.
	given []given
	// replaced tells whether a map was set or unset
	replaced bool
	// shared, if it is not nil, holds types that are used again where the same is said
	shared map[string]raml.DataType
}

type given struct{ slice, was reflect.Value }

// lend prepares a slice for a setter: it may have room left, or be one that another
// setter got.
func (b *B) lend(v interface{}) interface{} {
	s := reflect.ValueOf(v)
	if s.Kind() != reflect.Slice || s.IsNil() {
		return v
	}
	if b.noise() {
		for _, g := range b.given {
			if g.slice.Type() == s.Type() && reflect.DeepEqual(g.was.Interface(), v) {
				return g.slice.Interface()
			}
		}
	}
	cut := reflect.MakeSlice(s.Type(), s.Len(), s.Len()+b.n(3))
	reflect.Copy(cut, s)
	was := reflect.MakeSlice(s.Type(), cut.Cap(), cut.Cap())
	reflect.Copy(was, cut)
	b.given = append(b.given, given{cut, was.Slice(0, s.Len())})
	return cut.Interface()
}

// untouched tells whether the slices that were given to setters are as they were,
// up to their capacity.
func (b *B) untouched() error {
	for _, g := range b.given {
		n := g.slice.Cap()
		now, was := g.slice.Slice(0, n), g.was.Slice(0, n)
		for i := 0; i < n; i++ {
			x, y := now.Index(i).Interface(), was.Index(i).Interface()
			if f, ok := x.(float64); ok && f != f {
				continue
			}
			if !reflect.DeepEqual(x, y) {
				return fmt.Errorf("a list that a setter got or an accessor returned has changed from %v to %v", was, now)
			}
		}
	}
	return nil
}

// keepLists remembers the lists that the accessors of an object return, which must
// not change later either.
func (b *B) keepLists(o interface{}) {
	v := reflect.ValueOf(o)
	for i := 0; i < v.NumMethod(); i++ {
		m := v.Method(i)
		if t := m.Type(); t.NumIn() != 0 || t.NumOut() != 1 || t.Out(0).Kind() != reflect.Slice {
			continue
		}
		if s := m.Call(nil)[0]; s.Len() > 0 && len(b.given) < 200 {
			was := reflect.MakeSlice(s.Type(), s.Len(), s.Len())
			reflect.Copy(was, s)
			b.given = append(b.given, given{s.Slice3(0, s.Len(), s.Len()), was})
		}
	}
}

func (b *B) n(k int) int {
	if len(b.choices) == 0 {
		return 0
	}
	v := int(b.choices[b.i%len(b.choices)]) + b.i/len(b.choices)
	b.i++
	return v % k
}

// noise is true now and then: make a call that a later one undoes.
func (b *B) noise() bool { return !b.plain && b.n(5) == 4 }

var choiceGen = rapid.SliceOfN(rapid.Uint8Range(0, 59), 1, 24)

// parseOne returns the type declared by a YAML tree.
func parseOne(decl *yaml.Node) raml.DataType {
	m := &yaml.Node{Kind: yaml.MappingNode, Content: []*yaml.Node{yStr("t").toNode(), decl}}
	r := &yaml.Node{Kind: yaml.MappingNode, Content: []*yaml.Node{yStr("types").toNode(), m}}
	out, err := encodeNode(r, 2)
	if err != nil {
		panic("harness: " + err.Error())
	}
	v, err := parse(string(out), true)
	if err != nil {
		panic(fmt.Errorf("a bare type declaration was rejected: %w\n%s", err, out))
	}
	dt, ok := v.(raml.Library).Types().Get("t")
	if !ok {
		panic(fmt.Errorf("a declared type is missing:\n%s", out))
	}
	return dt
}

// bare makes a type without any facets.
func (b *B) bare(t *TD) raml.DataType {
	var dt raml.DataType
	switch {
	case b.n(2) == 0:
	case t.Kind == kAny:
		dt = rbuild.NewAnyDataType()
	case t.Kind == kArray:
		dt = rbuild.NewArrayDataType()
	case t.Kind == kBool:
		dt = rbuild.NewBoolDataType()
	case t.Kind == kInt:
		dt = rbuild.NewIntegerDataType()
	case t.Kind == kNum:
		dt = rbuild.NewNumberDataType()
	case t.Kind == kStr:
		dt = rbuild.NewStringDataType()
	}
	if dt != nil {
		return dt
	}
	schema := yStr(t.Schema)
	if t.Kind == kInc {
		schema.T = "!include"
	}
	override := false
	if (t.Kind == kCustom || t.Kind == kUnion) && b.n(2) == 0 {
		// any other type of the same kind
		override = true
		schema = yStr(map[string]string{kCustom: "Other", kUnion: "a | b"}[t.Kind])
	}
	decl := schema
	if !isExt(t.Kind) && t.Optional {
		decl = yMap().put("type", schema).put("required", yBool(false))
	} else if b.n(2) == 0 {
		decl = yMap().put("type", schema)
	}
	dt = parseOne(decl.toNode())
	if override {
		if b.n(2) == 0 {
			dt.OverrideType(t.Schema)
		} else {
			call(dt, "SetType", t.Schema)
		}
	}
	return dt
}

// exampleKinds share the example class of another kind.
func newExample(kind string) raml.Example {
	dt := parseOne(yMap().put("type", yStr(schemaOf(kind))).put("example", yMap()).toNode())
	ex, ok := call(dt, "Example").(raml.Example)
	if !ok || isNilI(ex) {
		panic(fmt.Errorf("an empty example of a type of kind %s was dropped", kind))
	}
	return ex
}

func schemaOf(kind string) string {
	switch kind {
	case kCustom:
		return "Other"
	case kUnion:
		return "a | b"
	case kInc:
		return "x.raml"
	}
	return kind
}

func newXML() raml.XML {
	dt := parseOne(yMap().put("type", yStr(kAny)).put("xml", yMap()).toNode())
	return dt.(raml.AnyType).XML()
}

func newDocumentation() raml.Documentation {
	v, err := parse("documentation: [{}]\n", false)
	if err != nil {
		panic(err)
	}
	return v.(raml.APISpec).Documentation()[0]
}

// native converts a tree to a plain Go value, if it may be one.
func native(y *Y) (interface{}, bool) {
	switch {
	case isS(y, "!!str"):
		return y.V, true
	case isS(y, "!!null"):
		return nil, true
	case isS(y, "!!bool"):
		return y.V == "true", true
	case isS(y, "!!int"):
		i, err := strconv.ParseInt(y.V, 10, 64)
		return i, err == nil
	case y.K == "l" && y.T == "!!seq":
		out := []interface{}{}
		for _, c := range y.C {
			v, ok := native(c)
			if !ok {
				v = c.toNode()
			}
			out = append(out, v)
		}
		return out, true
	case y.K == "m" && y.T == "!!map" && len(y.C) == 2 && isS(y.C[0], "!!str"):
		v, ok := native(y.C[1])
		if !ok {
			v = y.C[1].toNode()
		}
		return map[string]interface{}{y.C[0].V: v}, true
	}
	return nil, false
}

// val makes a value for an untyped position.
func (b *B) val(y *Y) interface{} {
	if b.n(2) == 0 {
		if v, ok := native(y); ok {
			return v
		}
	}
	return y.toNode()
}

// typed makes a value for the default, enum and example facets.
func (b *B) typed(kind string, y *Y) interface{} {
	switch vClass(kind) {
	case "bool":
		return y.V == "true"
	case "string":
		return y.V
	case "int":
		i, err := strconv.ParseInt(y.V, 10, 64)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return i
	case "float":
		return textFlt(y.V)
	case "list":
		out := []interface{}{}
		for _, c := range y.C {
			out = append(out, b.val(c))
		}
		return out
	}
	return b.val(y)
}

// enumVals makes the argument of SetEnum.
func (b *B) enumVals(kind string, ys []*Y) interface{} {
	switch vClass(kind) {
	case "bool":
		var out []bool
		for _, y := range ys {
			out = append(out, y.V == "true")
		}
		return out
	case "string":
		var out []string
		for _, y := range ys {
			out = append(out, y.V)
		}
		return out
	case "int":
		var out []int64
		for _, y := range ys {
			out = append(out, b.typed(kind, y).(int64))
		}
		return out
	case "float":
		var out []float64
		for _, y := range ys {
			out = append(out, textFlt(y.V))
		}
		return out
	}
	var out []interface{}
	for _, y := range ys {
		out = append(out, b.val(y))
	}
	return out
}

var mapMakers = map[string]func(int) interface{}{
	"AnyMap":        func(n int) interface{} { return raml.NewAnyMap(n) },
	"UntypedMap":    func(n int) interface{} { return raml.NewUntypedMap(n) },
	"StringMap":     func(n int) interface{} { return raml.NewStringMap(n) },
	"AnnotationMap": func(n int) interface{} { return raml.NewAnnotationMap(n) },
	"DataTypeMap":   func(n int) interface{} { return raml.NewDataTypeMap(n) },
	"PropertyMap":   func(n int) interface{} { return raml.NewPropertyMap(n) },
	"FacetMap":      func(n int) interface{} { return raml.NewFacetMap(n) },

	"AnyExampleMap":          func(n int) interface{} { return raml.NewAnyExampleMap(n) },
	"ArrayExampleMap":        func(n int) interface{} { return raml.NewArrayExampleMap(n) },
	"BoolExampleMap":         func(n int) interface{} { return raml.NewBoolExampleMap(n) },
	"CustomExampleMap":       func(n int) interface{} { return raml.NewCustomExampleMap(n) },
	"DateOnlyExampleMap":     func(n int) interface{} { return raml.NewDateOnlyExampleMap(n) },
	"DatetimeExampleMap":     func(n int) interface{} { return raml.NewDatetimeExampleMap(n) },
	"DatetimeOnlyExampleMap": func(n int) interface{} { return raml.NewDatetimeOnlyExampleMap(n) },
	"FileExampleMap":         func(n int) interface{} { return raml.NewFileExampleMap(n) },
	"IntegerExampleMap":      func(n int) interface{} { return raml.NewIntegerExampleMap(n) },
	"NumberExampleMap":       func(n int) interface{} { return raml.NewNumberExampleMap(n) },
	"ObjectExampleMap":       func(n int) interface{} { return raml.NewObjectExampleMap(n) },
	"StringExampleMap":       func(n int) interface{} { return raml.NewStringExampleMap(n) },
	"TimeOnlyExampleMap":     func(n int) interface{} { return raml.NewTimeOnlyExampleMap(n) },
	"UnionExampleMap":        func(n int) interface{} { return raml.NewUnionExampleMap(n) },
}

var exampleMapName = map[string]string{
	kAny: "AnyExampleMap", kArray: "ArrayExampleMap", kBool: "BoolExampleMap", kCustom: "CustomExampleMap",
	kDate: "DateOnlyExampleMap", kDt: "DatetimeExampleMap", kDtOnly: "DatetimeOnlyExampleMap", kFile: "FileExampleMap",
	kInt: "IntegerExampleMap", kNum: "NumberExampleMap", kObj: "ObjectExampleMap", kStr: "StringExampleMap",
	kTime: "TimeOnlyExampleMap", kUnion: "UnionExampleMap",
}

// kv is an entry for one of the maps.
type kv struct {
	k string
	v interface{}
}

// fill puts entries into an empty map, in one of several ways.
func (b *B) fill(m interface{}, kvs []kv) {
	for _, e := range kvs {
		switch {
		case b.noise():
			call(m, "Put", e.k+"~decoy", e.v)
			call(m, "Put", e.k, e.v)
			call(m, "Delete", e.k+"~decoy")
		case b.noise():
			call(m, "Put", e.k, e.v)
			call(m, "Put", e.k, e.v)
		case b.noise():
			call(m, "ReplaceOrPut", e.k, e.v)
			call(m, "ReplaceIfExists", e.k+"~decoy", e.v)
		default:
			call(m, "Put", e.k, e.v)
		}
	}
}

// newMap makes a map of a class that is written as a mapping.
func (b *B) newMap(class string, kvs []kv) interface{} {
	m := call(mapMakers[class](b.n(3)), "SerializeOrdered", false)
	b.fill(m, kvs)
	return m
}

// clear removes all entries of a map.
func clearMap(m interface{}) {
	for call(m, "Len").(int) > 0 {
		e := reflect.ValueOf(call(m, "At", 0))
		call(m, "Delete", e.FieldByName("Key").Interface())
	}
}

// setMap gives an object a map, through the setter or through the map that the
// accessor returns.
func (b *B) setMap(o interface{}, name, class string, kvs []kv) {
	settable := hasMethod(o, "Set"+name)
	if settable {
		defer b.detached(o, name, call(o, name))()
	}
	if settable && b.n(2) == 0 {
		b.set(o, name, b.newMap(class, kvs))
		return
	}
	if settable && b.n(4) == 3 {
		// what is put into the map later counts as well
		early := b.n(len(kvs) + 1)
		m := b.newMap(class, kvs[:early])
		b.set(o, name, m)
		b.fill(m, kvs[early:])
		return
	}
	if settable && len(kvs) == 0 && b.n(2) == 0 {
		if b.n(2) == 0 {
			b.set(o, name, nil)
		} else {
			b.unset(o, name)
		}
		return
	}
	if settable && b.n(3) == 2 {
		// the map of an unset facet can be filled again
		if b.n(2) == 0 {
			b.set(o, name, nil)
		} else {
			b.unset(o, name)
		}
	}
	live := call(o, name)
	clearMap(live)
	b.fill(live, kvs)
}

// detached checks, once a facet was changed, that a map that was replaced is no
// longer a part of the object: it still has its entries, and what is put into it
// stays there.
func (b *B) detached(o interface{}, name string, old interface{}) func() {
	if isNilI(old) {
		return func() {}
	}
	was := mapEntries(old)
	b.replaced = false
	return func() {
		if !b.replaced {
			return
		}
		if now := mapEntries(old); !reflect.DeepEqual(was, now) {
			panic(fmt.Errorf("a map that %s of a %T was before has changed from %v to %v", name, o, was, now))
		}
		before := mapEntries(call(o, name))
		call(old, "Put", "put later", nil)
		now := mapEntries(call(o, name))
		call(old, "Delete", "put later")
		if !reflect.DeepEqual(before, now) {
			panic(fmt.Errorf("a map that %s of a %T was before still belongs to it", name, o))
		}
	}
}

// mapEntries are the keys and the identities of the values of a map.
func mapEntries(m interface{}) (out []string) {
	for i, n := 0, call(m, "Len").(int); i < n; i++ {
		e := reflect.ValueOf(call(m, "At", i))
		k, v := e.FieldByName("Key").Interface(), e.FieldByName("Val").Interface()
		id := fmt.Sprintf("%v", v)
		if p := reflect.ValueOf(v); p.IsValid() && p.Kind() == reflect.Ptr {
			id = fmt.Sprintf("%p", v)
		}
		out = append(out, fmt.Sprintf("%v=%s", k, id))
	}
	return
}

// set calls a setter and checks that it returns its receiver.
func (b *B) set(o interface{}, name string, v interface{}) {
	b.replaced = true
	if got := call(o, "Set"+name, b.lend(v)); got != o {
		panic(fmt.Errorf("Set%s of a %T returned another object", name, o))
	}
}

func (b *B) unset(o interface{}, name string) {
	b.replaced = true
	if got := call(o, "Unset"+name); got != o {
		panic(fmt.Errorf("Unset%s of a %T returned another object", name, o))
	}
}

// opt sets or unsets an optional facet.
func (b *B) opt(o interface{}, name string, present bool, v func() interface{}) {
	if present {
		if b.noise() && hasMethod(o, "Unset"+name) {
			b.set(o, name, v())
			b.unset(o, name)
		}
		b.set(o, name, v())
	} else {
		b.unset(o, name)
	}
}

func (b *B) optStr(o interface{}, name string, s *string) {
	b.opt(o, name, s != nil, func() interface{} { return *s })
	if s == nil && b.noise() {
		b.set(o, name, "decoy")
		b.unset(o, name)
	}
}

func (b *B) optUint(o interface{}, name string, v *uint64) {
	b.opt(o, name, v != nil, func() interface{} { return uint(*v) })
}

// limit sets a facet that has a default.
func (b *B) limit(o interface{}, name string, v *uint64, def uint64) {
	if v == nil {
		v = &def
	}
	if b.noise() {
		b.set(o, name, uint(77))
	}
	b.set(o, name, uint(*v))
}

func (b *B) kvsOf(kys []KY) (out []kv) {
	for _, x := range kys {
		out = append(out, kv{x.Key, b.val(x.Val)})
	}
	return
}

func (b *B) anns(o interface{}, as []Ann) {
	var out []kv
	for _, a := range as {
		out = append(out, kv{a.Name, b.newMap("UntypedMap", b.kvsOf(a.Fields))})
	}
	b.setMap(o, "Annotations", "AnnotationMap", out)
}

// foreignFormat is a format that a user of the library defines.
type foreignFormat struct{ s string }

func (f *foreignFormat) String() string                    { return f.s }
func (f *foreignFormat) UnmarshalYAML(n *yaml.Node) error  { return n.Decode(&f.s) }
func (f *foreignFormat) MarshalYAML() (interface{}, error) { return f.s, nil }

func (b *B) formatVal(kind, s string) interface{} {
	if b.n(2) == 0 {
		return &foreignFormat{s}
	}
	dt := parseOne(yMap().put("type", yStr(kind)).put("format", yStr(s)).toNode())
	f := call(dt, "Format")
	if isNilI(f) {
		panic(fmt.Errorf("the format %q of a type of kind %s was dropped", s, kind))
	}
	return f
}

// tdFields are the facets of an extended type by the names of their setters.
func tdFields(kind string) []string {
	out := []string{"DisplayName", "Description", "Default", "Enum", "Example", "Examples", "Required", "Annotations",
		"FacetDefinitions", "XML", "ExtraFacets"}
	switch kind {
	case kStr:
		out = append(out, "Pattern", "MinLength", "MaxLength")
	case kFile:
		out = append(out, "FileTypes", "MinLength", "MaxLength")
	case kInt, kNum:
		out = append(out, "Minimum", "Maximum", "MultipleOf", "Format")
	case kDt:
		out = append(out, "Format")
	case kArray:
		out = append(out, "UniqueItems", "MinItems", "MaxItems", "Items")
	case kObj:
		out = append(out, "Properties", "MinProperties", "MaxProperties", "AdditionalProperties", "Discriminator",
			"DiscriminatorValue")
	}
	return out
}

// modelField maps the names of facets to the fields of the model.
var modelField = map[string]string{"Required": "Optional", "Annotations": "Anns", "FacetDefinitions": "Facets",
	"ExtraFacets": "Extra", "MinProperties": "MinProps", "MaxProperties": "MaxProps", "AdditionalProperties": "Closed",
	"Discriminator": "Discrim", "DiscriminatorValue": "DiscrimVal"}

// copyField copies one facet between two models of the same kind.
func copyField(dst, src *TD, facet string) {
	f := facet
	if m := modelField[facet]; m != "" {
		f = m
	}
	reflect.ValueOf(dst).Elem().FieldByName(f).Set(reflect.ValueOf(src).Elem().FieldByName(f))
}

// apply makes one facet of a type what it is in the model.
func (b *B) apply(o raml.DataType, t *TD, facet string) {
	num := func(s *string) {
		b.opt(o, facet, s != nil, func() interface{} {
			if t.Kind == kInt && facet != "MultipleOf" {
				i, err := strconv.ParseInt(*s, 10, 64)
				if err != nil {
					panic("harness: " + err.Error())
				}
				return i
			}
			return textFlt(*s)
		})
	}
	switch facet {
	case "DisplayName":
		b.optStr(o, facet, t.DisplayName)
	case "Description":
		b.optStr(o, facet, t.Description)
	case "Default":
		b.opt(o, facet, t.Default != nil, func() interface{} { return b.typed(t.Kind, t.Default) })
	case "Enum":
		b.opt(o, facet, len(t.Enum) > 0, func() interface{} { return b.enumVals(t.Kind, t.Enum) })
	case "Example":
		b.opt(o, facet, t.Example != nil, func() interface{} { return b.example(t.Kind, t.Example) })
	case "Examples":
		var kvs []kv
		for _, x := range t.Examples {
			kvs = append(kvs, kv{x.Name, b.example(t.Kind, x.Ex)})
		}
		b.setMap(o, facet, exampleMapName[t.Kind], kvs)
	case "Required":
		if b.noise() {
			b.set(o, facet, t.Optional)
		}
		b.set(o, facet, !t.Optional)
	case "Annotations":
		b.anns(o, t.Anns)
	case "FacetDefinitions":
		var kvs []kv
		for _, x := range t.Facets {
			kvs = append(kvs, kv{x.Name, b.newMap("DataTypeMap", b.namedKVs(x.Types))})
		}
		b.setMap(o, facet, "FacetMap", kvs)
	case "XML":
		b.opt(o, facet, t.XML != nil, func() interface{} { return b.xml(t.XML) })
	case "ExtraFacets":
		b.setMap(o, facet, "AnyMap", b.kvsOf(t.Extra))
	case "Pattern":
		b.optStr(o, facet, t.Pattern)
	case "MinLength":
		b.limit(o, facet, t.MinLength, 0)
	case "MaxLength":
		if t.Kind == kFile {
			b.limit(o, facet, t.MaxLength, fileMaxLen)
		} else {
			b.optUint(o, facet, t.MaxLength)
		}
	case "FileTypes":
		b.opt(o, facet, len(t.FileTypes) > 0, func() interface{} { return append([]string{}, t.FileTypes...) })
	case "Minimum":
		num(t.Minimum)
	case "Maximum":
		num(t.Maximum)
	case "MultipleOf":
		num(t.MultipleOf)
	case "Format":
		b.opt(o, facet, t.Format != nil, func() interface{} { return b.formatVal(t.Kind, *t.Format) })
	case "UniqueItems":
		b.set(o, facet, t.UniqueItems)
	case "MinItems":
		b.limit(o, facet, t.MinItems, 0)
	case "MaxItems":
		b.limit(o, facet, t.MaxItems, arrayMaxItem)
	case "Items":
		b.opt(o, facet, t.Items != nil, func() interface{} { return b.td(t.Items) })
	case "Properties":
		b.setMap(o, facet, "PropertyMap", b.namedKVs(t.Properties))
	case "MinProperties":
		b.optUint(o, facet, t.MinProps)
	case "MaxProperties":
		b.optUint(o, facet, t.MaxProps)
	case "AdditionalProperties":
		b.set(o, facet, !t.Closed)
	case "Discriminator":
		b.optStr(o, facet, t.Discrim)
	case "DiscriminatorValue":
		b.opt(o, facet, t.DiscrimVal != nil, func() interface{} { return b.val(t.DiscrimVal) })
	default:
		panic("harness: unknown facet " + facet)
	}
}

// order lists strings in one of several orders.
func (b *B) order(s []string) []string {
	out := append([]string{}, s...)
	for i := len(out) - 1; i > 0; i-- {
		j := b.n(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

var zeroTD = map[string]*TD{}

func init() {
	for _, k := range allKinds {
		zeroTD[k] = &TD{Kind: k, Schema: schemaOf(k)}
	}
}

// td builds a type.
func (b *B) td(t *TD) raml.DataType {
	if b.shared == nil {
		return b.td1(t)
	}
	k := toJSON(t)
	if o := b.shared[k]; o != nil && b.n(2) == 0 {
		return o
	}
	o := b.td1(t)
	b.shared[k] = o
	return o
}

func (b *B) td1(t *TD) raml.DataType {
	o := b.bare(t)
	if !isExt(t.Kind) {
		b.apply(o, t, "ExtraFacets")
		return o
	}
	for _, f := range b.order(tdFields(t.Kind)) {
		// Facets that are absent are mostly left alone.
		tmp := clone(zeroTD[t.Kind])
		copyField(tmp, t, f)
		if toJSON(tmp) == toJSON(zeroTD[t.Kind]) && !b.noise() {
			continue
		}
		b.apply(o, t, f)
	}
	return o
}

func (b *B) namedKVs(ts []Named) (out []kv) {
	for _, t := range ts {
		out = append(out, kv{t.Name, b.td(t.Type)})
	}
	return
}

func (b *B) example(kind string, ex *Ex) raml.Example {
	o := newExample(kind)
	for _, f := range b.order(exFields) {
		b.applyEx(o, kind, ex, f)
	}
	return o
}

func (b *B) applyEx(o raml.Example, kind string, ex *Ex, facet string) {
	switch facet {
	case "DisplayName":
		b.optStr(o, facet, ex.DisplayName)
	case "Description":
		b.optStr(o, facet, ex.Description)
	case "Value":
		b.opt(o, facet, ex.Value != nil, func() interface{} { return b.typed(kind, ex.Value) })
	case "Strict":
		b.set(o, facet, !ex.Lenient)
	case "Annotations":
		b.anns(o, ex.Anns)
	case "ExtraFacets":
		b.setMap(o, facet, "AnyMap", b.kvsOf(ex.Extra))
	}
}

func (b *B) xml(x *Xml) raml.XML {
	o := newXML()
	for _, f := range xmlFields {
		b.applyXML(o, x, f)
	}
	return o
}

func (b *B) applyXML(o interface{}, x *Xml, facet string) {
	bo := func(v *bool) { b.opt(o, facet, v != nil, func() interface{} { return *v }) }
	switch facet {
	case "IsAttribute":
		bo(x.Attribute)
	case "IsWrapped":
		bo(x.Wrapped)
	case "Name":
		b.optStr(o, facet, x.Name)
	case "Namespace":
		b.optStr(o, facet, x.Namespace)
	case "Prefix":
		b.optStr(o, facet, x.Prefix)
	}
}

func (b *B) documentation(ds []DocEntry) (out []raml.Documentation) {
	for _, d := range ds {
		o := newDocumentation()
		b.set(o, "Title", d.Title)
		b.set(o, "Content", d.Content)
		b.setMap(o, "ExtraFacets", "AnyMap", b.kvsOf(d.Extra))
		out = append(out, o)
	}
	return
}

// docFields are the sections of a document by the names of their accessors.
func docFields(lib bool) []string {
	out := []string{"Types", "Traits", "ResourceTypes", "AnnotationTypes", "SecuritySchemes", "Annotations", "Uses",
		"ExtraFacets"}
	if lib {
		return append(out, "Usage")
	}
	return append(out, "Title", "Version", "BaseURI", "Description", "BaseURIParameters", "Protocols", "MediaTypes",
		"SecuredBy", "Documentation", "Resources")
}

var docModelField = map[string]string{"Annotations": "Anns", "ExtraFacets": "Extra", "BaseURIParameters": "BaseURIParams",
	"Documentation": "Docs"}

func copyDocField(dst, src *Doc, name string) {
	f := name
	if m := docModelField[name]; m != "" {
		f = m
	}
	reflect.ValueOf(dst).Elem().FieldByName(f).Set(reflect.ValueOf(src).Elem().FieldByName(f))
}

// applyDoc makes one section of a document what it is in the model.
func (b *B) applyDoc(o interface{}, d *Doc, name string) {
	strs := func(v []string) {
		b.opt(o, name, len(v) > 0, func() interface{} { return append([]string{}, v...) })
	}
	switch name {
	case "Types":
		if b.n(3) == 0 {
			name = "Schemas"
		}
		b.setMap(o, name, "DataTypeMap", b.namedKVs(d.Types))
	case "Traits":
		b.setMap(o, name, "UntypedMap", b.kvsOf(d.Traits))
	case "ResourceTypes":
		b.setMap(o, name, "UntypedMap", b.kvsOf(d.ResourceTypes))
	case "AnnotationTypes":
		b.setMap(o, name, "UntypedMap", b.kvsOf(d.AnnotationTypes))
	case "SecuritySchemes":
		b.setMap(o, name, "UntypedMap", b.kvsOf(d.SecuritySchemes))
	case "BaseURIParameters":
		b.setMap(o, name, "UntypedMap", b.kvsOf(d.BaseURIParams))
	case "Resources":
		b.setMap(o, name, "UntypedMap", b.kvsOf(d.Resources))
	case "Annotations":
		b.anns(o, d.Anns)
	case "Uses":
		var kvs []kv
		for _, x := range d.Uses {
			kvs = append(kvs, kv{x.Key, x.Val})
		}
		b.setMap(o, name, "StringMap", kvs)
	case "ExtraFacets":
		b.setMap(o, name, "AnyMap", b.kvsOf(d.Extra))
	case "Usage":
		b.optStr(o, name, d.Usage)
	case "Title":
		b.set(o, name, d.Title)
	case "Version":
		b.optStr(o, name, d.Version)
	case "BaseURI":
		b.optStr(o, name, d.BaseURI)
	case "Description":
		b.optStr(o, name, d.Description)
	case "Protocols":
		strs(d.Protocols)
	case "MediaTypes":
		strs(d.MediaTypes)
	case "SecuredBy":
		strs(d.SecuredBy)
	case "Documentation":
		b.opt(o, name, len(d.Docs) > 0, func() interface{} { return b.documentation(d.Docs) })
	default:
		panic("harness: unknown section " + name)
	}
}

// doc builds a document.
func (b *B) doc(d *Doc) interface{} {
	var o interface{}
	if d.Lib {
		o = rbuild.NewLibrary()
	} else {
		o = rbuild.NewAPISpec()
	}
	for _, f := range b.order(docFields(d.Lib)) {
		tmp := &Doc{}
		copyDocField(tmp, d, f)
		if toJSON(tmp) == "{}" && !b.noise() {
			continue
		}
		b.applyDoc(o, d, f)
	}
	return o
}

// buildable drops from a model what cannot be said through the setters.
func buildable(d *Doc) *Doc { return visible(d) }
