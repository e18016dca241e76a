package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// obs reads a model out of library objects through their public accessors.
type obs struct{ errs []string }

func (o *obs) fail(f string, a ...interface{}) { o.errs = append(o.errs, fmt.Sprintf(f, a...)) }

func isNilI(v interface{}) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan:
		return r.IsNil()
	}
	return false
}

func call(v interface{}, name string, args ...interface{}) interface{} {
	m := reflect.ValueOf(v).MethodByName(name)
	if !m.IsValid() {
		panic(fmt.Sprintf("harness: %T has no method %s", v, name))
	}
	in := make([]reflect.Value, len(args))
	for i := range args {
		if args[i] == nil {
			in[i] = reflect.Zero(m.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(args[i])
		}
	}
	out := m.Call(in)
	if len(out) == 0 {
		return nil
	}
	return out[0].Interface()
}

func hasMethod(v interface{}, name string) bool {
	return reflect.ValueOf(v).MethodByName(name).IsValid()
}

// optVal unwraps an option.
func optVal(v interface{}) (interface{}, bool) {
	if !call(v, "IsPresent").(bool) {
		return nil, false
	}
	return call(v, "Get"), true
}

func (o *obs) optStr(v interface{}, name string) *string {
	if x, ok := optVal(call(v, name)); ok {
		s := x.(string)
		return &s
	}
	return nil
}

func (o *obs) optBool(v interface{}, name string) *bool {
	if x, ok := optVal(call(v, name)); ok {
		s := x.(bool)
		return &s
	}
	return nil
}

func (o *obs) optUint(v interface{}, name string) *uint64 {
	if x, ok := optVal(call(v, name)); ok {
		s := uint64(x.(uint))
		return &s
	}
	return nil
}

func (o *obs) optNum(v interface{}, name string) *string {
	if x, ok := optVal(call(v, name)); ok {
		s := numText(x)
		return &s
	}
	return nil
}

func numText(x interface{}) string {
	switch t := x.(type) {
	case int64:
		return strconv.FormatInt(t, 10)
	case float64:
		return fltText(t)
	}
	return fmt.Sprintf("?%T", x)
}

// lim hides a limit that has its default.
func lim(v uint, def uint64) *uint64 {
	if uint64(v) == def {
		return nil
	}
	u := uint64(v)
	return &u
}

func (o *obs) format(v interface{}) *string {
	f := call(v, "Format")
	if isNilI(f) {
		return nil
	}
	s := f.(fmt.Stringer).String()
	return &s
}

// pairs lists the entries of one of the ordered maps, and checks that all ways
// to look at it agree.
func (o *obs) pairs(m interface{}) (keys []interface{}, vals []interface{}) {
	if isNilI(m) {
		o.fail("a map accessor returned nil")
		return
	}
	mv := reflect.ValueOf(m)
	at, get, idx, has := mv.MethodByName("At"), mv.MethodByName("Get"), mv.MethodByName("IndexOf"), mv.MethodByName("Has")
	n := call(m, "Len").(int)
	for i := 0; i < n; i++ {
		e := at.Call([]reflect.Value{reflect.ValueOf(i)})[0]
		k, v := e.FieldByName("Key"), e.FieldByName("Val")
		keys = append(keys, k.Interface())
		vals = append(vals, v.Interface())
		if k.Kind() == reflect.Interface {
			if k.IsNil() || !k.Elem().Comparable() {
				continue
			}
			if f, ok := k.Interface().(float64); ok && math.IsNaN(f) {
				continue
			}
		}
		got := get.Call([]reflect.Value{k})
		if !got[1].Bool() || !reflect.DeepEqual(got[0].Interface(), v.Interface()) {
			o.fail("map of %d: entry %d (%v) is not what Get returns", n, i, k)
		}
		if j := idx.Call([]reflect.Value{k})[0].Int(); int(j) != i {
			o.fail("map of %d: IndexOf(%v) is %d, but At(%d) has it", n, k, j, i)
		}
		if !has.Call([]reflect.Value{k})[0].Bool() {
			o.fail("map of %d: Has(%v) is false", n, k)
		}
	}
	return
}

func (o *obs) kys(m interface{}) (out []KY) {
	ks, vs := o.pairs(m)
	for i := range ks {
		out = append(out, KY{fmt.Sprint(ks[i]), goToY(vs[i])})
	}
	return
}

func (o *obs) anns(m raml.AnnotationMap) (out []Ann) {
	ks, vs := o.pairs(m)
	for i := range ks {
		out = append(out, Ann{ks[i].(string), o.kys(vs[i])})
	}
	return
}

// typedY converts a default, enum or example value.
func (o *obs) typedY(kind string, v interface{}) *Y {
	ok := true
	switch vClass(kind) {
	case "bool":
		_, ok = v.(bool)
	case "string":
		_, ok = v.(string)
	case "int":
		_, ok = v.(int64)
	case "float":
		_, ok = v.(float64)
	case "list":
		_, ok = v.([]interface{})
	}
	if !ok {
		o.fail("a value of a type of kind %s is a %T", kind, v)
	}
	return goToY(v)
}

// value reads an accessor that returns an option, or a list for arrays.
func (o *obs) value(kind string, v interface{}) *Y {
	if vClass(kind) == "list" {
		l := v.([]interface{})
		if l == nil {
			return nil
		}
		return goToY(l)
	}
	if x, ok := optVal(v); ok {
		return o.typedY(kind, x)
	}
	return nil
}

func (o *obs) example(kind string, ex raml.Example) *Ex {
	out := &Ex{
		DisplayName: o.optStr(ex, "DisplayName"),
		Description: o.optStr(ex, "Description"),
		Lenient:     !ex.Strict(),
		Anns:        o.anns(ex.Annotations()),
		Extra:       o.kys(ex.ExtraFacets()),
	}
	out.Value = o.value(kind, call(ex, "Value"))
	return out
}

func (o *obs) xml(x raml.XML) *Xml {
	return &Xml{
		Attribute: o.optBool(x, "IsAttribute"),
		Wrapped:   o.optBool(x, "IsWrapped"),
		Name:      o.optStr(x, "Name"),
		Namespace: o.optStr(x, "Namespace"),
		Prefix:    o.optStr(x, "Prefix"),
	}
}

func (o *obs) named(m interface{}, depth int) (out []Named) {
	ks, vs := o.pairs(m)
	for i := range ks {
		dt, ok := vs[i].(raml.DataType)
		if !ok {
			o.fail("entry %v is a %T, not a data type", ks[i], vs[i])
			continue
		}
		out = append(out, Named{ks[i].(string), o.td(dt, depth+1)})
	}
	return
}

func (o *obs) td(dt raml.DataType, depth int) *TD {
	if isNilI(dt) {
		o.fail("a data type is nil")
		return nil
	}
	if depth > 20000 {
		o.fail("a data type contains itself")
		return nil
	}
	kind := string(dt.Kind())
	t := &TD{Kind: kind, Schema: dt.Schema(), Extra: o.kys(dt.ExtraFacets())}
	if dt.Type() != dt.Schema() {
		o.fail("Type() is %q but Schema() is %q", dt.Type(), dt.Schema())
	}
	if p, ok := dt.(raml.Property); ok {
		t.Optional = !p.Required()
	} else {
		o.fail("a type of kind %s cannot be a property", kind)
	}
	if !implementsKind(dt, kind) {
		o.fail("a type of kind %s is a %T", kind, dt)
		return t
	}
	if !isExt(kind) {
		return t
	}
	ext := dt.(raml.ExtendedDataType)
	t.DisplayName = o.optStr(dt, "DisplayName")
	t.Description = o.optStr(dt, "Description")
	t.Anns = o.anns(ext.Annotations())
	if x := ext.XML(); !isNilI(x) {
		t.XML = o.xml(x)
	}
	ks, vs := o.pairs(ext.FacetDefinitions())
	for i := range ks {
		t.Facets = append(t.Facets, Facet{ks[i].(string), o.named(vs[i], depth)})
	}
	t.Default = o.value(kind, call(dt, "Default"))
	en := reflect.ValueOf(call(dt, "Enum"))
	for i := 0; i < en.Len(); i++ {
		if vClass(kind) == "list" {
			t.Enum = append(t.Enum, goToY(en.Index(i).Interface()))
		} else {
			t.Enum = append(t.Enum, o.typedY(kind, en.Index(i).Interface()))
		}
	}
	if ex := call(dt, "Example"); !isNilI(ex) {
		t.Example = o.example(kind, ex.(raml.Example))
	}
	ks, vs = o.pairs(call(dt, "Examples"))
	for i := range ks {
		ex, ok := vs[i].(raml.Example)
		if !ok || isNilI(ex) {
			o.fail("entry %v of the examples is a %T", ks[i], vs[i])
			continue
		}
		t.Examples = append(t.Examples, NamedEx{ks[i].(string), o.example(kind, ex)})
	}
	switch x := dt.(type) {
	case raml.StringType:
		if kind == kStr {
			t.Pattern = o.optStr(x, "Pattern")
			t.MinLength = lim(x.MinLength(), 0)
			t.MaxLength = o.optUint(x, "MaxLength")
		}
	case raml.FileType:
		t.FileTypes = append(t.FileTypes, x.FileTypes()...)
		t.MinLength = lim(x.MinLength(), 0)
		t.MaxLength = lim(x.MaxLength(), fileMaxLen)
	case raml.IntegerType, raml.NumberType:
		t.Minimum = o.optNum(x, "Minimum")
		t.Maximum = o.optNum(x, "Maximum")
		t.MultipleOf = o.optNum(x, "MultipleOf")
		t.Format = o.format(x)
	case raml.DatetimeType:
		t.Format = o.format(x)
	case raml.ArrayType:
		t.UniqueItems = x.UniqueItems()
		t.MinItems = lim(x.MinItems(), 0)
		t.MaxItems = lim(x.MaxItems(), arrayMaxItem)
		if !isNilI(x.Items()) {
			t.Items = o.td(x.Items(), depth+1)
		}
	case raml.ObjectType:
		t.MinProps = o.optUint(x, "MinProperties")
		t.MaxProps = o.optUint(x, "MaxProperties")
		t.Closed = !x.AdditionalProperties()
		t.Discrim = o.optStr(x, "Discriminator")
		if v, ok := optVal(x.DiscriminatorValue()); ok {
			t.DiscrimVal = goToY(v)
		}
		t.Properties = o.named(x.Properties(), depth)
	}
	return t
}

// implementsKind tells whether the object has the public interface of its kind.
func implementsKind(dt raml.DataType, kind string) (ok bool) {
	switch kind {
	case kAny:
		_, ok = dt.(raml.AnyType)
	case kArray:
		_, ok = dt.(raml.ArrayType)
	case kBool:
		_, ok = dt.(raml.BoolType)
	case kDate:
		_, ok = dt.(raml.DateOnlyType)
	case kTime:
		_, ok = dt.(raml.TimeOnlyType)
	case kDtOnly:
		_, ok = dt.(raml.DatetimeOnlyType)
	case kDt:
		_, ok = dt.(raml.DatetimeType)
	case kFile:
		_, ok = dt.(raml.FileType)
	case kInt:
		_, ok = dt.(raml.IntegerType)
	case kNil:
		_, ok = dt.(raml.NilType)
	case kNum:
		_, ok = dt.(raml.NumberType)
	case kObj:
		_, ok = dt.(raml.ObjectType)
	case kStr:
		_, ok = dt.(raml.StringType)
	case kUnion:
		_, ok = dt.(raml.UnionType)
	case kCustom:
		_, ok = dt.(raml.CustomType)
	case kInc:
		_, ok = dt.(raml.IncludeType)
	}
	return
}

func (o *obs) api(a raml.APISpec) *Doc {
	d := &Doc{
		Title:         a.Title(),
		Version:       o.optStr(a, "Version"),
		BaseURI:       o.optStr(a, "BaseURI"),
		Description:   o.optStr(a, "Description"),
		BaseURIParams: o.kys(a.BaseURIParameters()),
		Protocols:     a.Protocols(),
		MediaTypes:    a.MediaTypes(),
		SecuredBy:     a.SecuredBy(),
		Resources:     o.kys(a.Resources()),
	}
	for _, x := range a.Documentation() {
		d.Docs = append(d.Docs, DocEntry{Title: x.Title(), Content: x.Content(), Extra: o.kys(x.ExtraFacets())})
	}
	o.common(d, a)
	return d
}

func (o *obs) lib(l raml.Library) *Doc {
	d := &Doc{Lib: true, Usage: o.optStr(l, "Usage")}
	o.common(d, l)
	return d
}

func (o *obs) common(d *Doc, v interface {
	Types() raml.DataTypeMap
	Schemas() raml.DataTypeMap
	Traits() raml.UntypedMap
	ResourceTypes() raml.UntypedMap
	AnnotationTypes() raml.UntypedMap
	SecuritySchemes() raml.UntypedMap
	Annotations() raml.AnnotationMap
	ExtraFacets() raml.AnyMap
	Uses() raml.StringMap
}) {
	d.Types = o.named(v.Types(), 0)
	if s, t := v.Schemas(), v.Types(); s.Len() != t.Len() {
		o.fail("Schemas() has %d entries, Types() has %d", s.Len(), t.Len())
	} else {
		for i := 0; i < s.Len(); i++ {
			if s.At(i) != t.At(i) {
				o.fail("Schemas() and Types() differ at %d", i)
			}
		}
	}
	d.Traits = o.kys(v.Traits())
	d.ResourceTypes = o.kys(v.ResourceTypes())
	d.AnnotationTypes = o.kys(v.AnnotationTypes())
	d.SecuritySchemes = o.kys(v.SecuritySchemes())
	d.Anns = o.anns(v.Annotations())
	d.Extra = o.kys(v.ExtraFacets())
	ks, vs := o.pairs(v.Uses())
	for i := range ks {
		d.Uses = append(d.Uses, KS{ks[i].(string), vs[i].(string)})
	}
}

// observeDoc reads the model of a parsed or built document.
func observeDoc(v interface{}) (*Doc, error) {
	o := &obs{}
	var d *Doc
	switch t := v.(type) {
	case raml.APISpec:
		d = o.api(t)
	case raml.Library:
		d = o.lib(t)
	default:
		panic(fmt.Sprintf("harness: cannot observe %T", v))
	}
	if len(o.errs) > 0 {
		return d, fmt.Errorf("inconsistent accessors: %s", strings.Join(o.errs, "; "))
	}
	return d, nil
}

func observeTD(dt raml.DataType) (*TD, error) {
	o := &obs{}
	t := o.td(dt, 0)
	if len(o.errs) > 0 {
		return t, fmt.Errorf("inconsistent accessors: %s", strings.Join(o.errs, "; "))
	}
	return t, nil
}

// visible strips from a model what no accessor shows.
func visible(d *Doc) *Doc {
	out := clone(d)
	for i := range out.Docs {
		out.Docs[i].Include = false
	}
	out.eachTD(func(t *TD) {
		if t.XML != nil {
			t.XML.Extra = nil
		}
	})
	return out
}

func visibleTD(t *TD) *TD {
	out := clone(t)
	out.each(func(t *TD) {
		if t.XML != nil {
			t.XML.Extra = nil
		}
	})
	return out
}

func (d *Doc) eachTD(f func(*TD)) {
	for _, n := range d.Types {
		n.Type.each(f)
	}
}

func (t *TD) each(f func(*TD)) {
	if t == nil {
		return
	}
	f(t)
	t.Items.each(f)
	for _, n := range t.Properties {
		n.Type.each(f)
	}
	for _, x := range t.Facets {
		for _, n := range x.Types {
			n.Type.each(f)
		}
	}
}

func clone[T any](v T) T {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var out T
	if err := json.Unmarshal(b, &out); err != nil {
		panic(err)
	}
	return out
}

func toJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// diff describes the first difference between two models, or returns "".
func diff(want, got interface{}) string {
	a, b := toJSON(want), toJSON(got)
	if a == b {
		return ""
	}
	var x, y interface{}
	x, y = fromJSON(a), fromJSON(b)
	return diffAt("", x, y)
}

func fromJSON(s string) (v interface{}) {
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	if err := dec.Decode(&v); err != nil {
		panic(err)
	}
	return
}

func diffAt(path string, x, y interface{}) string {
	if m, ok := x.(map[string]interface{}); ok {
		if n, ok := y.(map[string]interface{}); ok {
			seen := map[string]bool{}
			var ks []string
			for k := range m {
				ks = append(ks, k)
				seen[k] = true
			}
			for k := range n {
				if !seen[k] {
					ks = append(ks, k)
				}
			}
			sortStrings(ks)
			for _, k := range ks {
				if s := diffAt(path+"."+k, m[k], n[k]); s != "" {
					return s
				}
			}
			return ""
		}
	}
	if m, ok := x.([]interface{}); ok {
		if n, ok := y.([]interface{}); ok && len(m) == len(n) {
			for i := range m {
				if s := diffAt(fmt.Sprintf("%s[%d]", path, i), m[i], n[i]); s != "" {
					return s
				}
			}
			return ""
		}
	}
	a, b := toJSON(x), toJSON(y)
	if a == b {
		return ""
	}
	return fmt.Sprintf("at %s: want %s, got %s", path, short(a), short(b))
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}

var _ = yaml.Node{}
