package harness

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// part is a part of a document that can be changed where it is: a map, an example,
// the xml facet of a type or an entry of the documentation.
type part struct {
	what  string             // what it is
	model interface{}        // a pointer to a slice of the model, or a struct of it
	real  func() interface{} // the same part of the document
	kind  string             // the kind of the type that it belongs to
	okKey func(string) bool  // tells which new keys a map may get
}

// parts lists the parts of a document in a fixed order.
func parts(v func() interface{}, d *Doc) (out []part) {
	add := func(what string, model interface{}, real func() interface{}, kind string, ok func(string) bool) {
		out = append(out, part{what, model, real, kind, ok})
	}
	via := func(o func() interface{}, method string, args ...interface{}) func() interface{} {
		return func() interface{} { return call(o(), method, args...) }
	}
	notIn := func(known map[string]bool, bad string) func(string) bool {
		return func(s string) bool { return !known[s] && (s == "" || bad == "" || s[0] != bad[0] && s[0] != '/') }
	}
	anns := func(as *[]Ann, o func() interface{}) {
		m := via(o, "Annotations")
		add("annotations", as, m, "", nil)
		for i := range *as {
			a := &(*as)[i]
			add("annotation", &a.Fields, via(m, "Get", a.Name), "", nil)
		}
	}
	example := func(x *Ex, o func() interface{}, kind string) {
		add("example", x, o, kind, nil)
		anns(&x.Anns, o)
		add("extra facets", &x.Extra, via(o, "ExtraFacets"), "", notIn(exKeys, "("))
	}
	var named func(ts *[]Named, o func() interface{}, what string)
	var td func(t *TD, o func() interface{})
	named = func(ts *[]Named, o func() interface{}, what string) {
		add(what, ts, o, "", nil)
		for _, n := range *ts {
			td(n.Type, via(o, "Get", n.Name))
		}
	}
	td = func(t *TD, o func() interface{}) {
		bad := "("
		if !isExt(t.Kind) {
			bad = ""
		}
		add("extra facets", &t.Extra, via(o, "ExtraFacets"), "", notIn(knownTypeKeys(t.Kind), bad))
		if !isExt(t.Kind) {
			return
		}
		anns(&t.Anns, o)
		if t.Example != nil {
			example(t.Example, via(o, "Example"), t.Kind)
		}
		m := via(o, "Examples")
		add("examples", &t.Examples, m, t.Kind, nil)
		for _, x := range t.Examples {
			example(x.Ex, via(m, "Get", x.Name), t.Kind)
		}
		if t.XML != nil {
			add("xml", t.XML, via(o, "XML"), "", nil)
		}
		m = via(o, "FacetDefinitions")
		add("facets", &t.Facets, m, "", nil)
		for i := range t.Facets {
			f := &t.Facets[i]
			named(&f.Types, via(m, "Get", f.Name), "facet")
		}
		if t.Items != nil {
			td(t.Items, via(o, "Items"))
		}
		if t.Kind == kObj {
			named(&t.Properties, via(o, "Properties"), "properties")
		}
	}
	named(&d.Types, via(v, "Types"), "types")
	add("section", &d.Traits, via(v, "Traits"), "", nil)
	add("section", &d.ResourceTypes, via(v, "ResourceTypes"), "", nil)
	add("section", &d.AnnotationTypes, via(v, "AnnotationTypes"), "", nil)
	add("section", &d.SecuritySchemes, via(v, "SecuritySchemes"), "", nil)
	anns(&d.Anns, v)
	add("uses", &d.Uses, via(v, "Uses"), "", nil)
	if d.Lib {
		add("extra facets", &d.Extra, via(v, "ExtraFacets"), "", notIn(libKeys, "("))
		return
	}
	add("extra facets", &d.Extra, via(v, "ExtraFacets"), "", notIn(apiKeys, "("))
	add("section", &d.BaseURIParams, via(v, "BaseURIParameters"), "", nil)
	add("resources", &d.Resources, via(v, "Resources"), "", func(s string) bool { return s != "" && s[0] == '/' })
	for i := range d.Docs {
		o := func() interface{} { return v().(raml.APISpec).Documentation()[i] }
		add("entry", &d.Docs[i], o, "", nil)
		add("extra facets", &d.Docs[i].Extra, via(o, "ExtraFacets"), "", notIn(docKeys, ""))
	}
	return
}

// pickPart draws a part: every sort is about as likely, how many there are or not.
func (g *G) pickPart(ps []part) int {
	if g.p(3) {
		// the largest map
		best, size := -1, 2
		for i, p := range ps {
			if v := reflect.ValueOf(p.model).Elem(); v.Kind() == reflect.Slice && v.Len() > size {
				best, size = i, v.Len()
			}
		}
		if best >= 0 {
			return best
		}
	}
	var sorts []string
	at := map[string][]int{}
	for i, p := range ps {
		if at[p.what] == nil {
			sorts = append(sorts, p.what)
		}
		at[p.what] = append(at[p.what], i)
	}
	of := at[sorts[g.even(len(sorts))]]
	return of[g.n(len(of))]
}

// partOps are the changes of a map.
var partOps = []string{"Put new", "Put old", "ReplaceOrPut new", "ReplaceOrPut old", "ReplaceIfExists old",
	"ReplaceIfExists new", "Delete old", "Delete new"}

var exFields = []string{"DisplayName", "Description", "Value", "Strict", "Annotations", "ExtraFacets"}
var exModelField = map[string]string{"Strict": "Lenient", "Annotations": "Anns", "ExtraFacets": "Extra"}
var xmlFields = []string{"IsAttribute", "IsWrapped", "Name", "Namespace", "Prefix"}
var xmlModelField = map[string]string{"IsAttribute": "Attribute", "IsWrapped": "Wrapped"}

// genPartEdit draws a change of a part of a document.
func (g *G) genPartEdit(cur *Doc) Edit {
	e := Edit{What: "part"}
	ps := parts(nil, cur)
	e.At = g.pickPart(ps)
	p := ps[e.At]
	var elem interface{}
	switch p.what {
	case "example":
		e.Op = exFields[g.even(len(exFields))]
		elem = g.example(p.kind)
	case "xml":
		e.Op = xmlFields[g.even(len(xmlFields))]
		elem = g.xml()
	case "entry":
		e.Op = pick(g, []string{"Title", "Content"})
		elem = DocEntry{Title: g.str(), Content: g.str()}
	default:
		list := reflect.ValueOf(p.model).Elem()
		e.Op = partOps[g.even(len(partOps))]
		if e.Facet = g.even(16); g.p(3) && list.Len() > 0 {
			e.Facet = list.Len() - 1
		}
		e.Key, elem = g.partElem(p)
	}
	e.Elem = json.RawMessage(toJSON(elem))
	return e
}

// partElem draws a new entry of a map.
func (g *G) partElem(p part) (key string, elem interface{}) {
	list := reflect.ValueOf(p.model).Elem()
	used := map[string]bool{}
	for i := 0; i < list.Len(); i++ {
		used[keyOf(list, i)] = true
	}
	switch p.what {
	case "annotations":
		for key = "(" + g.name(map[string]bool{}, nil) + ")"; used[key]; key = "(x" + key[1:] {
		}
	case "resources":
		for key = "/" + g.ident(); used[key]; key += "x" {
		}
	default:
		key = g.name(used, p.okKey)
	}
	switch p.model.(type) {
	case *[]KY:
		elem = KY{Val: g.opaque(2)}
	case *[]KS:
		elem = KS{Val: g.str()}
	case *[]Ann:
		elem = Ann{Fields: g.kys(1, 3, map[string]bool{}, nil)}
	case *[]Facet:
		f := Facet{Types: g.named(1, 0, 2)}
		for i := range f.Types {
			f.Types[i].Type = visibleTD(f.Types[i].Type)
		}
		elem = f
	case *[]Named:
		elem = Named{Type: visibleTD(g.td(1))}
	case *[]NamedEx:
		elem = NamedEx{Ex: g.example(p.kind)}
	}
	return
}

// enlarge puts a few entries more into one of the maps of a document.
func (g *G) enlarge(d *Doc) {
	ps := parts(nil, d)
	p := ps[g.pickPart(ps)]
	list := reflect.ValueOf(p.model).Elem()
	if list.Kind() != reflect.Slice {
		return
	}
	for i := 2 + g.n(4); i > 0; i-- {
		k, v := g.partElem(p)
		x := reflect.New(list.Type().Elem()).Elem()
		x.Set(reflect.ValueOf(v))
		x.Field(0).SetString(k)
		list.Set(reflect.Append(list, x))
	}
}

func keyOf(list reflect.Value, i int) string { return list.Index(i).Field(0).String() }

// elem is the new element of a list of the model.
func (e Edit) elem(p part) reflect.Value {
	v := reflect.New(reflect.TypeOf(p.model).Elem().Elem())
	if err := json.Unmarshal(e.Elem, v.Interface()); err != nil {
		panic(err)
	}
	v.Elem().Field(0).SetString(e.Key)
	return v.Elem()
}

// whole is the new value of a part that is not a map.
func (e Edit) whole(p part) interface{} {
	v := reflect.New(reflect.TypeOf(p.model).Elem()).Interface()
	if err := json.Unmarshal(e.Elem, v); err != nil {
		panic(err)
	}
	return v
}

// opOn is the change and the index of the entry that it changes, or -1.
func (e Edit) opOn(list reflect.Value) (string, int) {
	var op, on string
	fmt.Sscan(e.Op, &op, &on)
	at := -1
	if on == "old" && list.Len() > 0 {
		at = e.Facet % list.Len()
	}
	return op, at
}

func (e Edit) partModel(d *Doc) {
	p := parts(nil, d)[e.At]
	list := reflect.ValueOf(p.model).Elem()
	field := e.Op
	switch p.what {
	case "example", "xml":
		if m := map[string]map[string]string{"example": exModelField, "xml": xmlModelField}[p.what][e.Op]; m != "" {
			field = m
		}
		list.FieldByName(field).Set(reflect.ValueOf(e.whole(p)).Elem().FieldByName(field))
		return
	case "entry":
		x := p.model.(*DocEntry)
		if e.Op == "Content" {
			x.Include = false
		}
		list.FieldByName(field).Set(reflect.ValueOf(e.whole(p)).Elem().FieldByName(field))
		return
	}
	op, at := e.opOn(list)
	x := e.elem(p)
	if at >= 0 {
		x.Field(0).SetString(keyOf(list, at))
	}
	keep := reflect.MakeSlice(list.Type(), 0, list.Len()+1)
	for i := 0; i < list.Len(); i++ {
		switch {
		case i != at:
			keep = reflect.Append(keep, list.Index(i))
		case op[0] == 'R':
			keep = reflect.Append(keep, x)
		}
	}
	if op == "Put" || op == "ReplaceOrPut" && at < 0 {
		keep = reflect.Append(keep, x)
	}
	if keep.Len() == 0 {
		keep = reflect.Zero(list.Type())
	}
	list.Set(keep)
}

func (e Edit) partReal(b *B, v interface{}, d *Doc) {
	p := parts(func() interface{} { return v }, d)[e.At]
	o := p.real()
	if isNilI(o) {
		panic(fmt.Errorf("a part of the document cannot be reached: %s", p.what))
	}
	switch p.what {
	case "example":
		b.applyEx(o.(raml.Example), p.kind, e.whole(p).(*Ex), e.Op)
		return
	case "xml":
		b.applyXML(o, e.whole(p).(*Xml), e.Op)
		return
	case "entry":
		b.set(o, e.Op, reflect.ValueOf(e.whole(p)).Elem().FieldByName(e.Op).String())
		return
	}
	list := reflect.ValueOf(p.model).Elem()
	op, at := e.opOn(list)
	var key interface{} = e.Key
	if at >= 0 {
		key = reflect.ValueOf(call(o, "At", at)).FieldByName("Key").Interface()
	}
	if op == "Delete" {
		call(o, op, key)
		return
	}
	var val interface{}
	switch x := e.elem(p).Interface().(type) {
	case KY:
		val = b.val(x.Val)
	case KS:
		val = x.Val
	case Ann:
		val = b.newMap("UntypedMap", b.kvsOf(x.Fields))
	case Facet:
		val = b.newMap("DataTypeMap", b.namedKVs(x.Types))
	case Named:
		val = b.td(x.Type)
	case NamedEx:
		val = b.example(p.kind, x.Ex)
	}
	call(o, op, key, val)
}
