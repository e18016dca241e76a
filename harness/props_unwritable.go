package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// C23: values that cannot be written.

// UnwCase is a document, a place in it and a value for that place that has no YAML
// form; or a map and such a value in it.
type UnwCase struct {
	MadeCase
	Class string   `json:",omitempty"` // of a map, if it is one
	Sort  string   // of value
	Nest  []string // what it is in
	What  string   // entry, value or the name of a facet
	At    int      // which of the places
	Key   string   `json:",omitempty"` // of a new entry
	Entry int      // the entry that is replaced, or -1
	How   []uint8
}

var errUnwritable = errors.New("no YAML form")

type failing struct{}

func (failing) ToYAML() (*yaml.Node, error)       { return nil, errUnwritable }
func (failing) MarshalYAML() (interface{}, error) { return nil, errUnwritable }
func (failing) MarshalJSON() ([]byte, error)      { return nil, errUnwritable }

var badSorts = []string{"chan", "func", "complex", "failing"}
var badNests = []string{"list", "map", "AnyMap", "UntypedMap", "unordered"}

func badValueOf(sort string, nest []string) (v interface{}) {
	switch sort {
	case "chan":
		v = make(chan int)
	case "func":
		v = func() {}
	case "complex":
		v = complex(1, 2)
	default:
		v = failing{}
	}
	for _, n := range nest {
		switch n {
		case "list":
			v = []interface{}{"x", v, 1}
		case "map":
			v = map[string]interface{}{"k": v}
		case "AnyMap":
			v = raml.NewAnyMap(2).Put("a", 1).Put("k", v)
		case "unordered":
			v = raml.NewAnyMap(2).SerializeOrdered(false).Put("a", 1).Put("k", v)
		default:
			v = raml.NewUntypedMap(2).Put("k", v).Put("z", nil)
		}
	}
	return
}

const marker = "<unwritable>"

// badPlace is where a value without a YAML form can be put.
type badPlace struct {
	what string // entry, value, or the name of a facet
	p    part   // for entry and value
	t    *TD    // for facets
	i    int    // its number among the types
}

func badPlaces(v func() interface{}, d *Doc) (out []badPlace) {
	for _, p := range parts(v, d) {
		switch p.model.(type) {
		case *[]KY:
			out = append(out, badPlace{what: "entry", p: p})
		case *Ex:
			if c := vClass(p.kind); c == "any" || c == "list" {
				out = append(out, badPlace{what: "value", p: p})
			}
		}
	}
	for i, t := range editable(d) {
		if !isExt(t.Kind) {
			continue
		}
		var fs []string
		if c := vClass(t.Kind); c == "any" || c == "list" {
			fs = append(fs, "Default", "Enum")
		}
		if t.Kind == kObj {
			fs = append(fs, "DiscriminatorValue")
		}
		for _, f := range fs {
			out = append(out, badPlace{what: f, t: t, i: i})
		}
	}
	return
}

func genUnwritable(t *rapid.T) *UnwCase {
	c := &UnwCase{}
	var g *G
	if coin.Draw(t, "map") && coin.Draw(t, "map") {
		g = newG(t)
		c.Class = mapClasses[g.even(len(mapClasses))]
		c.At = g.even(8)
	} else {
		c.MadeCase = *genMade(t, pick(newG(t), []string{"", "kind", "example", "opaque"}), 0)
		g = newG(t)
		g.budget = 3
		ps := badPlaces(nil, c.Model)
		// What it is is more important than where.
		var sorts []string
		at := map[string][]int{}
		for i, p := range ps {
			k := p.what + p.p.what
			if at[k] == nil {
				sorts = append(sorts, k)
			}
			at[k] = append(at[k], i)
		}
		c.At = pick(g, at[sorts[g.even(len(sorts))]])
		p := ps[c.At]
		c.What, c.Entry = p.what, -1
		if p.what == "entry" {
			c.Key, _ = g.partElem(p.p)
			if n := len(*p.p.model.(*[]KY)); n > 0 && g.coin() {
				c.Entry = g.n(n)
			}
		}
	}
	c.Sort = badSorts[g.even(len(badSorts))]
	for g.p(3) && len(c.Nest) < 3 {
		c.Nest = append(c.Nest, pick(g, badNests))
	}
	c.How = choiceGen.Draw(t, "how")
	return c
}

// markModel puts the marker into the model where the value goes.
func (c *UnwCase) markModel(d *Doc) {
	p := badPlaces(nil, d)[c.At]
	y := yStr(marker)
	switch p.what {
	case "entry":
		l := p.p.model.(*[]KY)
		if c.Entry >= 0 {
			(*l)[c.Entry].Val = y
		} else {
			*l = append(*l, KY{c.Key, y})
		}
	case "value":
		p.p.model.(*Ex).Value = y
	case "Default":
		p.t.Default = y
	case "Enum":
		p.t.Enum = []*Y{y}
	case "DiscriminatorValue":
		p.t.DiscrimVal = y
	}
}

// rendering is the text of a type and whether there is one.
type rendering struct {
	text string
	err  error
}

func renderTypes(v interface{}, d *Doc) (out []rendering) {
	eachType(typesOf(v), d.Types, func(dt raml.DataType, t *TD) {
		text, err := dt.ToRAML()
		out = append(out, rendering{text, err})
	})
	return
}

func checkUnwritable(c *UnwCase, s *Stats) error {
	if c.Class != "" {
		return checkUnwritableMap(c, s)
	}
	if !c.ok() {
		return s.skip()
	}
	s.interesting()
	s.class("at:%s", c.What)
	s.class("value:%s", c.Sort)
	v, err := c.make()
	if err != nil {
		return err
	}
	before, err := write(v)
	if err != nil {
		return fmt.Errorf("write: %w", err)
	}
	types := renderTypes(v, c.Model)
	for _, r := range types {
		if r.err != nil {
			return fmt.Errorf("ToRAML: %w", r.err)
		}
	}
	marked := clone(c.Model)
	c.markModel(marked)
	var has []bool
	marked.eachTD(func(t *TD) {
		b, _ := json.Marshal(t)
		has = append(has, strings.Contains(string(b), `\u003cunwritable\u003e`))
	})
	if len(has) != len(types) {
		return fmt.Errorf("%d types can be reached, want %d", len(types), len(has))
	}
	p := badPlaces(func() interface{} { return v }, c.Model)[c.At]
	bad := badValueOf(c.Sort, c.Nest)
	b := &B{choices: c.How}
	undo, exact := c.put(b, v, p, bad)
	for i := 0; i < 2; i++ {
		var w bytes.Buffer
		if c.Model.Lib {
			err = v.(raml.Library).WriteRAML(&w)
		} else {
			err = v.(raml.APISpec).WriteRAML(&w)
		}
		if err == nil {
			return fmt.Errorf("a document with a %s at %s was written without an error:\n%s", c.Sort, c.where(), short(w.String()))
		}
		for _, l := range strings.Split(w.String(), "\n") {
			if l != "" && l != "---" && l[0] != '#' {
				return fmt.Errorf("a document with a %s at %s was written in part:\n%s", c.Sort, c.where(), short(w.String()))
			}
		}
		if _, err := yaml.Marshal(v); err == nil {
			return fmt.Errorf("yaml.Marshal of a document with a %s at %s reports no error", c.Sort, c.where())
		}
	}
	for i, r := range renderTypes(v, c.Model) {
		switch {
		case has[i] && r.err == nil:
			return fmt.Errorf("a type with a %s at %s was rendered without an error:\n%s", c.Sort, c.where(), r.text)
		case has[i] && r.text != "":
			return fmt.Errorf("a type with a %s at %s was rendered with an error and a text:\n%s", c.Sort, c.where(), r.text)
		case !has[i] && r != types[i]:
			return fmt.Errorf("a %s at %s of another type changed a rendering: %q (%v), want %q", c.Sort, c.where(), r.text, r.err,
				types[i].text)
		}
	}
	// Without the value all is as it was.
	undo()
	after, err := write(v)
	if err != nil {
		return fmt.Errorf("once a %s at %s was taken away: %w", c.Sort, c.where(), err)
	}
	if exact {
		if before != after {
			return fmt.Errorf("once a %s at %s was taken away, the document is written differently: %s", c.Sort, c.where(),
				textDiff(before, after))
		}
	} else if err := judgeOutput(c.Model, after); err != nil {
		return fmt.Errorf("once a %s at %s was taken away: %w", c.Sort, c.where(), err)
	}
	return nil
}

func (c *UnwCase) where() string {
	p := badPlaces(nil, c.Model)[c.At]
	if p.what == "entry" || p.what == "value" {
		return p.p.what
	}
	return p.what + " of kind " + p.t.Kind
}

// put puts the value to its place.  It returns what takes it away, and whether that
// makes the document what it was to the last detail.
func (c *UnwCase) put(b *B, v interface{}, p badPlace, bad interface{}) (undo func(), exact bool) {
	switch p.what {
	case "entry":
		m := p.p.real()
		if c.Entry < 0 {
			call(m, "Put", c.Key, bad)
			return func() { call(m, "Delete", c.Key) }, true
		}
		e := reflect.ValueOf(call(m, "At", c.Entry))
		key, old := e.FieldByName("Key").Interface(), e.FieldByName("Val").Interface()
		call(m, "ReplaceIfExists", key, bad)
		return func() { call(m, "ReplaceOrPut", key, old) }, true
	case "value":
		x := p.p.real().(raml.Example)
		if vClass(p.p.kind) == "list" {
			bad = []interface{}{nil, bad}
		}
		call(x, "SetValue", bad)
		return func() { b.applyEx(x, p.p.kind, p.p.model.(*Ex), "Value") }, false
	}
	var dt raml.DataType
	i := 0
	eachType(typesOf(v), c.Model.Types, func(x raml.DataType, _ *TD) {
		if i == p.i {
			dt = x
		}
		i++
	})
	switch {
	case p.what == "Enum":
		call(dt, "SetEnum", []interface{}{bad})
	case p.what == "Default" && vClass(p.t.Kind) == "list":
		call(dt, "SetDefault", []interface{}{bad})
	default:
		call(dt, "Set"+p.what, bad)
	}
	return func() { b.apply(dt, p.t, p.what) }, false
}

// checkUnwritableMap puts a value without a YAML form into a map of any class.
func checkUnwritableMap(c *UnwCase, s *Stats) error {
	class := c.Class
	if class == "StringMap" {
		return s.skip()
	}
	s.interesting()
	s.class("in:%s", class)
	m := mapMakers[class](c.At % 3)
	bad := badValueOf(c.Sort, c.Nest)
	vals := []interface{}{"x", nil, 1, []interface{}{true}}
	if !plainClass(class) {
		vals = heldVals(&MapCase{Class: class})
	}
	var held interface{}
	switch {
	case plainClass(class):
		held = bad
	case class == "AnnotationMap":
		held = raml.NewUntypedMap(1).Put("k", bad)
	case class == "FacetMap" || class == "DataTypeMap" || class == "PropertyMap":
		dt := parseOne(yStr([]string{kStr, kObj, "Foo", kNil, kArray}[c.At%5]).toNode())
		dt.ExtraFacets().Put("k", bad)
		held = dt
		if class == "FacetMap" {
			held = raml.NewDataTypeMap(1).SerializeOrdered(c.At%2 == 0).Put("k", dt)
		}
	default:
		ex := newExample(heldKind[class])
		ex.ExtraFacets().Put("k", bad)
		held = ex
	}
	at := c.At % 4
	for _, ordered := range []bool{true, false} {
		call(m, "SerializeOrdered", ordered)
		clearMap(m)
		for i := 0; i < 4; i++ {
			if i == at {
				call(m, "Put", "bad", held)
			}
			call(m, "Put", fmt.Sprint("k", i), vals[i%len(vals)])
		}
		if n, err := call2(m, "ToYAML"); err == nil {
			return fmt.Errorf("ToYAML of a %s with a %s reports no error", class, c.Sort)
		} else if !isNilI(n) {
			return fmt.Errorf("ToYAML of a %s with a %s returns a node with the error", class, c.Sort)
		}
		if out, err := yaml.Marshal(m); err == nil {
			return fmt.Errorf("yaml.Marshal of a %s with a %s reports no error: %s", class, c.Sort, out)
		}
		if plainClass(class) || class == "AnnotationMap" {
			if out, err := json.Marshal(m); err == nil {
				return fmt.Errorf("json.Marshal of a %s with a %s reports no error: %s", class, c.Sort, out)
			}
		}
		if n := call(m, "Len").(int); n != 5 {
			return fmt.Errorf("a %s has %d entries after it could not be written, want 5", class, n)
		}
		call(m, "Delete", "bad")
		if _, err := call2(m, "ToYAML"); err != nil {
			return fmt.Errorf("ToYAML of a %s once a %s was taken away: %w", class, c.Sort, err)
		}
		if _, err := yaml.Marshal(m); err != nil {
			return fmt.Errorf("yaml.Marshal of a %s once a %s was taken away: %w", class, c.Sort, err)
		}
	}
	return nil
}

// call2 calls a method with a result and an error.
func call2(v interface{}, name string) (interface{}, error) {
	out := reflect.ValueOf(v).MethodByName(name).Call(nil)
	err, _ := out[1].Interface().(error)
	return out[0].Interface(), err
}

func init() {
	register("C23", "a case is a document or a map, and a value without a YAML form that is put into it somewhere; it is "+
		"non-trivial when the value can be put there", genUnwritable, checkUnwritable)
}
