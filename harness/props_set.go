package harness

import (
	"encoding/json"
	"fmt"
	"reflect"

	"gopkg.in/yaml.v3"

	"pgregory.net/rapid"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// SetCase is a history of setter calls on two objects of one sort.
type SetCase struct {
	Sort    string // type, example, xml, documentation, document
	Kind    string `json:",omitempty"` // of the type or example
	TDs     []*TD  `json:",omitempty"` // what facets are set to
	Exs     []*Ex  `json:",omitempty"`
	Xmls    []*Xml `json:",omitempty"`
	Entries []DocEntry
	Docs    []*Doc `json:",omitempty"`
	Steps   []SetStep
	Choices []uint8
}

type SetStep struct {
	Facet string
	On    int `json:",omitempty"` // which of the two objects
	From  int `json:",omitempty"` // which model; 0 is the object without any facets
}

func (c *SetCase) facets() []string {
	switch c.Sort {
	case "type":
		if !isExt(c.Kind) {
			return []string{"ExtraFacets", "Type"}
		}
		return append(tdFields(c.Kind), "Type")
	case "example":
		return []string{"DisplayName", "Description", "Value", "Strict", "Annotations", "ExtraFacets"}
	case "xml":
		return []string{"IsAttribute", "IsWrapped", "Name", "Namespace", "Prefix"}
	case "documentation":
		return []string{"Title", "Content", "ExtraFacets"}
	}
	return docFields(c.Docs[0].Lib)
}

const nModels = 3

func genSet(t *rapid.T) *SetCase {
	g := newG(t)
	g.budget = 6
	g.focus = pick(g, []string{"", "kind", "value", "example", "ann", "extra"})
	c := &SetCase{Sort: pick(g, []string{"document", "type", "type", "type", "example", "example", "xml", "documentation"})}
	for i := 0; i < nModels; i++ {
		switch c.Sort {
		case "type":
			if i == 0 {
				c.Kind = spreadKinds[g.even(len(spreadKinds))]
				c.TDs = append(c.TDs, &TD{Kind: c.Kind, Schema: schemaOf(c.Kind)})
				continue
			}
			t := visibleTD(g.tdOf(c.Kind, 2))
			for k := 3 * g.n(2); k > 0; k-- {
				fillIn(t, visibleTD(g.tdOf(c.Kind, 1)))
			}
			t.Schema = pick(g, []string{"Foo", "a | b", "string", g.str(), schemaOf(c.Kind)})
			c.TDs = append(c.TDs, t)
		case "example":
			if i == 0 {
				c.Kind = pick(g, extKinds)
				c.Exs = append(c.Exs, &Ex{})
				continue
			}
			c.Exs = append(c.Exs, g.example(c.Kind))
		case "xml":
			x := &Xml{}
			if i > 0 {
				x = g.xml()
				x.Extra = nil
			}
			c.Xmls = append(c.Xmls, x)
		case "documentation":
			e := DocEntry{}
			if i > 0 {
				e = DocEntry{Title: g.str(), Content: g.str(), Extra: g.extras(docKeys, "", 2)}
			}
			c.Entries = append(c.Entries, e)
		default:
			if i == 0 {
				c.Docs = append(c.Docs, &Doc{Lib: g.coin()})
				continue
			}
			c.Docs = append(c.Docs, buildable(g.doc(c.Docs[0].Lib)))
		}
	}
	fs := c.facets()
	if g.coin() && len(fs) > 3 {
		// a few facets, again and again
		var few []string
		for i := 1 + bit(g.coin()) + bit(g.coin()); i > 0; i-- {
			few = append(few, fs[g.even(len(fs))])
		}
		fs = few
	}
	for i, n := 0, 1+g.n(10)+g.n(10)+g.n(10); i < n; i++ {
		st := SetStep{Facet: fs[g.even(len(fs))], From: pick(g, []int{0, 1, 2, 1, 2})}
		if g.p(3) {
			st.On = 1
		}
		c.Steps = append(c.Steps, st)
	}
	c.Choices = choiceGen.Draw(t, "choices")
	return c
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

// fillIn takes facets that a type does not have from another of the same kind.
func fillIn(dst, src *TD) {
	if !isExt(dst.Kind) {
		return
	}
	for _, f := range tdFields(dst.Kind) {
		m := f
		if modelField[f] != "" {
			m = modelField[f]
		}
		if v := reflect.ValueOf(dst).Elem().FieldByName(m); v.IsZero() {
			copyField(dst, src, f)
		}
	}
}

// setTarget is one object together with what it should say.
type setTarget struct {
	obj  interface{}
	td   *TD
	ex   *Ex
	xml  *Xml
	ent  *DocEntry
	doc  *Doc
	kind string
}

func (c *SetCase) target() *setTarget {
	t := &setTarget{kind: c.Kind}
	switch c.Sort {
	case "type":
		t.td = clone(c.TDs[0])
		schema := yStr(schemaOf(c.Kind))
		if c.Kind == kInc {
			schema.T = "!include"
		}
		t.obj = parseOne(schema.toNode())
	case "example":
		t.ex = &Ex{}
		t.obj = newExample(c.Kind)
	case "xml":
		t.xml = &Xml{}
		t.obj = newXML()
	case "documentation":
		t.ent = &DocEntry{}
		t.obj = newDocumentation()
	default:
		t.doc = clone(c.Docs[0])
		t.obj = newDoc(t.doc.Lib)
	}
	return t
}

// apply makes a facet what it is in a model of the case.
func (t *setTarget) apply(b *B, c *SetCase, st SetStep) {
	switch c.Sort {
	case "type":
		src := c.TDs[st.From]
		if st.Facet == "Type" {
			if b.n(2) == 0 && hasMethod(t.obj, "SetType") {
				b.set(t.obj, "Type", src.Schema)
			} else {
				call(t.obj, "OverrideType", src.Schema)
			}
			t.td.Schema = src.Schema
			return
		}
		b.apply(t.obj.(raml.DataType), src, st.Facet)
		copyField(t.td, src, st.Facet)
	case "example":
		src := c.Exs[st.From]
		b.applyEx(t.obj.(raml.Example), t.kind, src, st.Facet)
		switch st.Facet {
		case "DisplayName":
			t.ex.DisplayName = src.DisplayName
		case "Description":
			t.ex.Description = src.Description
		case "Value":
			t.ex.Value = src.Value
		case "Strict":
			t.ex.Lenient = src.Lenient
		case "Annotations":
			t.ex.Anns = src.Anns
		case "ExtraFacets":
			t.ex.Extra = src.Extra
		}
	case "xml":
		src := c.Xmls[st.From]
		str := func(dst **string, v *string) {
			b.optStr(t.obj, st.Facet, v)
			*dst = v
		}
		boo := func(dst **bool, v *bool) {
			b.opt(t.obj, st.Facet, v != nil, func() interface{} { return *v })
			*dst = v
		}
		switch st.Facet {
		case "IsAttribute":
			boo(&t.xml.Attribute, src.Attribute)
		case "IsWrapped":
			boo(&t.xml.Wrapped, src.Wrapped)
		case "Name":
			str(&t.xml.Name, src.Name)
		case "Namespace":
			str(&t.xml.Namespace, src.Namespace)
		case "Prefix":
			str(&t.xml.Prefix, src.Prefix)
		}
	case "documentation":
		src := c.Entries[st.From]
		switch st.Facet {
		case "Title":
			b.set(t.obj, "Title", src.Title)
			t.ent.Title = src.Title
		case "Content":
			b.set(t.obj, "Content", src.Content)
			t.ent.Content = src.Content
		case "ExtraFacets":
			b.setMap(t.obj, "ExtraFacets", "AnyMap", b.kvsOf(src.Extra))
			t.ent.Extra = src.Extra
		}
	default:
		b.applyDoc(t.obj, c.Docs[st.From], st.Facet)
		copyDocField(t.doc, c.Docs[st.From], st.Facet)
	}
}

// agree compares all accessors with what the object should say.
func (t *setTarget) agree(c *SetCase) error {
	o := &obs{}
	var want, got interface{}
	switch c.Sort {
	case "type":
		want, got = t.td, o.td(t.obj.(raml.DataType), 0)
	case "example":
		want, got = t.ex, o.example(t.kind, t.obj.(raml.Example))
	case "xml":
		want, got = t.xml, o.xml(t.obj.(raml.XML))
	case "documentation":
		x := t.obj.(raml.Documentation)
		want, got = t.ent, &DocEntry{Title: x.Title(), Content: x.Content(), Extra: o.kys(x.ExtraFacets())}
	default:
		d, err := observeDoc(t.obj)
		if err != nil {
			return err
		}
		want, got = t.doc, d
	}
	if len(o.errs) > 0 {
		return fmt.Errorf("inconsistent accessors: %v", o.errs)
	}
	if m := diff(want, got); m != "" {
		return fmt.Errorf("%s", m)
	}
	return nil
}

func checkSet(c *SetCase, s *Stats) error {
	name := c.Sort
	if c.Kind != "" {
		name += ":" + c.Kind
	}
	s.class("%s", name)
	b := &B{choices: c.Choices}
	ts := []*setTarget{c.target(), c.target()}
	unset := false
	set := map[string]bool{}
	for i, st := range c.Steps {
		k := fmt.Sprint(st.On, st.Facet)
		if st.From == 0 && set[k] {
			unset = true
		}
		set[k] = st.From != 0
		b.keepLists(ts[st.On].obj)
		ts[st.On].apply(b, c, st)
		for j, t := range ts {
			if err := t.agree(c); err != nil {
				return fmt.Errorf("%s: object %d after step %d (%v): %w", name, j, i, st, err)
			}
		}
		if err := b.untouched(); err != nil {
			return fmt.Errorf("%s, after step %d (%v): %w", name, i, st, err)
		}
		if b.n(4) == 3 {
			// Rendering an object now and then makes no difference.
			_, _ = yaml.Marshal(ts[st.On].obj)
		}
	}
	s.add("setter steps", len(c.Steps))
	if unset {
		s.class("a facet was set and unset")
	}
	if len(set) > 1 {
		s.interesting()
	}
	return nil
}

// ---- C19: edits of a document

// EditCase is a document and a history of edits to parts of it.
type EditCase struct {
	MadeCase
	Sources []*TD  // facets come from these, by kind
	Exs     []*Ex  `json:",omitempty"`
	Docs    []*Doc // sections come from these
	Edits   []Edit
	How     []uint8
}

type Edit struct {
	What  string // section, facet, put, delete, part
	At    int    // which of the places
	Facet int
	From  int
	Key   string `json:",omitempty"`
	// the change of a part, and what it puts there
	Op   string          `json:",omitempty"`
	Elem json.RawMessage `json:",omitempty"`
}

func genEdit(t *rapid.T) *EditCase {
	g := newG(t)
	g.budget = 9
	c := &EditCase{}
	d := g.doc(g.coin())
	if g.coin() {
		g.budget = 6
		g.enlarge(d)
	}
	if g.p(3) {
		c.Model = buildable(d)
		c.Choices = choiceGen.Draw(t, "choices")
	} else {
		c.Model = d
		c.Text = R{G: g}.text(d)
	}
	g.budget = 30
	g.focus = pick(g, []string{"", "kind", "value", "example"})
	for i, n := 0, 1+g.n(4); i < n; i++ {
		e := Edit{What: pick(g, []string{"facet", "facet", "facet", "section", "part", "part", "part", "put", "delete"}),
			At: rapid.IntRange(0, 1000).Draw(t, "at"), Facet: g.n(200), Key: g.name(map[string]bool{}, nil)}
		c.Edits = append(c.Edits, e)
	}
	// Where the edits are decides which sources they need.
	cur := clone(c.Model)
	for i := range c.Edits {
		e := &c.Edits[i]
		switch e.What {
		case "part":
			g.budget = 4
			*e = g.genPartEdit(cur)
		case "section":
			e.From = len(c.Docs)
			g.budget = 4
			c.Docs = append(c.Docs, buildable(g.doc(c.Model.Lib)))
		default:
			ts := editable(cur)
			if len(ts) == 0 {
				continue
			}
			at := ts[e.At%len(ts)]
			e.From = len(c.Sources)
			g.budget = 4
			src := visibleTD(g.tdOf(at.Kind, 1))
			if e.What == "put" {
				src = visibleTD(g.td(1))
			}
			c.Sources = append(c.Sources, src)
		}
		c.editModel(cur, *e)
	}
	c.How = choiceGen.Draw(t, "how")
	return c
}

// editable lists the types of a document in a fixed order.
func editable(d *Doc) (out []*TD) {
	d.eachTD(func(t *TD) { out = append(out, t) })
	return
}

func (c *EditCase) sectionOf(e Edit) string {
	fs := docFields(c.Model.Lib)
	return fs[e.Facet%len(fs)]
}

func facetOf(t *TD, e Edit) string {
	if !isExt(t.Kind) {
		return "ExtraFacets"
	}
	fs := tdFields(t.Kind)
	return fs[e.Facet%len(fs)]
}

// editModel edits the model; it tells which type it edits.
func (c *EditCase) editModel(d *Doc, e Edit) {
	if e.What == "part" {
		e.partModel(d)
		return
	}
	if e.What == "section" {
		copyDocField(d, clone(c.Docs[e.From]), c.sectionOf(e))
		return
	}
	ts := editable(d)
	if len(ts) == 0 {
		return
	}
	at := ts[e.At%len(ts)]
	switch e.What {
	case "facet":
		copyField(at, clone(c.Sources[e.From]), facetOf(at, e))
	case "put":
		if at.Kind == kObj {
			at.Properties = putNamed(at.Properties, Named{e.Key, clone(c.Sources[e.From])})
		} else {
			d.Types = putNamed(d.Types, Named{e.Key, clone(c.Sources[e.From])})
		}
	case "delete":
		if at.Kind == kObj && len(at.Properties) > 0 {
			i := e.Facet % len(at.Properties)
			at.Properties = append(append([]Named{}, at.Properties[:i]...), at.Properties[i+1:]...)
		} else if len(d.Types) > 0 {
			i := e.Facet % len(d.Types)
			d.Types = append(append([]Named{}, d.Types[:i]...), d.Types[i+1:]...)
		}
	}
}

func putNamed(ts []Named, n Named) []Named {
	var out []Named
	for _, t := range ts {
		if t.Name != n.Name {
			out = append(out, t)
		}
	}
	return append(out, n)
}

// editReal does the same to the document.
func (c *EditCase) editReal(b *B, v interface{}, d *Doc, e Edit) {
	if e.What == "part" {
		e.partReal(b, v, d)
		return
	}
	if e.What == "section" {
		b.applyDoc(v, c.Docs[e.From], c.sectionOf(e))
		return
	}
	var models []*TD
	var objs []raml.DataType
	eachType(typesOf(v), d.Types, func(dt raml.DataType, t *TD) {
		objs, models = append(objs, dt), append(models, t)
	})
	ts := editable(d)
	if len(ts) == 0 {
		return
	}
	at := ts[e.At%len(ts)]
	var obj raml.DataType
	for i := range models {
		if models[i] == at {
			obj = objs[i]
		}
	}
	if obj == nil {
		panic(fmt.Errorf("a type of the document cannot be reached"))
	}
	switch e.What {
	case "facet":
		b.apply(obj, c.Sources[e.From], facetOf(at, e))
	case "put":
		var m interface{} = typesOf(v)
		if at.Kind == kObj {
			m = call(obj, "Properties")
		}
		call(m, "Put", e.Key, b.td(c.Sources[e.From]))
	case "delete":
		if at.Kind == kObj && len(at.Properties) > 0 {
			call(call(obj, "Properties"), "Delete", at.Properties[e.Facet%len(at.Properties)].Name)
		} else if len(d.Types) > 0 {
			call(typesOf(v), "Delete", d.Types[e.Facet%len(d.Types)].Name)
		}
	}
}

func checkEdit(c *EditCase, s *Stats) error {
	final := clone(c.Model)
	for _, e := range c.Edits {
		c.editModel(final, e)
	}
	if !c.ok() || !carried(final) {
		return s.skip()
	}
	c.describe(s)
	v, err := c.make()
	if err != nil {
		return err
	}
	b := &B{choices: c.How}
	cur := clone(c.Model)
	// Writing a document between edits makes no difference.
	between := func() error {
		if b.n(3) == 0 {
			return nil
		}
		s.add("written between edits", 1)
		out, err := write(v)
		if err != nil {
			return fmt.Errorf("a document cannot be written: %w", err)
		}
		return judgeOutput(cur, out)
	}
	if err := between(); err != nil {
		return err
	}
	for i, e := range c.Edits {
		s.class("edit:%s", e.What)
		if e.What == "part" {
			s.class("edit:part:%s", parts(nil, cur)[e.At].what)
		}
		c.editReal(b, v, cur, e)
		c.editModel(cur, e)
		cur = clone(cur)
		got, err := observeDoc(v)
		if err != nil {
			return err
		}
		if m := diff(visible(cur), got); m != "" {
			return fmt.Errorf("after edit %d (%v): %s", i, e, m)
		}
		if i < len(c.Edits)-1 && carried(cur) {
			if err := between(); err != nil {
				return fmt.Errorf("after edit %d (%v): %w", i, e, err)
			}
		}
	}
	if err := b.untouched(); err != nil {
		return err
	}
	out, err := write(v)
	if err != nil {
		return fmt.Errorf("an edited document cannot be written: %w", err)
	}
	if err := judgeOutput(cur, out); err != nil {
		return err
	}
	_, back, err := parseObs(out, cur.Lib)
	if err != nil {
		return fmt.Errorf("reading back an edited document: %w\n%s", err, out)
	}
	if m := diff(visible(cur), back); m != "" {
		return fmt.Errorf("an edited document changed by writing and reading back: %s\n%s", m, out)
	}
	return nil
}

func init() {
	register("C12", "a case is a history of setter calls on two objects of one sort; it is non-trivial when it touches at "+
		"least two facets", genSet, checkSet)
	register("C19", madeRule+"; it is then edited", genEdit, checkEdit)
}
