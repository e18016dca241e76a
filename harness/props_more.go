package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"unicode/utf16"

	"pgregory.net/rapid"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// checkWhole follows a document all the way: the accessors report it, the output
// says it, and what is read back from there reports it again.
func checkWhole(c *MadeCase, s *Stats) error {
	if !c.ok() {
		return s.skip()
	}
	c.describe(s)
	v, err := c.make()
	if err != nil {
		return err
	}
	got, err := observeDoc(v)
	if err != nil {
		return err
	}
	if m := diff(visible(c.Model), got); m != "" {
		return fmt.Errorf("the accessors do not report the document: %s", m)
	}
	out, err := write(v)
	if err != nil {
		return fmt.Errorf("write: %w", err)
	}
	if err := judgeOutput(c.Model, out); err != nil {
		return err
	}
	_, back, err := parseObs(out, c.Model.Lib)
	if err != nil {
		return fmt.Errorf("reading back what was written: %w\n%s", err, out)
	}
	if m := diff(visible(c.Model), back); m != "" {
		return fmt.Errorf("changed by writing and reading back: %s\n%s", m, out)
	}
	return nil
}

// genDense makes a document with many facets of some sort.
func genDense(focuses ...string) func(t *rapid.T) *MadeCase {
	return func(t *rapid.T) *MadeCase {
		g := newG(t)
		g.focus = pick(g, focuses)
		g.budget = 6
		c := &MadeCase{}
		d := g.doc(g.coin())
		if g.p(3) {
			c.Model = buildable(d)
			c.Choices = choiceGen.Draw(t, "choices")
		} else {
			c.Model = d
			c.Text = R{G: g}.text(d)
		}
		return c
	}
}

// ---- C15: forms of examples, C17: spellings, C22: defaults

// SpellCase is a document in several spellings.
type SpellCase struct {
	Model *Doc
	Texts []string
	Raw   [][]byte `json:",omitempty"` // variants of the bytes of the texts
}

func genExamples(t *rapid.T) *SpellCase {
	g := newG(t)
	g.focus = "example"
	g.budget = 5
	d := &Doc{Lib: true}
	used := map[string]bool{}
	for i, n := 0, 1+g.n(4); i < n; i++ {
		d.Types = append(d.Types, Named{g.name(used, nil), g.td(1)})
	}
	d.eachTD(func(t *TD) {
		if g.coin() {
			// bare examples have two forms
			bare := func(x *Ex) {
				if x != nil && g.coin() {
					*x = Ex{Value: x.Value}
				}
			}
			bare(t.Example)
			for _, x := range t.Examples {
				bare(x.Ex)
			}
		}
	})
	c := &SpellCase{Model: d}
	for _, f := range []choice{always, never, sometimes} {
		c.Texts = append(c.Texts, R{G: g, short: f}.text(d))
	}
	return c
}

func genSpell(t *rapid.T) *SpellCase {
	g := newG(t)
	g.budget = 8
	d := g.doc(g.coin())
	c := &SpellCase{Model: d}
	r := R{G: g}
	for i := 0; i < 3; i++ {
		c.Texts = append(c.Texts, r.text(d))
	}
	for i := range c.Texts {
		if c.Texts[i] != "" {
			c.Raw = append(c.Raw, g.bytesOf(c.Texts[i]))
		}
	}
	return c
}

// bytesOf chooses another sequence of bytes that means the same to the YAML
// library.
func (g *G) bytesOf(text string) []byte {
	for k := 1 + g.n(2); k > 0; k-- {
		switch g.n(8) {
		case 0:
			text = strings.ReplaceAll(text, "\n", "\r\n")
		case 1:
			text += pick(g, []string{"...\n", "\n\n", "# end\n", "   \n", "---\nsecond: document\n", "...\n---\nx: [\n"})
		case 2:
			head, rest, _ := strings.Cut(text, "\n")
			text = head + "\n" + pick(g, []string{"\n\n", "# comment\n", "   # comment\n", "---\n", "--- # c\n"}) + rest
		case 3: // comments
			lines := strings.Split(text, "\n")
			i := g.n(min(len(lines), 250))
			lines[i] += " # comment"
			text = strings.Join(lines, "\n")
		case 4:
			_, rest, ok := strings.Cut(text, "\n")
			if ok && strings.HasPrefix(text, "#") {
				text = rest
			}
		case 5:
			text = strings.TrimRight(text, "\n")
		case 6: // blank lines
			lines := strings.Split(text, "\n")
			i := g.n(min(len(lines), 250))
			lines[i] += "\n"
			text = strings.Join(lines, "\n")
		case 7: // deeper
			lines := strings.SplitAfter(text, "\n")
			for i := range lines {
				if i > 0 && strings.TrimSpace(lines[i]) != "" && !strings.HasPrefix(lines[i], "---") {
					lines[i] = "  " + lines[i]
				}
			}
			text = strings.Join(lines, "")
		}
	}
	switch g.n(6) {
	case 0:
		return append([]byte("\xef\xbb\xbf"), text...)
	case 1:
		return utf16Of(text, binary.LittleEndian, "\xff\xfe")
	case 2:
		return utf16Of(text, binary.BigEndian, "\xfe\xff")
	}
	return []byte(text)
}

func utf16Of(text string, o binary.ByteOrder, bom string) []byte {
	out := []byte(bom)
	for _, u := range utf16.Encode([]rune(text)) {
		var b [2]byte
		o.PutUint16(b[:], u)
		out = append(out, b[:]...)
	}
	return out
}

// checkSpell reads all spellings.  They have to be the same to the accessors and
// when they are written.
func checkSpell(c *SpellCase, s *Stats) error {
	s.describe(c.Model)
	type reading struct {
		what string
		doc  *Doc
		out  string
		tree *Y
	}
	var all []reading
	add := func(what, text string) error {
		v, d, err := parseObs(text, c.Model.Lib)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		out, err := write(v)
		if err != nil {
			return fmt.Errorf("%s: write: %w", what, err)
		}
		y, ok, err := decodeTree([]byte(out))
		if !ok || err != nil {
			return fmt.Errorf("%s: what was written is not YAML: %v", what, err)
		}
		all = append(all, reading{what, d, out, y})
		return nil
	}
	for i, text := range c.Texts {
		if text == "" {
			continue
		}
		if err := add(fmt.Sprintf("spelling %d", i), text); err != nil {
			return err
		}
		s.add("spellings", 1)
	}
	if len(all) == 0 {
		return s.skip()
	}
	trees := map[string]bool{}
	for _, text := range c.Texts {
		if text != "" {
			y, _, _ := decodeTree([]byte(text))
			trees[y.String()] = true
		}
	}
	for i, raw := range c.Raw {
		y, ok, err := decodeTree(raw)
		if !ok || err != nil || y == nil || !trees[y.String()] {
			s.class("bytes: not the same to the YAML library")
			continue
		}
		if !yamlFaithful(raw, y) {
			continue
		}
		if err := add(fmt.Sprintf("bytes %d", i), string(raw)); err != nil {
			return err
		}
		s.add("variants of bytes", 1)
	}
	for _, x := range all {
		if m := diff(visible(c.Model), x.doc); m != "" {
			return fmt.Errorf("%s: the accessors do not report the document: %s", x.what, m)
		}
	}
	if err := judgeOutput(c.Model, all[0].out); err != nil {
		return err
	}
	for _, x := range all[1:] {
		if !x.tree.equal(all[0].tree) {
			return fmt.Errorf("%s and %s are the same but are written differently: %s", all[0].what, x.what,
				diff(all[0].tree, x.tree))
		}
	}
	return nil
}

func genDefaults(t *rapid.T) *SpellCase {
	g := newG(t)
	g.budget = 8
	g.focus = pick(g, []string{"", "", "example"})
	d := buildable(g.doc(g.coin()))
	d.eachTD(func(t *TD) {
		if g.coin() {
			// most facets are absent
			*t = TD{Kind: t.Kind, Schema: t.Schema, Example: t.Example, Items: t.Items, Properties: t.Properties,
				Facets: t.Facets}
		}
	})
	c := &SpellCase{Model: d}
	c.Texts = append(c.Texts, R{G: g, defaults: never}.text(d), R{G: g, defaults: always}.text(d))
	return c
}

// absentWant is what the accessors report for facets that are absent.
var absentTable = map[string]map[string]interface{}{
	kStr:  {"Pattern": nil, "MinLength": uint(0), "MaxLength": nil},
	kFile: {"FileTypes": 0, "MinLength": uint(0), "MaxLength": uint(2147483647)},
	kInt:  {"Minimum": nil, "Maximum": nil, "MultipleOf": nil, "Format": "nil"},
	kNum:  {"Minimum": nil, "Maximum": nil, "MultipleOf": nil, "Format": "nil"},
	kDt:   {"Format": "nil"},
	kArray: {"UniqueItems": false, "MinItems": uint(0), "MaxItems": uint(2147483647), "Items": "nil",
		"Default": 0},
	kObj: {"Properties": 0, "MinProperties": nil, "MaxProperties": nil, "AdditionalProperties": true,
		"Discriminator": nil, "DiscriminatorValue": nil},
}

var absentExt = map[string]interface{}{"DisplayName": nil, "Description": nil, "Default": nil, "Enum": 0, "Example": "nil",
	"Examples": 0, "Annotations": 0, "FacetDefinitions": 0, "XML": "nil"}

// isAbsent compares what an accessor returns: nil stands for an option without a
// value, "nil" for a nil interface, 0 for something empty that can be used.
func isAbsent(o interface{}, name string, want interface{}) error {
	got := call(o, name)
	switch want {
	case nil:
		if v, ok := optVal(got); ok {
			return fmt.Errorf("%s is absent, but %s() has the value %v", name, name, v)
		}
	case "nil":
		if !isNilI(got) {
			return fmt.Errorf("%s is absent, but %s() returns %v", name, name, got)
		}
	case 0:
		v := reflect.ValueOf(got)
		if v.Kind() == reflect.Slice {
			if v.Len() != 0 {
				return fmt.Errorf("%s is absent, but %s() returns %v", name, name, got)
			}
			return nil
		}
		if isNilI(got) {
			return fmt.Errorf("%s is absent, and %s() returns nil rather than an empty map", name, name)
		}
		if n := call(got, "Len"); n != 0 && n != uint(0) {
			return fmt.Errorf("%s is absent, but %s() has %v entries", name, name, n)
		}
	default:
		if got != want {
			return fmt.Errorf("%s is absent, but %s() is %v, want %v", name, name, got, want)
		}
	}
	return nil
}

// absentTD checks the accessors of a type for facets that its model lacks.
func absentTD(dt raml.DataType, t *TD, s *Stats) error {
	check := func(name string, want interface{}) error {
		f := name
		if m := modelField[name]; m != "" {
			f = m
		}
		if !reflect.ValueOf(t).Elem().FieldByName(f).IsZero() {
			return nil
		}
		s.add("absent facets", 1)
		return isAbsent(dt, name, want)
	}
	err := check("Required", true)
	if err == nil {
		err = check("ExtraFacets", 0)
	}
	if isExt(t.Kind) {
		for k, w := range absentExt {
			if x, ok := absentTable[t.Kind][k]; ok {
				w = x
			}
			if err == nil {
				err = check(k, w)
			}
		}
		for k, w := range absentTable[t.Kind] {
			if err == nil {
				err = check(k, w)
			}
		}
		ex := func(x interface{}, m *Ex) {
			if err != nil || isNilI(x) {
				return
			}
			val := interface{}(nil)
			if t.Kind == kArray {
				val = 0
			}
			for _, f := range []struct {
				name   string
				absent bool
				want   interface{}
			}{{"DisplayName", m.DisplayName == nil, nil}, {"Description", m.Description == nil, nil},
				{"Strict", !m.Lenient, true}, {"Annotations", len(m.Anns) == 0, 0}, {"ExtraFacets", len(m.Extra) == 0, 0},
				{"Value", m.Value == nil, val}} {
				if f.absent && err == nil {
					s.add("absent facets", 1)
					err = isAbsent(x, f.name, f.want)
				}
			}
		}
		if t.Example != nil {
			ex(call(dt, "Example"), t.Example)
		}
		for _, x := range t.Examples {
			ex(call(call(dt, "Examples"), "Get", x.Name), x.Ex)
		}
		if t.XML != nil {
			x := call(dt, "XML")
			for name, absent := range map[string]bool{"IsAttribute": t.XML.Attribute == nil, "IsWrapped": t.XML.Wrapped == nil,
				"Name": t.XML.Name == nil, "Namespace": t.XML.Namespace == nil, "Prefix": t.XML.Prefix == nil} {
				if absent && err == nil {
					s.add("absent facets", 1)
					err = isAbsent(x, name, nil)
				}
			}
		}
	}
	if err != nil {
		return fmt.Errorf("a type of kind %s: %w", t.Kind, err)
	}
	return nil
}

// absentDoc checks the accessors of a document for sections that its model lacks.
func absentDoc(v interface{}, d *Doc, s *Stats) (err error) {
	for _, name := range docFields(d.Lib) {
		f := name
		if m := docModelField[name]; m != "" {
			f = m
		}
		if !reflect.ValueOf(d).Elem().FieldByName(f).IsZero() {
			continue
		}
		var want interface{}
		switch name {
		case "Title":
			want = ""
		case "Usage", "Version", "BaseURI", "Description":
		default:
			want = 0
		}
		s.add("absent facets", 1)
		if err := isAbsent(v, name, want); err != nil {
			return err
		}
	}
	eachType(typesOf(v), d.Types, func(dt raml.DataType, t *TD) {
		if err == nil {
			err = absentTD(dt, t, s)
		}
	})
	return
}

// setDefaults sets the facets that a type lacks to their defaults, and unsets
// those that have none.
func setDefaults(b *B, dt raml.DataType, t *TD) {
	if !isExt(t.Kind) {
		return
	}
	for _, f := range tdFields(t.Kind) {
		m := f
		if x := modelField[f]; x != "" {
			m = x
		}
		if reflect.ValueOf(t).Elem().FieldByName(m).IsZero() {
			b.apply(dt, t, f)
		}
	}
}

func checkDefaults(c *SpellCase, s *Stats) error {
	if c.Texts[0] == "" || c.Texts[1] == "" {
		return s.skip()
	}
	s.describe(c.Model)
	outs := make([]string, 0, 4)
	for i, text := range c.Texts {
		v, got, err := parseObs(text, c.Model.Lib)
		if err != nil {
			return fmt.Errorf("spelling %d: %w", i, err)
		}
		if m := diff(c.Model, got); m != "" {
			return fmt.Errorf("spelling %d: the accessors do not report the document: %s", i, m)
		}
		if err := absentDoc(v, c.Model, s); err != nil {
			return fmt.Errorf("spelling %d: %w", i, err)
		}
		out, err := write(v)
		if err != nil {
			return fmt.Errorf("write: %w", err)
		}
		if err := judgeOutput(c.Model, out); err != nil {
			return fmt.Errorf("spelling %d: %w", i, err)
		}
		outs = append(outs, out)
		b := &B{choices: []uint8{uint8(len(text)), uint8(len(text) / 7), 3, 1, 4}}
		eachType(typesOf(v), c.Model.Types, func(dt raml.DataType, t *TD) { setDefaults(b, dt, t) })
		got, err = observeDoc(v)
		if err != nil {
			return err
		}
		if m := diff(c.Model, got); m != "" {
			return fmt.Errorf("spelling %d: setting absent facets to their defaults changed the document: %s", i, m)
		}
		if err := absentDoc(v, c.Model, s); err != nil {
			return fmt.Errorf("spelling %d, after setting defaults: %w", i, err)
		}
		out2, err := write(v)
		if err != nil {
			return fmt.Errorf("write: %w", err)
		}
		if out2 != out {
			return fmt.Errorf("spelling %d: setting absent facets to their defaults changed the output: %s", i,
				textDiff(out, out2))
		}
	}
	x, _, _ := decodeTree([]byte(outs[0]))
	y, _, _ := decodeTree([]byte(outs[1]))
	if !x.equal(y) {
		return fmt.Errorf("spelled out defaults make a difference: %s", textDiff(outs[0], outs[1]))
	}
	return nil
}

// ---- C18: documents do not influence each other

// ManyCase is several documents and changes to some of them.
type ManyCase struct {
	Docs  []*MadeCase
	Mods  []*Doc // what the first document is changed into
	How   []uint8
	Order []int
}

func genMany(t *rapid.T) *ManyCase {
	g := newG(t)
	c := &ManyCase{}
	for i, n := 0, 2+g.n(2); i < n; i++ {
		g.budget = 5
		m := &MadeCase{}
		d := g.doc(g.coin())
		if g.coin() {
			m.Model = buildable(d)
			m.Choices = choiceGen.Draw(t, "choices")
		} else {
			m.Model = d
			m.Text = R{G: g}.text(d)
		}
		c.Docs = append(c.Docs, m)
	}
	g.budget = 5
	c.Mods = []*Doc{buildable(g.doc(c.Docs[0].Model.Lib))}
	c.How = choiceGen.Draw(t, "how")
	return c
}

// scribble changes everything about a document that can be changed.
func scribble(b *B, v interface{}, model, into *Doc) {
	eachType(typesOf(v), model.Types, func(dt raml.DataType, t *TD) {
		scribbleMap(dt.ExtraFacets())
		if !isExt(t.Kind) {
			return
		}
		for _, m := range []string{"Examples", "FacetDefinitions", "Annotations", "Properties"} {
			if hasMethod(dt, m) {
				scribbleMap(call(dt, m))
			}
		}
		for _, f := range tdFields(t.Kind) {
			if f == "Items" || f == "Properties" || f == "FacetDefinitions" {
				continue // the walk still needs them
			}
			b.apply(dt, &TD{Kind: t.Kind, Optional: true, Closed: true, UniqueItems: true}, f)
		}
	})
	for _, m := range docFields(model.Lib) {
		switch m {
		case "Types", "Traits", "ResourceTypes", "AnnotationTypes", "SecuritySchemes", "Annotations", "Uses", "ExtraFacets",
			"BaseURIParameters", "Resources":
			scribbleMap(call(v, m))
		}
	}
	for _, f := range b.order(docFields(model.Lib)) {
		b.applyDoc(v, into, f)
	}
}

// scribbleMap adds an entry to a live map by giving it a second copy of one that
// it has, or any value where that is allowed.
func scribbleMap(m interface{}) {
	if isNilI(m) {
		return
	}
	switch x := m.(type) {
	case raml.AnyMap:
		x.Put("scribble", "x")
	case raml.UntypedMap:
		x.Put("scribble", "x")
	case raml.StringMap:
		x.Put("scribble", "x")
	case raml.DataTypeMap:
		x.Put("scribble", parseOne(yStr(kStr).toNode()))
	case raml.AnnotationMap:
		x.Put("(scribble)", (&B{}).newMap("UntypedMap", nil).(raml.UntypedMap))
	case raml.FacetMap:
		x.Put("scribble", (&B{}).newMap("DataTypeMap", nil).(raml.DataTypeMap))
	}
}

// whole is everything that can be seen of a document.
func whole(v interface{}) (string, error) {
	d, err := observeDoc(v)
	if err != nil {
		return "", err
	}
	out, err := write(v)
	if err != nil {
		return "", fmt.Errorf("write: %w", err)
	}
	types := ""
	var terr error
	typesOf(v).ForEach(func(k string, dt raml.DataType) {
		text, err := dt.ToRAML()
		if err != nil {
			terr = fmt.Errorf("ToRAML of %q: %w", k, err)
		}
		types += text
	})
	return toJSON(d) + "\n" + out + types, terr
}

func checkMany(c *ManyCase, s *Stats) error {
	for _, m := range c.Docs {
		if !m.ok() {
			return s.skip()
		}
	}
	if !carried(c.Mods[0]) {
		return s.skip()
	}
	for _, m := range c.Docs {
		m.describe(s)
	}
	if len(c.How) > 0 && c.How[0]%2 == 0 {
		// Nothing was read before.
		errs := make([]error, len(c.Docs))
		var wg sync.WaitGroup
		for i, m := range c.Docs {
			wg.Add(1)
			go func(i int, m *MadeCase) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[i] = fmt.Errorf("panic: %v", r)
					}
				}()
				_, errs[i] = m.make()
			}(i, m)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return fmt.Errorf("made concurrently: %w", err)
			}
		}
		s.class("first made concurrently")
	}
	// Alone: what each document looks like.
	want := make([]string, len(c.Docs))
	var vs []interface{}
	for i, m := range c.Docs {
		v, err := m.make()
		if err != nil {
			return err
		}
		d, err := observeDoc(v)
		if err != nil {
			return err
		}
		if e := diff(visible(m.Model), d); e != "" {
			return fmt.Errorf("document %d: the accessors do not report the document: %s", i, e)
		}
		if want[i], err = whole(v); err != nil {
			return err
		}
		vs = append(vs, v)
	}
	again := func(what string) error {
		for i, v := range vs {
			if v == nil {
				continue
			}
			w, err := whole(v)
			if err != nil {
				return fmt.Errorf("%s: document %d: %w", what, i, err)
			}
			if w != want[i] {
				return fmt.Errorf("%s: document %d changed: %s", what, i, textDiff(want[i], w))
			}
		}
		return nil
	}
	if err := again("after making all documents"); err != nil {
		return err
	}
	// A change of the first leaves the others alone, and those made afterwards.
	scribble(&B{choices: c.How}, vs[0], c.Docs[0].Model, c.Mods[0])
	vs[0] = nil
	if err := again("after changing the first document"); err != nil {
		return err
	}
	for i, m := range c.Docs {
		v, err := m.make()
		if err != nil {
			return fmt.Errorf("after changing the first document: document %d: %w", i, err)
		}
		vs[i] = v
	}
	if err := again("made again after changing the first document"); err != nil {
		return err
	}
	s.add("documents changed", 1)
	// Concurrently: every document is read and written by two, for the first time,
	// while others make, use and change documents of the same text.
	for i, m := range c.Docs {
		v, err := m.make()
		if err != nil {
			return fmt.Errorf("made a third time: document %d: %w", i, err)
		}
		vs[i] = v
	}
	const users = 4
	var wg sync.WaitGroup
	errs := make([]error, users*len(c.Docs))
	for i := range c.Docs {
		for k := 0; k < users; k++ {
			wg.Add(1)
			go func(i, k int) {
				defer wg.Done()
				slot := i*users + k
				defer func() {
					if r := recover(); r != nil {
						errs[slot] = fmt.Errorf("panic: %v", r)
					}
				}()
				v := vs[i]
				if k > 1 {
					var err error
					if v, err = c.Docs[i].make(); err != nil {
						errs[slot] = err
						return
					}
				}
				w, err := whole(v)
				if err != nil {
					errs[slot] = err
				} else if w != want[i] {
					errs[slot] = fmt.Errorf("document %d differs: %s", i, textDiff(want[i], w))
				} else if k == users-1 {
					scribble(&B{choices: c.How}, v, c.Docs[i].Model, modFor(c, i))
				}
			}(i, k)
		}
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return fmt.Errorf("concurrently: %w", err)
		}
	}
	s.add("goroutines", users*len(c.Docs))
	return again("after concurrent use")
}

func modFor(c *ManyCase, i int) *Doc {
	if c.Mods[0].Lib == c.Docs[i].Model.Lib {
		return c.Mods[0]
	}
	return &Doc{Lib: c.Docs[i].Model.Lib}
}

func init() {
	register("C13", madeRule+"; many facets have exact numbers, dates or other scalars", genDense("kind", "value"), checkWhole)
	register("C15", "a case is a library with many examples, in three spellings; it is non-trivial when it says at least three "+
		"things", genExamples, checkSpell)
	register("C16", madeRule+"; much of it is opaque", genDense("opaque"), checkWhole)
	register("C17", "a case is a document in three spellings and with three variants of the bytes; it is non-trivial when it "+
		"says at least three things", genSpell, checkSpell)
	register("C18", "a case is two or three documents to make, change and use at the same time; it is non-trivial when one of "+
		"them says at least three things", genMany, checkMany)
	register("C22", "a case is a document, once without anything that has a default and once with all defaults spelled out; it "+
		"is non-trivial when it says at least three things", genDefaults, checkDefaults)
}

var _ = bytes.NewReader
