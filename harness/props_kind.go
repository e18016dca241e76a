package harness

import (
	"fmt"
	"strings"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// nearMiss draws a type that is not quite one of the built-in ones.
func (g *G) nearMiss() string {
	k := pick(g, builtinKinds)
	switch g.n(8) {
	case 0:
		return strings.ToUpper(k[:1]) + k[1:]
	case 1:
		return strings.ToUpper(k)
	case 2:
		return k + "[]"
	case 3:
		return k + pick(g, []string{"?", "s", " ", "-only", "_", "2", ".x"})
	case 4:
		return pick(g, []string{" ", "x", "my-", "lib."}) + k
	case 5:
		return strings.ReplaceAll(k+"-", "-", pick(g, []string{"_", "", " ", "--"}))
	case 6:
		return k[:len(k)-1]
	default:
		return pick(g, []string{"int", "float", "bool", "date", "time", "null", "double", "long", "String", "map", "list",
			"!include", "include", "union", "custom", "multi", "extended", "unknown", "", "a", "[string]", "{}",
			"<xs:schema/>", "{ \"type\": \"object\" }", "!includex.raml", "\\!include x", "timeonly", "datetime-Only"})
	}
}

func (g *G) unionText() string {
	a := pick(g, append([]string{"Foo", "lib.Bar", "(a)", ""}, builtinKinds...))
	b := pick(g, append([]string{"Foo", "!include x", ""}, builtinKinds...))
	return a + pick(g, []string{"|", " | ", "| ", " |"}) + b + pick(g, []string{"", "", "[]", " | c"})
}

// kindTD draws a type about which little but its kind is known.
func (g *G) kindTD(depth int) *TD {
	g.budget--
	t := &TD{}
	switch g.n(8) {
	case 0, 1, 2:
		t.Kind = pick(g, builtinKinds)
		t.Schema = t.Kind
	case 3:
		t.Kind, t.Schema = kUnion, g.unionText()
		if strings.HasPrefix(t.Schema, "!include ") {
			t.Schema = "x" + t.Schema
		}
	case 4:
		t.Kind, t.Schema = kInc, g.typeText(kInc)
	default:
		s := g.nearMiss()
		if g.p(4) {
			s = g.typeText(kCustom)
		}
		t.Kind, t.Schema = kindOf(s), s
	}
	if g.coin() {
		t.Kind = pick(g, []string{kObj, kArray})
		t.Schema = t.Kind
	}
	t.Optional = g.p(4)
	if !isExt(t.Kind) {
		return t
	}
	if g.p(4) {
		// facets that belong to other kinds do not change the kind
		used := map[string]bool{}
		n, words := 1+g.n(2), misleading
		if g.p(4) { // many facets, so that the one that decides comes late
			n, words = 5+g.n(20), append(g.idents(6), misleading...)
		}
		for i := 0; i < n; i++ {
			k := pick(g, words)
			if len(words) > len(misleading) && g.coin() {
				k += fmt.Sprint(i)
			}
			if !knownTypeKeys(t.Kind)[k] && !used[k] {
				used[k] = true
				t.Extra = append(t.Extra, KY{k, g.opaque(1)})
			}
		}
	}
	if depth <= 0 || g.budget <= 0 {
		return t
	}
	if g.p(6) {
		t.Facets = []Facet{{g.ident(), g.kindNamed(depth - 1)}}
	}
	switch {
	case t.Kind == kObj && !g.p(4):
		t.Properties = g.kindNamed(depth - 1)
	case t.Kind == kArray && !g.p(4):
		t.Items = g.kindTD(depth - 1)
	}
	return t
}

func (g *G) kindNamed(depth int) (out []Named) {
	used := map[string]bool{}
	for i, n := 0, g.from1(4); i < n; i++ {
		out = append(out, Named{g.name(used, nil), g.kindTD(depth)})
	}
	return
}

func genKinds(t *rapid.T) *DocCase {
	g := newG(t)
	g.budget *= 2
	d := &Doc{Lib: g.coin(), Types: g.kindNamed(g.deeper(4))}
	if !d.Lib {
		d.Title = "t"
	}
	return &DocCase{d, R{G: g}.text(d)}
}

// kindsOnly keeps of a model where which types are declared.
func kindsOnly(d *Doc) []Named { return kindsNamed(d.Types) }

func kindsNamed(ts []Named) (out []Named) {
	for _, t := range ts {
		out = append(out, Named{t.Name, kindTree(t.Type)})
	}
	return
}

func kindTree(t *TD) *TD {
	if t == nil {
		return nil
	}
	out := &TD{Kind: t.Kind, Schema: t.Schema, Items: kindTree(t.Items), Properties: kindsNamed(t.Properties)}
	for _, f := range t.Facets {
		out.Facets = append(out.Facets, Facet{f.Name, kindsNamed(f.Types)})
	}
	return out
}

func checkKinds(c *DocCase, s *Stats) error {
	if c.Text == "" {
		return s.skip()
	}
	seen := map[string]bool{}
	n := 0
	c.Model.eachTD(func(t *TD) { n++; seen[t.Kind] = true })
	for k := range seen {
		s.class("kind:%s", k)
	}
	if len(seen) >= 2 {
		s.interesting()
	}
	s.add("type declarations", n)
	v, got, err := parseObs(c.Text, c.Model.Lib)
	if err != nil {
		return err
	}
	if m := diff(kindsOnly(c.Model), kindsOnly(got)); m != "" {
		return fmt.Errorf("the kinds of the types: %s", m)
	}
	out, err := write(v)
	if err != nil {
		return fmt.Errorf("write: %w", err)
	}
	_, again, err := parseObs(out, c.Model.Lib)
	if err != nil {
		return fmt.Errorf("reading back what was written: %w\n%s", err, out)
	}
	if m := diff(kindsOnly(c.Model), kindsOnly(again)); m != "" {
		return fmt.Errorf("the kinds of the types after writing: %s\n%s", m, out)
	}
	return nil
}

func init() {
	register("C04", "a case is a document of nested type declarations of all kinds, near misses included; it is non-trivial "+
		"when at least two kinds occur", genKinds, checkKinds)
}

var _ = yaml.Node{}
