package harness

import (
	"fmt"
	"strings"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// RobustCase is any input at all.
type RobustCase struct {
	Lib  bool
	How  string
	Text []byte
	More [][]byte `json:",omitempty"` // further inputs of the same sort
}

var vocabulary = func() (out []string) {
	seen := map[string]bool{}
	add := func(m map[string]bool) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			if !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	add(apiKeys)
	add(libKeys)
	add(exKeys)
	add(docKeys)
	add(xmlKeys)
	for _, k := range allKinds {
		add(knownTypeKeys(k))
	}
	return append(out, "(a)", "(b)", "/x", "/y/{z}")
}()

// vocab draws a tree over the words of the language.
func (g *G) vocab(depth int) *Y {
	if depth <= 0 || g.n(4) == 0 {
		if g.coin() {
			return yStr(pick(g, append([]string{"a | b", "Foo", "", "0", "true"}, builtinKinds...)))
		}
		return g.scalar()
	}
	switch g.n(5) {
	case 0:
		o := yList()
		for i, n := 0, g.n(4); i < n; i++ {
			o.C = append(o.C, g.vocab(depth-1))
		}
		return o
	default:
		o := yMap()
		used := map[string]bool{}
		for i, n := 0, 1+g.n(4); i < n; i++ {
			k := pick(g, vocabulary)
			if g.p(4) {
				k = g.str()
			}
			if used[k] {
				continue
			}
			used[k] = true
			o.put(k, g.vocab(depth-1))
		}
		return o
	}
}

// vocabDoc draws a tree that starts like a document.
func (g *G) vocabDoc(lib bool) *Y {
	o := yMap()
	used := map[string]bool{}
	for i, n := 0, 1+g.n(4); i < n; i++ {
		k := pick(g, vocabulary)
		if g.coin() {
			k = "types"
		}
		if used[k] {
			continue
		}
		used[k] = true
		v := g.vocab(4)
		if k == "types" {
			v = yMap()
			for j, m := 0, 1+g.n(3); j < m; j++ {
				v.put(fmt.Sprintf("t%d", j), g.vocab(4))
			}
		}
		o.put(k, v)
	}
	return o
}

// allNodes lists the nodes below n with their parents.
func allNodes(n *yaml.Node, out *[]*yaml.Node) {
	*out = append(*out, n)
	for _, c := range n.Content {
		allNodes(c, out)
	}
}

func cloneNode(n *yaml.Node) *yaml.Node {
	c := *n
	c.Content = nil
	for _, x := range n.Content {
		c.Content = append(c.Content, cloneNode(x))
	}
	return &c
}

// mutateTree changes a tree in one place.
func (g *G) mutateTree(root *yaml.Node) {
	var all []*yaml.Node
	allNodes(root, &all)
	at := all[rapid.IntRange(0, len(all)-1).Draw(g.t, "at")]
	r := R{G: g}
	switch g.n(12) {
	case 0, 1, 2:
		*at = *r.node(g.scalar())
	case 3:
		*at = *r.node(g.opaque(2))
	case 4:
		*at = *r.node(g.vocab(3))
	case 5: // drop something
		if n := len(at.Content); n > 0 {
			i := g.n(min(n, 250))
			if at.Kind == yaml.MappingNode {
				i &^= 1
				at.Content = append(at.Content[:i:i], at.Content[i+2:]...)
			} else {
				at.Content = append(at.Content[:i:i], at.Content[i+1:]...)
			}
		}
	case 6: // repeat something
		if n := len(at.Content); n > 0 {
			i := g.n(min(n, 250))
			if at.Kind == yaml.MappingNode {
				i &^= 1
				at.Content = append(at.Content, cloneNode(at.Content[i]), cloneNode(at.Content[i+1]))
			} else {
				at.Content = append(at.Content, cloneNode(at.Content[i]))
			}
		}
	case 7: // rename a key
		if at.Kind == yaml.MappingNode && len(at.Content) > 0 {
			i := g.n(min(len(at.Content), 250)) &^ 1
			at.Content[i] = r.key(pick(g, vocabulary))
		}
	case 8: // wrap
		c := *at
		if g.coin() {
			*at = yaml.Node{Kind: yaml.SequenceNode, Content: []*yaml.Node{&c}}
		} else {
			*at = yaml.Node{Kind: yaml.MappingNode, Content: []*yaml.Node{r.key(pick(g, vocabulary)), &c}}
		}
	case 9: // swap
		o := all[rapid.IntRange(0, len(all)-1).Draw(g.t, "other")]
		a, b := cloneNode(at), cloneNode(o)
		*at, *o = *b, *a
	case 10: // tag
		at.Tag = pick(g, []string{"!include", "!foo", "!!str", "!!int", "!!float", "!!bool", "!!null", "!!binary", "!!map",
			"!!seq", "!!omap", "!!set", "!!timestamp", "!"})
	case 11: // alias
		o := all[rapid.IntRange(0, len(all)-1).Draw(g.t, "other")]
		for _, x := range all { // whichever comes first gets the anchor
			if x == at {
				at, o = o, at
				break
			}
			if x == o {
				break
			}
		}
		var below []*yaml.Node
		allNodes(o, &below)
		for _, x := range below {
			if x == at {
				return // a part of the other
			}
		}
		if o.Kind == yaml.AliasNode {
			return
		}
		if o.Anchor == "" {
			o.Anchor = "a" + g.runes(identRunes[:26], 1, 2)
		}
		*at = yaml.Node{Kind: yaml.AliasNode, Value: o.Anchor, Alias: o}
	}
}

var yamlBytes = []byte("[]{}:,-?&*!|>%@`\"'#\n\n  \t0aZ~.\\/=<\xef\xbb\xbf\x00\xff\xc2\x85\r")

func (g *G) mutateBytes(b []byte) []byte {
	pos := func() int { return rapid.IntRange(0, len(b)).Draw(g.t, "pos") }
	for k := 1 + g.n(5); k > 0; k-- {
		i := pos()
		switch g.n(7) {
		case 0:
			b = append(b[:i:i], append([]byte{pick(g, yamlBytes)}, b[i:]...)...)
		case 1:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 2:
			if i < len(b) {
				b = append([]byte{}, b...)
				b[i] = pick(g, yamlBytes)
			}
		case 3:
			b = b[:i:i]
		case 4:
			j := pos()
			if i > j {
				i, j = j, i
			}
			b = append(b[:i:i], b[j:]...)
		case 5:
			j := pos()
			if i > j {
				i, j = j, i
			}
			if j-i > 400 {
				j = i + 400
			}
			b = append(b[:j:j], b[i:]...)
		case 6:
			w := pick(g, append([]string{"---\n", "...\n", ": ", "- ", "\n  ", "*a", "&a ", "<<: ", "!include ", "!!set ", "{", "["},
				vocabulary...))
			b = append(b[:i:i], append([]byte(w), b[i:]...)...)
		}
	}
	return b
}

// deepText is a document that is nested very deeply.
func (g *G) deepText() string {
	n := rapid.IntRange(50, 700).Draw(g.t, "depth")
	rep := func(s string) string { return strings.Repeat(s, n) }
	switch g.n(7) {
	case 0:
		return "types: {a: " + rep("{items: ") + "string" + rep("}") + "}\n"
	case 1:
		return "types: {a: " + rep("{properties: {p: ") + "string" + rep("}}") + "}\n"
	case 2:
		return "types: {a: " + rep("{type: string, facets: {f: {g: ") + "string" + rep("}}}") + "}\n"
	case 3:
		return "x: " + rep("[") + rep("]") + "\n"
	case 4:
		return "types: {a: {type: any, example: " + rep("{b: ") + "1" + rep("}") + "}}\n"
	case 5:
		return "types: {a: {items: " + rep("[") + rep("]") + "}}\n"
	default:
		var b strings.Builder
		b.WriteString("types:\n")
		for i := 0; i < n/4; i++ {
			b.WriteString(strings.Repeat(" ", 2*i+1) + "k:\n" + strings.Repeat(" ", 2*i+2) + "properties:\n")
		}
		return b.String()
	}
}

// anyValues is versions of a document with any values at known places.
func (g *G) anyValues(lib bool) (out [][]byte) {
	r := R{G: g}
	g.untagged = true
	d := g.doc(lib)
	kind := spreadKinds[g.even(len(spreadKinds))]
	td := g.tdOf(kind, 1)
	td.Extra = append(td.Extra, KY{mark, yNull()})
	d.Types = append(d.Types, Named{"holder", g.place(td, g.n(2))})
	good := r.doc(d)
	paths := facetPaths(kind)
	for i := 0; i < 5; i++ {
		n := cloneNode(good)
		k := 1
		if g.p(3) {
			k = 2
		}
		for ; k > 0; k-- {
			if m := findPlaced(n, mark); m != nil {
				r.putPath(m, strings.Split(paths[g.even(len(paths))], "."), r.badValue())
			}
		}
		b, err := encodeNode(n, 2)
		if err != nil {
			b = []byte("?")
		}
		out = append(out, b)
	}
	return
}

func genRobust(t *rapid.T) *RobustCase {
	g := newG(t)
	c := &RobustCase{Lib: g.coin()}
	g.budget = 5
	switch g.even(13) {
	case 0:
		c.How = "bytes"
		n := rapid.IntRange(0, 60).Draw(t, "len")
		for i := 0; i < n; i++ {
			c.Text = append(c.Text, pick(g, yamlBytes))
		}
	case 1, 2:
		c.How = "changed text"
		c.Text = g.mutateBytes([]byte(R{G: g}.text(g.doc(c.Lib))))
	case 3, 4, 5:
		c.How = "changed tree"
		n := R{G: g}.doc(g.doc(c.Lib))
		for k := 1 + g.n(4); k > 0; k-- {
			g.mutateTree(n)
		}
		b, err := encodeNode(n, 2)
		if err != nil {
			b = []byte("?")
		}
		c.Text = b
	case 6, 7, 8:
		c.How = "words"
		b, err := encodeNode(R{G: g}.node(g.vocabDoc(c.Lib)), 2)
		if err != nil {
			b = []byte("?")
		}
		c.Text = b
	case 9, 10, 11:
		c.How = "values at facets"
		v := g.anyValues(c.Lib)
		c.Text, c.More = v[0], v[1:]
	default:
		if g.p(6) {
			c.How = "deep"
			c.Text = []byte(g.deepText())
		} else {
			c.How = "the other kind of document"
			c.Text = []byte(R{G: g}.text(g.doc(!c.Lib)))
		}
	}
	return c
}

// expanded is the number of nodes after aliases are replaced, up to a limit.
func expanded(n *yaml.Node, limit int) int {
	if limit <= 0 {
		return 1
	}
	if n.Kind == yaml.AliasNode {
		return 1 + expanded(n.Alias, limit-1)
	}
	k := 1
	for _, c := range n.Content {
		k += expanded(c, limit-k)
		if k > limit {
			return k
		}
	}
	return k
}

func hasAlias(n *yaml.Node) bool {
	if n.Kind == yaml.AliasNode || n.Anchor != "" {
		return true
	}
	for _, c := range n.Content {
		if hasAlias(c) {
			return true
		}
	}
	return false
}

func checkRobust(c *RobustCase, s *Stats) error {
	s.class("%s", c.How)
	if len(c.Text) > 0 {
		s.interesting()
	}
	for i, b := range append([][]byte{c.Text}, c.More...) {
		s.add("inputs", 1)
		if err := c.check(b, s); err != nil {
			return fmt.Errorf("input %d: %w", i, err)
		}
	}
	return nil
}

func (c *RobustCase) check(b []byte, s *Stats) error {
	text := string(b)
	v, err := parse(text, c.Lib)
	if err != nil && v != nil {
		return fmt.Errorf("rejected, and a document was returned: %w", err)
	}
	accepted := err == nil
	if accepted {
		s.class("%s: accepted", c.How)
	} else {
		s.class("%s: rejected", c.How)
	}
	var n yaml.Node
	yerr := func() (e error) {
		defer func() {
			if r := recover(); r != nil {
				e = fmt.Errorf("%v", r)
			}
		}()
		return yaml.NewDecoder(strings.NewReader(text)).Decode(&n)
	}()
	if yerr != nil {
		// A library may be empty.
		if accepted && yerr.Error() != "EOF" {
			return fmt.Errorf("accepted, but it is not YAML: %v", yerr)
		}
		if accepted {
			_, err := write(v)
			return err
		}
		return nil
	}
	large := expanded(&n, 20000) > 20000
	aliases := hasAlias(&n)
	if large {
		s.class("large or endless by aliases")
		if accepted {
			if _, err := write(v); err != nil {
				s.class("large or endless by aliases: not written")
			}
		}
		return nil
	}
	y := fromNode(&n)
	want, ierr := inDoc(y, c.Lib)
	judged := !odd(&n, 0) && ierr != errUnspecified
	if judged {
		s.add("compared with the reference reader", 1)
		s.class("%s: compared", c.How)
		if aliases {
			s.class("with aliases")
			if ierr == nil && !accepted {
				// A known finding: an alias in a typed place is rejected.
				return nil
			}
		}
		if (ierr == nil) != accepted {
			return fmt.Errorf("the reference reader says %v, the library says %v", ierr, err)
		}
	}
	if !accepted {
		return nil
	}
	got, err := observeDoc(v)
	if err != nil {
		return err
	}
	if judged {
		if m := diff(visible(want), got); m != "" {
			return fmt.Errorf("the accessors do not report the document: %s", m)
		}
	}
	out, err := write(v)
	if err != nil {
		return fmt.Errorf("an accepted document cannot be written: %w", err)
	}
	if !judged || !yamlFaithful(b, y) {
		return nil
	}
	s.add("written and read back", 1)
	_, back, err := parseObs(out, c.Lib)
	if err != nil {
		return fmt.Errorf("an accepted document is not read back: %w\n%s", err, short(out))
	}
	if m := diff(got, back); m != "" {
		return fmt.Errorf("an accepted document changed by writing and reading back: %s\n%s", m, short(out))
	}
	return nil
}

// ---- C09: values of a wrong type

// BadCase is documents with one bad value each.
type BadCase struct {
	Lib  bool
	Bads []Bad
}

type Bad struct {
	Where string
	Good  string // the same without the bad value
	Text  string
}

var hardInts = []string{"-1", "18446744073709551616", "9223372036854775808", "-9223372036854775809",
	"99999999999999999999999", "-0", "+7", "0x1F", "0o17", "0b11", "1_000", "007"}

func (r R) badValue() *yaml.Node {
	g := r.G
	for {
		var y *Y
		switch g.even(10) {
		case 9: // what looks like another type
			y = yStr(pick(g, []string{"yes", "no", "on", "off", "y", "n", "Yes", "ON", "true", "false", "True", "1", "0", "-1",
				"1.0", "0x10", "1e3", "null", "~", "", "2020-01-01", ".inf", "t", "1_000", "[]", "{}"}))
		case 0:
			y = yStr(g.str())
		case 1:
			y = yBool(g.coin())
		case 2:
			y = yInt(g.i64())
		case 3:
			y = yFlt(float64(g.n(50)) + 0.5)
		case 4:
			y = yNull()
		case 5:
			y = yMap()
			if g.coin() {
				y.put(g.ident(), g.scalar())
			}
		case 6:
			y = yList()
			if g.coin() {
				y.C = append(y.C, g.scalar())
			}
		case 7:
			y = &Y{K: "s", T: "!!int", V: hardInts[g.even(len(hardInts))]}
		case 8:
			y = yMap().put(pick(g, vocabulary), g.opaque(1))
		}
		return r.node(y)
	}
}

// The facets of types, as paths below a type declaration of a kind.  A star is any
// entry, a number an index, a hash the name of an entry.
func facetPaths(kind string) (out []string) {
	if isExt(kind) {
		out = append(out, "displayName", "description", "facets", "facets.*", "facets.*.*", "xml", "xml.attribute",
			"xml.wrapped", "xml.name", "xml.namespace", "xml.prefix", "example", "example.value", "example.strict",
			"example.displayName", "example.description", "example.(a)", "examples", "examples.*", "examples.*.value",
			"examples.*.strict", "examples.*.displayName", "examples.*.description", "examples.*.(a)", "enum", "enum.0", "enum.2",
			"default", "(a)", "facets.#", "facets.*.#", "examples.#", "(a).#")
	}
	out = append(out, "required", "type", "schema")
	for _, k := range kindKeys[kind] {
		out = append(out, k)
		switch k {
		case "properties":
			out = append(out, "properties.*", "properties.#")
		case "fileTypes":
			out = append(out, "fileTypes.0", "fileTypes.1")
		}
	}
	return
}

var docPaths = []string{"title", "version", "baseUri", "description", "baseUriParameters", "protocols", "protocols.0",
	"protocols.1", "mediaType", "mediaType.0", "mediaType.1", "securedBy", "securedBy.0", "securedBy.1", "documentation",
	"documentation.0", "documentation.1", "documentation.0.title", "documentation.0.content", "documentation.1.content", "baseUriParameters.#"}
var commonPaths = []string{"types", "types.*", "schemas", "traits", "resourceTypes", "annotationTypes", "securitySchemes",
	"uses", "uses.*", "(a)", "types.#", "traits.#", "resourceTypes.#", "annotationTypes.#", "securitySchemes.#", "uses.#", "(a).#"}

func (r R) putPath(n *yaml.Node, path []string, v *yaml.Node) {
	k := path[0]
	if k >= "0" && k <= "9" {
		if n.Kind != yaml.SequenceNode {
			*n = yaml.Node{Kind: yaml.SequenceNode}
		}
		i := int(k[0] - '0')
		for len(n.Content) <= i {
			f := r.strN("ok")
			if len(path) > 1 {
				f = &yaml.Node{Kind: yaml.MappingNode, Style: yaml.FlowStyle}
			}
			n.Content = append(n.Content, f)
		}
		if len(path) == 1 {
			n.Content[i] = v
		} else {
			r.putPath(n.Content[i], path[1:], v)
		}
		return
	}
	if n.Kind != yaml.MappingNode {
		*n = yaml.Node{Kind: yaml.MappingNode}
	}
	if k == "#" {
		v.LineComment, v.HeadComment, v.FootComment = "", "", ""
		if len(n.Content) > 0 && r.coin() {
			n.Content[r.n(min(len(n.Content), 250))&^1] = v
		} else {
			n.Content = append(n.Content, v, r.node(yStr("x")))
		}
		return
	}
	at := -1
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == k || (k == "*" && r.coin()) {
			at = i
			break
		}
	}
	if at < 0 {
		at = len(n.Content)
		if k == "*" {
			k = "e" + r.ident()
		}
		n.Content = append(n.Content, r.key(k), &yaml.Node{Kind: yaml.MappingNode, Style: yaml.FlowStyle})
	}
	if len(path) == 1 {
		n.Content[at+1] = v
		return
	}
	r.putPath(n.Content[at+1], path[1:], v)
}

// place puts a type declaration somewhere below another one.
func (g *G) place(t *TD, depth int) *TD {
	if depth <= 0 {
		return t
	}
	u := &TD{}
	switch g.n(3) {
	case 0:
		u.Kind, u.Schema = kObj, kObj
		u.Properties = g.named(0, 0, 2)
		u.Properties = append(u.Properties, Named{"placed", t})
	case 1:
		u.Kind, u.Schema = kArray, kArray
		u.Items = t
	default:
		k := pick(g, []string{kStr, kObj, kCustom, kInt, kFile})
		u.Kind, u.Schema = k, schemaOf(k)
		u.Facets = []Facet{{"f", []Named{{"placed", t}}}}
	}
	return g.place(u, depth-1)
}

// findPlaced finds the declaration that place put there.
func findPlaced(n *yaml.Node, mark string) *yaml.Node {
	if n.Kind == yaml.MappingNode {
		for i := 0; i+1 < len(n.Content); i += 2 {
			if n.Content[i].Value == mark {
				return n
			}
		}
	}
	for _, c := range n.Content {
		if f := findPlaced(c, mark); f != nil {
			return f
		}
	}
	return nil
}

const mark = "marked-declaration"

func genBad(t *rapid.T) *BadCase {
	g := newG(t)
	g.budget = 4
	g.big = ""
	r := R{G: g}
	c := &BadCase{Lib: g.coin()}
	d := g.doc(c.Lib)
	for try := 0; try < 6 && len(c.Bads) == 0; try++ {
		if !g.p(4) {
			kind := spreadKinds[g.even(len(spreadKinds))]
			td := g.tdOf(kind, 1)
			td.Extra = append(td.Extra, KY{mark, yNull()})
			e := clone(d)
			e.Types = append(e.Types, Named{"holder", g.place(td, g.n(3))})
			good := r.doc(e)
			if findPlaced(good, mark) == nil {
				continue
			}
			for k := 0; k < 4; k++ {
				paths := facetPaths(kind)
				path := paths[g.even(len(paths))]
				n := cloneNode(good)
				m := findPlaced(n, mark)
				where := kind + "." + path
				if path == "type" || path == "schema" {
					for i := 0; i+1 < len(m.Content); i += 2 {
						if m.Content[i].Value == "type" || m.Content[i].Value == "schema" {
							path = m.Content[i].Value
						}
					}
				}
				c.add(r, good, n, m, path, where)
			}
			continue
		}
		paths := commonPaths
		if !c.Lib {
			paths = append(docPaths, commonPaths...)
		} else {
			paths = append([]string{"usage"}, paths...)
		}
		good := r.doc(d)
		for k := 0; k < 3; k++ {
			path := pick(g, paths)
			n := cloneNode(good)
			c.add(r, good, n, n, path, path)
		}
	}
	return c
}

// add makes a document bad at a path below a part of it.
func (c *BadCase) add(r R, good, n, at *yaml.Node, path, where string) {
	if !r.makeBad(n, at, path, c.Lib) {
		return
	}
	b := Bad{where, r.textOf(good, c.Lib), r.textOf(n, c.Lib)}
	if b.Good != "" && b.Text != "" {
		c.Bads = append(c.Bads, b)
	}
}

// makeBad puts a bad value at a path below at, a part of the document root.
func (r R) makeBad(root, at *yaml.Node, path string, lib bool) bool {
	if _, err := inDoc(fromNode(root), lib); err != nil {
		return false
	}
	saved := cloneNode(at)
	for i := 0; i < 10; i++ {
		*at = *cloneNode(saved)
		v := r.badValue()
		if odd(v, 0) {
			continue
		}
		r.putPath(at, strings.Split(path, "."), v)
		if _, err := inDoc(fromNode(root), lib); err != nil && err != errUnspecified {
			return true
		}
	}
	return false
}

// textOf writes a tree as a document.
func (r R) textOf(n *yaml.Node, lib bool) string {
	body, err := encodeNode(n, 2)
	if err != nil {
		return ""
	}
	head := "#%RAML 1.0\n"
	if lib {
		head = "#%RAML 1.0 Library\n"
	}
	y, ok, err := decodeTree(body)
	if !ok || err != nil || !y.equal(fromNode(n)) {
		return ""
	}
	return head + string(body)
}

func checkBad(c *BadCase, s *Stats) error {
	if len(c.Bads) == 0 {
		return s.skip()
	}
	s.interesting()
	for i, b := range c.Bads {
		s.class("%s", b.Where)
		s.add("bad values", 1)
		if i == 0 || b.Good != c.Bads[i-1].Good {
			if _, err := parse(b.Good, c.Lib); err != nil {
				return fmt.Errorf("without the bad value: rejected: %w", err)
			}
		}
		v, err := parseFrom(strings.NewReader(b.Text), c.Lib)
		if err == nil {
			return fmt.Errorf("a value of a wrong type at %s was accepted:\n%s", b.Where, short(b.Text))
		}
		if v != nil {
			return fmt.Errorf("a value of a wrong type at %s: a document was returned with the error", b.Where)
		}
		if err := yaml.Unmarshal([]byte(b.Text), newDoc(c.Lib)); err == nil {
			return fmt.Errorf("a value of a wrong type at %s was accepted by yaml.Unmarshal", b.Where)
		}
	}
	return nil
}

func init() {
	register("C08", "a case is any input: random bytes, changed documents, trees over the words of the language, deep "+
		"nesting; it is non-trivial when it is not empty", genRobust, checkRobust)
	register("C09", "a case is a document that is accepted, and versions of it with one value of a wrong type each; it is "+
		"non-trivial when there is one that the reference reader rejects", genBad, checkBad)
}
