package harness

import (
	"math"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// R renders a model as YAML, choosing between equivalent spellings.
type R struct {
	*G
	plain bool // no spelling choices
	// defaults tells whether facets at their default are spelled out
	defaults choice
	// short tells whether examples have the short form where they can
	short choice
	// opaque, when set, collects the nodes that may become aliases
	opaque map[*yaml.Node]bool
}

type choice int

const (
	sometimes choice = iota
	always
	never
)

// optAs is opt unless a choice was made.
func (r R) optAs(c choice, k int) bool {
	switch c {
	case always:
		return true
	case never:
		return false
	}
	return r.opt(k)
}

func (r R) opt(k int) bool { return !r.plain && r.p(k) }

// scalarNode renders a scalar in one of its styles.
func (r R) scalarNode(y *Y) *yaml.Node {
	n := y.toNode()
	if r.plain {
		return n
	}
	switch y.T {
	case "!!str":
		switch r.n(6) {
		case 3:
			n.Style = yaml.SingleQuotedStyle
		case 4:
			n.Style = yaml.DoubleQuotedStyle
		case 5:
			if y.V != "" && !strings.ContainsAny(y.V[:1], " \n\t") && !strings.Contains(y.V, "\t") {
				n.Style = yaml.LiteralStyle
			}
		}
	case "!!null":
		n.Value = pick(r.G, []string{"null", "~", "Null", "null", "NULL", "", ""})
	case "!!bool":
		if y.V == "true" {
			n.Value = pick(r.G, []string{"true", "True", "TRUE", "true"})
		} else {
			n.Value = pick(r.G, []string{"false", "False", "FALSE", "false"})
		}
	}
	return n
}

// node renders an untyped value.
func (r R) node(y *Y) *yaml.Node { return r.nodeIn(y, false) }

func (r R) nodeIn(y *Y, flow bool) *yaml.Node {
	if y.K == "s" {
		n := r.scalarNode(y)
		if flow {
			flowAll(n)
		}
		return n
	}
	n := &yaml.Node{Kind: yaml.MappingNode}
	std := "!!map"
	if y.K == "l" {
		n.Kind, std = yaml.SequenceNode, "!!seq"
	}
	if y.T != std {
		n.Tag = y.T
	}
	if flow || r.opt(4) || len(y.C) == 0 {
		n.Style, flow = yaml.FlowStyle, true
	}
	for i, c := range y.C {
		x := r.nodeIn(c, flow)
		n.Content = append(n.Content, x)
		if r.opaque != nil && (y.K == "l" || i%2 == 1) {
			r.opaque[x] = true
		}
	}
	return n
}

// untyped renders a value in a place where any value may be.
func (r R) untyped(y *Y) *yaml.Node {
	n := r.node(y)
	if r.opaque != nil {
		r.opaque[n] = true
	}
	return n
}

// addAliases makes aliases of some opaque values that occurred before.
func (r R) addAliases(root *yaml.Node) {
	type seen struct {
		n *yaml.Node
		y *Y
	}
	var before []seen
	left, names := 1+r.n(6), 0
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		y := fromNode(n)
		null := n.Kind == yaml.ScalarNode && n.Tag == "!!null"
		if r.opaque[n] && left > 0 && !null {
			for _, b := range before {
				if !b.y.equal(y) || r.p(4) {
					continue
				}
				if b.n.Anchor == "" {
					b.n.Anchor = pick(r.G, []string{"a", "id", "A-1", "x_"}) + strconv.Itoa(names)
					names++
				}
				*n = yaml.Node{Kind: yaml.AliasNode, Value: b.n.Anchor, Alias: b.n}
				left--
				return
			}
		}
		for _, c := range n.Content {
			walk(c)
		}
		if !null && n.Line != mayQuote {
			before = append(before, seen{n, y})
		}
	}
	walk(root)
}

// addTags spells out the tags of some nodes.
func (r R) addTags(n *yaml.Node, k int) {
	if n.Kind != yaml.AliasNode && n.Kind != yaml.DocumentNode && n.Line != mayQuote && r.p(k) {
		n.Tag = n.ShortTag()
		if strings.HasPrefix(n.Tag, "!!") && !(n.Tag == "!!null" && n.Value == "") {
			n.Style |= yaml.TaggedStyle
		}
	}
	for _, c := range n.Content {
		r.addTags(c, k)
	}
}

func (r R) key(s string) *yaml.Node { return r.strN(s) }

func (r R) strN(s string) *yaml.Node { return r.scalarNode(yStr(s)) }

func (r R) boolN(b bool) *yaml.Node { return r.scalarNode(yBool(b)) }

// intN renders an integer of a typed facet.
func (r R) intN(s string) *yaml.Node {
	if _, err := strconv.ParseInt(s, 10, 64); err == nil && s[0] != '-' && r.opt(24) {
		s = "+" + s // the YAML library takes this for a float above 2^63
	}
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!int", Value: s}
}

func (r R) uintN(v uint64) *yaml.Node { return r.intN(strconv.FormatUint(v, 10)) }

// floatN renders a number of a typed facet.
func (r R) floatN(s string) *yaml.Node {
	f := textFlt(s)
	tag, val := "!!float", fltYaml(s)
	if !r.plain {
		switch {
		case f == math.Trunc(f) && math.Abs(f) < 1<<53 && !(f == 0 && math.Signbit(f)):
			switch r.n(5) {
			case 0, 1:
				tag, val = "!!int", strconv.FormatInt(int64(f), 10)
			case 2:
				val = strconv.FormatFloat(f, 'f', 1, 64)
			case 3:
				val = strconv.FormatFloat(f, 'f', 0, 64) + "."
			default:
				val = strconv.FormatFloat(f, 'e', -1, 64)
			}
		case math.IsInf(f, 1):
			val = pick(r.G, []string{".inf", "+.inf", ".Inf", ".INF"})
		case math.IsInf(f, -1):
			val = pick(r.G, []string{"-.inf", "-.Inf", "-.INF"})
		case math.IsNaN(f):
			val = pick(r.G, []string{".nan", ".NaN", ".NAN"})
		default:
			switch r.n(3) {
			case 1:
				val = strconv.FormatFloat(f, 'e', -1, 64)
			case 2:
				if v := strconv.FormatFloat(f, 'f', -1, 64); len(v) < 40 && strings.Contains(v, ".") {
					val = v
				}
			}
			if r.p(3) {
				val = strings.ReplaceAll(val, "e", "E")
			}
			if strings.HasPrefix(val, "0.") && r.p(3) {
				val = val[1:]
			} else if val[0] != '-' && r.p(4) {
				val = "+" + val
			}
		}
	}
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: tag, Value: val}
}

// typedN renders a value of the default, enum or example facet of a kind.
func (r R) typedN(kind string, y *Y) *yaml.Node {
	switch vClass(kind) {
	case "float":
		return r.floatN(y.V)
	case "int":
		return r.intN(y.V)
	case "string":
		if isDateKind(kind) && !r.plain {
			if isTimestamp(y.V) && r.coin() {
				return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!timestamp", Value: y.V, Line: mayQuote} // unquoted
			}
		}
	}
	return r.node(y)
}

// entry is a mapping entry.  Entries of the same group keep their order.
type entry struct {
	k, v  *yaml.Node
	group int
}

type entries struct {
	r  R
	es []entry
}

func (e *entries) add(k string, v *yaml.Node) {
	e.es = append(e.es, entry{e.r.key(k), v, -len(e.es) - 1})
}

func (e *entries) addG(group int, k, v *yaml.Node) { e.es = append(e.es, entry{k, v, group}) }

func (e *entries) anns(as []Ann) {
	for _, a := range as {
		e.addG(1, e.r.key(a.Name), e.r.kys(a.Fields))
	}
}

func (e *entries) extras(ex []KY) {
	for _, x := range ex {
		e.addG(2, e.r.extraKey(x.Key), e.r.untyped(x.Val))
	}
}

// extraKey renders a facet name.  Names that look like a bool or a number may be
// written as such.
func (r R) extraKey(s string) *yaml.Node {
	if !r.plain {
		switch n := (&yaml.Node{Kind: yaml.ScalarNode, Value: s}); n.ShortTag() {
		case "!!int", "!!float", "!!bool":
			if r.coin() {
				return n
			}
		}
	}
	return r.key(s)
}

// mapping builds the mapping node with the groups interleaved at random.
func (e *entries) mapping() *yaml.Node {
	n := &yaml.Node{Kind: yaml.MappingNode}
	es := e.es
	if !e.r.plain && e.r.coin() {
		// a random shuffle that is undone within each group
		perm := make([]entry, len(es))
		copy(perm, es)
		for i := len(perm) - 1; i > 0; i-- {
			j := e.r.n(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
		next := map[int]int{}
		for i := range perm {
			g := perm[i].group
			j := next[g]
			for es[j].group != g {
				j++
			}
			perm[i] = es[j]
			next[g] = j + 1
		}
		es = perm
	}
	for _, x := range es {
		n.Content = append(n.Content, x.k, x.v)
	}
	if len(es) == 0 {
		n.Style = yaml.FlowStyle
	}
	return n
}

func (r R) kys(kvs []KY) *yaml.Node {
	n := &yaml.Node{Kind: yaml.MappingNode}
	for _, kv := range kvs {
		n.Content = append(n.Content, r.key(kv.Key), r.untyped(kv.Val))
	}
	r.flowMaybe(n)
	return n
}

// flowMaybe turns a block collection into a flow collection now and then.
func (r R) flowMaybe(n *yaml.Node) *yaml.Node {
	if len(n.Content) == 0 || (n.Style == 0 && r.opt(10)) {
		flowAll(n)
	}
	return n
}

// mayQuote marks timestamps for which a text would do as well.
const mayQuote = -1

func flowAll(n *yaml.Node) {
	if n.Kind == yaml.ScalarNode {
		if n.Style == yaml.LiteralStyle {
			n.Style = 0
		}
		if n.Tag == "!!timestamp" && n.Line == mayQuote {
			n.Tag = "!!str" // the YAML library quotes it here
		}
		if n.Tag == "!!null" && n.Value == "" {
			n.Value = "null"
		}
		return
	}
	n.Style |= yaml.FlowStyle
	for _, c := range n.Content {
		flowAll(c)
	}
}

func (r R) strSeq(v []string) *yaml.Node {
	n := &yaml.Node{Kind: yaml.SequenceNode}
	for _, s := range v {
		n.Content = append(n.Content, r.strN(s))
	}
	return r.flowMaybe(n)
}

func (r R) include(path string) *yaml.Node {
	n := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!include", Value: path}
	return n
}

func (r R) example(kind string, ex *Ex) *yaml.Node {
	bare := ex.DisplayName == nil && ex.Description == nil && !ex.Lenient && len(ex.Anns) == 0 && len(ex.Extra) == 0
	if bare && ex.Value != nil && ex.Value.K != "m" && !(r.short == never || (r.short == sometimes && r.opt(3))) {
		return r.typedN(kind, ex.Value)
	}
	e := &entries{r: r}
	if ex.DisplayName != nil {
		e.add("displayName", r.strN(*ex.DisplayName))
	}
	if ex.Description != nil {
		e.add("description", r.strN(*ex.Description))
	}
	if ex.Value != nil {
		e.add("value", r.typedN(kind, ex.Value))
	}
	if ex.Lenient {
		e.add("strict", r.boolN(false))
	} else if r.optAs(r.defaults, 4) {
		e.add("strict", r.boolN(true))
	}
	e.anns(ex.Anns)
	e.extras(ex.Extra)
	return r.flowMaybe(e.mapping())
}

func (r R) xml(x *Xml) *yaml.Node {
	e := &entries{r: r}
	if x.Attribute != nil {
		e.add("attribute", r.boolN(*x.Attribute))
	}
	if x.Wrapped != nil {
		e.add("wrapped", r.boolN(*x.Wrapped))
	}
	if x.Name != nil {
		e.add("name", r.strN(*x.Name))
	}
	if x.Namespace != nil {
		e.add("namespace", r.strN(*x.Namespace))
	}
	if x.Prefix != nil {
		e.add("prefix", r.strN(*x.Prefix))
	}
	e.extras(x.Extra)
	return r.flowMaybe(e.mapping())
}

func (r R) named(ts []Named) *yaml.Node {
	n := &yaml.Node{Kind: yaml.MappingNode}
	for _, t := range ts {
		n.Content = append(n.Content, r.key(t.Name), r.td(t.Type))
	}
	return r.flowMaybe(n)
}

func hasKey(ex []KY, keys ...string) bool {
	for _, x := range ex {
		for _, k := range keys {
			if x.Key == k {
				return true
			}
		}
	}
	return false
}

func (r R) td(t *TD) *yaml.Node {
	e := &entries{r: r}
	str := func(k string, s *string) {
		if s != nil {
			e.add(k, r.strN(*s))
		}
	}
	uint := func(k string, v *uint64) {
		if v != nil {
			e.add(k, r.uintN(*v))
		}
	}
	// a limit that has a default
	lim := func(k string, v *uint64, def uint64) {
		uint(k, v)
		if v == nil && r.optAs(r.defaults, 8) {
			e.add(k, r.uintN(def))
		}
	}
	empties := func(k string, v *yaml.Node) {
		if r.defaults == always || (r.defaults == sometimes && r.opt(24)) {
			v.Style = yaml.FlowStyle
			e.add(k, v)
		}
	}
	str("displayName", t.DisplayName)
	str("description", t.Description)
	if t.Default != nil {
		e.add("default", r.typedN(t.Kind, t.Default))
	}
	if len(t.Enum) > 0 {
		n := &yaml.Node{Kind: yaml.SequenceNode}
		for _, v := range t.Enum {
			n.Content = append(n.Content, r.typedN(t.Kind, v))
		}
		e.add("enum", r.flowMaybe(n))
	} else if isExt(t.Kind) {
		empties("enum", &yaml.Node{Kind: yaml.SequenceNode})
	}
	if t.Example != nil {
		e.add("example", r.example(t.Kind, t.Example))
	}
	if len(t.Examples) > 0 {
		n := &yaml.Node{Kind: yaml.MappingNode}
		for _, x := range t.Examples {
			n.Content = append(n.Content, r.key(x.Name), r.example(t.Kind, x.Ex))
		}
		e.add("examples", r.flowMaybe(n))
	} else if isExt(t.Kind) {
		empties("examples", &yaml.Node{Kind: yaml.MappingNode})
	}
	if t.Optional {
		e.add("required", r.boolN(false))
	} else if r.optAs(r.defaults, 6) {
		e.add("required", r.boolN(true))
	}
	if t.XML != nil {
		e.add("xml", r.xml(t.XML))
	}
	if len(t.Facets) > 0 {
		n := &yaml.Node{Kind: yaml.MappingNode}
		for _, f := range t.Facets {
			n.Content = append(n.Content, r.key(f.Name), r.named(f.Types))
		}
		e.add("facets", r.flowMaybe(n))
	} else if isExt(t.Kind) {
		empties("facets", &yaml.Node{Kind: yaml.MappingNode})
	}
	switch t.Kind {
	case kStr:
		str("pattern", t.Pattern)
		lim("minLength", t.MinLength, 0)
		uint("maxLength", t.MaxLength)
	case kFile:
		if len(t.FileTypes) > 0 {
			e.add("fileTypes", r.strSeq(t.FileTypes))
		}
		lim("minLength", t.MinLength, 0)
		lim("maxLength", t.MaxLength, fileMaxLen)
	case kInt:
		if t.Minimum != nil {
			e.add("minimum", r.intN(*t.Minimum))
		}
		if t.Maximum != nil {
			e.add("maximum", r.intN(*t.Maximum))
		}
	case kNum:
		if t.Minimum != nil {
			e.add("minimum", r.floatN(*t.Minimum))
		}
		if t.Maximum != nil {
			e.add("maximum", r.floatN(*t.Maximum))
		}
	case kArray:
		if t.UniqueItems {
			e.add("uniqueItems", r.boolN(true))
		} else if r.optAs(r.defaults, 8) {
			e.add("uniqueItems", r.boolN(false))
		}
		lim("minItems", t.MinItems, 0)
		lim("maxItems", t.MaxItems, arrayMaxItem)
		if t.Items != nil {
			e.add("items", r.td(t.Items))
		}
	case kObj:
		uint("minProperties", t.MinProps)
		uint("maxProperties", t.MaxProps)
		if t.Closed {
			e.add("additionalProperties", r.boolN(false))
		} else if r.optAs(r.defaults, 8) {
			e.add("additionalProperties", r.boolN(true))
		}
		str("discriminator", t.Discrim)
		if t.DiscrimVal != nil {
			e.add("discriminatorValue", r.node(t.DiscrimVal))
		}
		if len(t.Properties) > 0 {
			e.add("properties", r.named(t.Properties))
		} else if r.optAs(r.defaults, 8) {
			e.add("properties", &yaml.Node{Kind: yaml.MappingNode, Style: yaml.FlowStyle})
		}
	}
	if t.MultipleOf != nil {
		e.add("multipleOf", r.floatN(*t.MultipleOf))
	}
	str("format", t.Format)
	e.anns(t.Anns)
	e.extras(t.Extra)

	// The type itself.
	schema := r.strN(t.Schema)
	if t.Kind == kInc {
		schema = r.include(t.Schema)
	}
	if len(e.es) == 0 && !r.opt(5) {
		if t.Kind == kStr && r.opt(4) {
			return r.scalarNode(yNull())
		}
		return schema
	}
	has := func(keys ...string) bool {
		for _, x := range e.es {
			for _, k := range keys {
				if x.k.Value == k {
					return true
				}
			}
		}
		return false
	}
	inferable := false
	switch t.Kind {
	case kStr:
		inferable = !has("properties", "items")
	case kObj:
		inferable = has("properties")
	case kArray:
		inferable = has("items") && !has("properties")
	}
	if !inferable || !r.opt(3) {
		k := "type"
		if r.opt(4) {
			k = "schema"
		}
		e.add(k, schema)
	}
	return r.flowMaybe(e.mapping())
}

// doc renders a whole document; the second result is the header.
func (r R) doc(d *Doc) *yaml.Node {
	e := &entries{r: r}
	str := func(k string, s *string) {
		if s != nil {
			e.add(k, r.strN(*s))
		}
	}
	kys := func(k string, v []KY) {
		if len(v) > 0 || r.optAs(r.defaults, 12) {
			e.add(k, r.kys(v))
		}
	}
	strs := func(k string, v []string) {
		if len(v) > 0 {
			e.add(k, r.strSeq(v))
		}
	}
	if d.Lib {
		str("usage", d.Usage)
	} else {
		if d.Title != "" || !r.opt(2) {
			e.add("title", r.strN(d.Title))
		}
		str("version", d.Version)
		str("baseUri", d.BaseURI)
		str("description", d.Description)
		kys("baseUriParameters", d.BaseURIParams)
		strs("protocols", d.Protocols)
		if len(d.MediaTypes) == 1 && r.opt(2) {
			e.add("mediaType", r.strN(d.MediaTypes[0]))
		} else {
			strs("mediaType", d.MediaTypes)
		}
		strs("securedBy", d.SecuredBy)
		if len(d.Docs) > 0 {
			n := &yaml.Node{Kind: yaml.SequenceNode}
			for _, x := range d.Docs {
				de := &entries{r: r}
				de.add("title", r.strN(x.Title))
				if x.Include {
					de.add("content", r.include(x.Content))
				} else {
					de.add("content", r.strN(x.Content))
				}
				de.extras(x.Extra)
				n.Content = append(n.Content, de.mapping())
			}
			e.add("documentation", r.flowMaybe(n))
		}
		for _, x := range d.Resources {
			e.addG(3, r.key(x.Key), r.untyped(x.Val))
		}
	}
	if len(d.Types) > 0 || r.optAs(r.defaults, 12) {
		k := "types"
		if r.opt(4) {
			k = "schemas"
		}
		e.add(k, r.named(d.Types))
	}
	kys("traits", d.Traits)
	kys("resourceTypes", d.ResourceTypes)
	kys("annotationTypes", d.AnnotationTypes)
	kys("securitySchemes", d.SecuritySchemes)
	e.anns(d.Anns)
	if len(d.Uses) > 0 {
		n := &yaml.Node{Kind: yaml.MappingNode}
		for _, x := range d.Uses {
			n.Content = append(n.Content, r.key(x.Key), r.strN(x.Val))
		}
		e.add("uses", r.flowMaybe(n))
	}
	e.extras(d.Extra)
	return r.flowMaybe(e.mapping())
}

// text renders a document as text.  It returns "" when the YAML library does not
// carry the document over faithfully, which is no concern of the library under
// test.
func (r R) text(d *Doc) string {
	if !r.plain && r.p(5) {
		r.opaque = map[*yaml.Node]bool{}
	}
	n := r.doc(d)
	want := fromNode(n)
	if r.opaque != nil {
		r.addAliases(n)
	}
	if r.opt(6) {
		r.addTags(n, 1+r.n(30))
	}
	indent := 2
	if r.opt(4) {
		indent = 4
	}
	body, err := encodeNode(n, indent)
	if err != nil {
		return ""
	}
	head := "#%RAML 1.0"
	if d.Lib {
		head += " Library"
	}
	head += "\n"
	if r.opt(3) {
		head += "---\n"
	} else if r.opt(5) {
		head += "# a comment\n\n"
	} else if r.opt(6) {
		head = ""
	} else if r.opt(6) {
		head += pick(r.G, []string{"%YAML 1.2\n---\n", "%YAML 1.1\n--- # a comment\n", "%TAG !x! tag:x.org,2000:\n---\n", "\n\n---\n"})
	}
	if head != "" && r.opt(8) && r.p(8) && r.p(6) {
		head += padding(r.G) // a long document
	}
	text := head + string(body)
	if !yamlFaithful([]byte(text), want) {
		return ""
	}
	if r.opt(4) {
		text = r.respell(text, want)
	}
	return text
}

// respell rewrites a text in ways in which the YAML library never writes it.
func (r R) respell(text string, want *Y) string {
	for i := r.n(3); i >= 0; i-- {
		lines := strings.SplitAfter(text, "\n")
		k := 1 + r.n(4) // one place in k
		switch way := r.even(7); way {
		case 0: // empty block scalars
			for i, l := range lines {
				b := strings.TrimRight(l, "\r\n")
				if t := strings.TrimSuffix(strings.TrimSuffix(b, `""`), `''`); len(t) != len(b) && t != "" && r.p(k) {
					lines[i] = t + pick(r.G, []string{"|", ">", "|-", ">-", "|+", ">2", "| # none"}) + l[len(b):]
				}
			}
		case 1: // comments at the end of lines
			for i, l := range lines[1:] {
				if b := strings.TrimRight(l, "\r\n"); b != "" && r.p(k) {
					lines[i+1] = b + " # " + pick(r.G, []string{"a comment", "x: y", "TODO", "#"}) + l[len(b):]
				}
			}
		case 2, 3: // comments and blank lines between lines
			for i, l := range lines[1:] {
				if r.p(k) {
					ind := l[:len(l)-len(strings.TrimLeft(l, " "))]
					if way == 2 {
						l = ind + pick(r.G, []string{"# a comment", "# x: y", "#", "# - z"}) + "\n" + l
					} else {
						l = pick(r.G, []string{"\n", ind + "\n", "\n\n"}) + l
					}
					lines[i+1] = l
				}
			}
		case 4: // the line ends of other systems
			for i, l := range lines {
				if strings.HasSuffix(l, "\n") && !strings.HasSuffix(l, "\r\n") {
					lines[i] = l[:len(l)-1] + "\r\n"
				}
			}
		case 5: // another end
			lines = append(lines, pick(r.G, []string{"...\n", "# the end", "\n\n", "...\n# the end\n", "    \n"}))
		case 6: // no line end at the end
			if l := &lines[len(lines)-1]; *l == "" && len(lines) > 1 {
				l = &lines[len(lines)-2]
				*l = strings.TrimRight(*l, "\r\n")
			}
		}
		// A change that does not leave the tree as it was is none.
		if t := strings.Join(lines, ""); yamlFaithful([]byte(t), want) && !lostComment(t) {
			text = t
		}
	}
	return text
}

// lostComment tells whether there are comments where the YAML library loses them or
// writes them into whatever comes next: at empty values, at the beginning of blocks
// and in mappings with keys that are no plain words.
func lostComment(text string) bool {
	var n yaml.Node
	if yaml.Unmarshal([]byte(text), &n) != nil {
		return true
	}
	odd, found := false, false
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		if n.Kind != yaml.DocumentNode && n.HeadComment+n.LineComment+n.FootComment != "" {
			found = true
			switch {
			case n.Kind == yaml.ScalarNode:
				odd = odd || n.Value == "" && n.Style&^yaml.TaggedStyle == 0
			case n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode:
				odd = odd || n.Style&yaml.FlowStyle == 0 && n.LineComment != ""
			}
		}
		for i, c := range n.Content {
			if n.Kind == yaml.MappingNode && i%2 == 0 {
				odd = odd || c.Kind != yaml.ScalarNode || len(c.Value) > 100 || strings.ContainsAny(c.Value, "\n\r\u0085\u2028\u2029")
			}
			walk(c)
		}
	}
	walk(&n)
	return odd && found
}

// padding is a long comment, of one line or of many.
func padding(g *G) string {
	n := pick(g, []int{1 << 12, 1 << 13, 1 << 15, 1 << 16, 1<<16 + 7, 1 << 17}) + g.n(200) - 100
	if g.coin() {
		return "# " + strings.Repeat("x", n) + "\n"
	}
	return strings.Repeat("# a comment\n", n/12)
}

// yamlFaithful tells whether the YAML library reads the text as the tree, and
// still does after writing what it read and the tree itself.
func yamlFaithful(text []byte, want *Y) bool {
	for _, indent := range []int{2, 4} {
		y, ok, err := decodeTree(text)
		if !ok || err != nil || !y.equal(want) {
			return false
		}
		var n yaml.Node
		if yaml.Unmarshal(text, &n) != nil {
			return false
		}
		out, err := encodeNode(&n, indent)
		if err != nil {
			return false
		}
		y, ok, err = decodeTree(out)
		if !ok || err != nil || !y.equal(want) {
			return false
		}
		out, err = encodeNode(want.toNode(), indent)
		if err != nil {
			return false
		}
		y, ok, err = decodeTree(out)
		if !ok || err != nil || !y.equal(want) {
			return false
		}
	}
	return true
}
