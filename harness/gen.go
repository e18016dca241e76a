package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// G draws reference models.  All random choices go through rapid.
type G struct {
	t *rapid.T
	// budget bounds the total number of type declarations of one document
	budget int
	// simple restricts strings and names to plain identifiers
	simple bool
	// focus, when set, raises the frequency of the facet groups it names
	focus string
	// untagged leaves mappings and sequences without tags of their own
	untagged bool
	// big names the one dimension, if any, in which the document is large
	big     string
	bigLeft int // how many times yet
	// drawn holds some of the texts drawn so far, which are drawn again now and
	// then: what is alike at two places is often what matters
	drawn []string
	// trees holds some of the opaque values drawn so far
	trees []*Y
	// tds holds some of the types drawn so far
	tds []*TD
	// typeds, ints, uints and floats hold the last few values drawn
	typeds map[string][]*Y
	ints   []int64
	uints  []uint64
	floats []float64
	// lastName is the last name drawn
	lastName string
}

// keep adds a value to those to draw again.
func keep[T any](l []T, v T) []T {
	if len(l) >= 4 {
		l = append([]T(nil), l[1:]...)
	}
	return append(l, v)
}

func newG(t *rapid.T) *G {
	g := &G{t: t, budget: 14, bigLeft: 2, typeds: map[string][]*Y{}}
	if g.p(24) {
		g.big = pick(g, []string{"count", "depth", "text"})
		if g.big != "text" {
			g.budget = 60
		}
	}
	return g
}

// upTo draws a number of things.
func (g *G) upTo(max int) int {
	if g.big == "count" && g.bigLeft > 0 && g.p(4) {
		g.bigLeft--
		return 5 + g.n(70)
	}
	return g.n(max + 1)
}

// from1 draws a positive number of things.
func (g *G) from1(max int) int { return 1 + g.upTo(max-1) }

// deeper draws how deep a value may be.
func (g *G) deeper(depth int) int {
	if g.big == "depth" && g.bigLeft > 0 && g.coin() {
		g.bigLeft--
		return depth + 4 + g.n(26)
	}
	return depth
}

var idxGens [257]*rapid.Generator[int]

func init() {
	for i := range idxGens {
		if i > 0 {
			idxGens[i] = rapid.IntRange(0, i-1)
		}
	}
}

func (g *G) n(max int) int {
	if max <= 1 {
		return 0
	}
	if max >= len(idxGens) {
		return rapid.IntRange(0, max-1).Draw(g.t, "n")
	}
	return idxGens[max].Draw(g.t, "n")
}

var coin = rapid.Bool()

func (g *G) coin() bool { return coin.Draw(g.t, "b") }

// even draws a number less than max without preferring the small ones.
func (g *G) even(max int) int {
	k := 0
	for m := 1; m < 2*max; m *= 2 {
		k *= 2
		if g.coin() {
			k++
		}
	}
	return k % max
}

// p is true about once in k draws, and shrinks to false.
func (g *G) p(k int) bool { return g.n(k) == k-1 }

func pick[T any](g *G, v []T) T { return v[g.n(len(v))] }

// opt is p, with certainty when the group is in focus.
func (g *G) opt(group string, k int) bool {
	if g.focus == group || (g.focus == "opaque" && (group == "ann" || group == "extra" || group == "section")) {
		return !g.p(4)
	}
	return g.p(k)
}

var tricky = []string{
	"", " ", "a b", "true", "False", "null", "~", "Null", "NULL", "yes", "no", "on", "off", "y", "n",
	"1", "-1", "1.5", "0x1F", "0o17", "017", "1_000", "1e3", ".inf", "-.inf", ".nan", "+1", "190:20:30",
	"2020-01-01", "2020-01-01T10:00:00Z", "10:00:00", "!include x.raml", "!tag", "#c", "a #c", "a: b",
	"- x", "-", "?", ":", "key:", "? x", "[a]", "{a: b}", "[", "]", "{", "}", ",", "'", "\"", "it's", "say \"x\"",
	"|", ">", "|-", "&a", "*a", "%x", "@a", "`", "=", "\\", "\\n", "a\tb", "\ta", "multi\nline", "multi\nline\n",
	"a\n\nb\n\n", "trailing ", " leading", "\n", "\nx", "é", "日本語", "\U0001F600", "\u00a0", "x\u2028y", "\ufeffx",
	"(a)", "/a", "type", "properties", "items", "value", "default", "---", "...", "--- x", "a---", "\x01", "\x7f",
	"string", "integer", "string | nil", "string[]", "(string | nil)[]", "lib.Type", "application/json", "^\\d{3}$",
	"#%RAML 1.0", "https://example.com/{v}?a=b&c=d#f", "a,b", "%", "a%", "0", "00", "-0", "0.0", "1.", ".5", "1e",
	"a:b", "a :b", ": a", "a:", "-a", "- ", "--", "<<x", "null ", "TRUE", "Yes",
	"a\r\nb", "a\r", "a\rb", "<<x>>", "<<resourcePath>>", "{version}", "http://a/{version}", "https://a//", "HTTPS://A/B",
	"{a}/{b}", "http://[", "%zz", "$ref", "http://a.b/c?d#e", "NaN", "Inf", "+Inf", "infinity", "1e999", "1e400", "Off", "T", "F", "t",
	"f", "None", "undefined", "nil", "<nil>", "0b1", "1,5", "1/2", "①", "İ", "ǅ", "\u0301a", "a\u0301", "á",
}

const longText = "lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore " +
	"et dolore magna aliqua: ut enim ad minim veniam, quis nostrud exercitation"

var identRunes = []rune("abcdefghijklmnopqrstuvwxyzABCXYZ0189_-.")
var anyRunes = append([]rune(" \t\n!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"), []rune("abcXYZ019éß日\u00a0\U0001F600\u2028\u0085")...)

func (g *G) runes(set []rune, min, max int) string {
	k := min + g.n(max-min+1)
	var b strings.Builder
	for i := 0; i < k; i++ {
		b.WriteRune(pick(g, set))
	}
	return b.String()
}

func (g *G) ident() string {
	return string(pick(g, identRunes[:26])) + g.runes(identRunes, 0, 5)
}

func (g *G) idents(n int) (out []string) {
	for ; n > 0; n-- {
		out = append(out, g.ident())
	}
	return
}

// str draws an arbitrary string value.
func (g *G) str() string {
	if g.simple {
		return g.ident()
	}
	s := g.str0()
	if g.big == "text" && g.bigLeft > 0 && g.p(4) {
		g.bigLeft--
		s += g.runes(anyRunes, 0, 40)
		max := 3000
		if g.p(3) {
			max = 70000
		}
		for n := 1 + g.n(60); n > 0; n-- {
			s += pick(g, []string{" ", " ", "-", "\n", ", "}) + pick(g, []string{longText, s, g.ident()})
			if len(s) > max {
				break
			}
		}
		s = strings.TrimRight(s, "\n") // long runs of line ends are the YAML library's business
	}
	if strings.Contains(s, "\n") && strings.ContainsAny(s[:1], " \t\n") {
		// The YAML library does not always write these in a form that it reads back.
		s = "x" + s
	}
	return s
}

func (g *G) str0() string {
	s := g.str1()
	if len(g.drawn) < 48 && len(s) < 80 {
		g.drawn = append(g.drawn, s)
	}
	return s
}

// again is a text that was drawn before, or one that is made of it.
func (g *G) again() string {
	s := pick(g, g.drawn)
	switch g.n(12) {
	case 6:
		return "{" + s + "}"
	case 7:
		return "http://" + g.ident() + "/{" + s + "}/"
	case 8:
		return strings.ToUpper(s)
	case 9:
		return s + pick(g, []string{"/", " ", "?", "s", "[]", "\r\n", "."})
	case 10:
		return pick(g, []string{"/", " ", "-", "lib.", "<<"}) + s
	case 11:
		return s + s
	}
	return s
}

func (g *G) str1() string {
	switch g.n(8) {
	case 6:
		if len(g.drawn) > 0 {
			return g.again()
		}
		return g.ident()
	case 7:
		return pick(g, words)
	case 0, 1:
		return g.ident()
	case 2, 3:
		return pick(g, tricky)
	case 4:
		return g.runes(anyRunes, 0, 10)
	default:
		if g.p(4) {
			return longText[:20+g.n(len(longText)-20)]
		}
		return g.ident() + " " + g.str()
	}
}

func (g *G) strp() *string { s := g.str(); return &s }

// name draws a map key that is not in used, and adds it.
func (g *G) name(used map[string]bool, ok func(string) bool) string {
	for i := 0; ; i++ {
		var s string
		if i < 4 && g.p(3) {
			s = g.str()
		} else if i < 4 && !g.simple && len(g.drawn) > 0 && g.p(10) {
			s = g.again()
		} else if i < 2 && !g.simple && g.lastName != "" && g.p(8) {
			s = g.like(g.lastName)
		} else {
			s = g.ident()
		}
		if i > 6 {
			s += strconv.Itoa(i)
		}
		if g.p(16) {
			s += pick(g, []string{"?", "[]", "/", "//", ")", " "})
		}
		if used[s] || (ok != nil && !ok(s)) || s == "<<" {
			continue
		}
		used[s] = true
		g.lastName = s
		return s
	}
}

func (g *G) i64() int64 {
	if len(g.ints) > 0 && g.p(6) {
		return pick(g, g.ints) + int64(g.n(3)) - 1
	}
	v := g.i64New()
	g.ints = keep(g.ints, v)
	return v
}

func (g *G) i64New() int64 {
	switch g.n(5) {
	case 0:
		return int64(g.n(12)) - 2
	case 1:
		return int64(g.n(256)) * 1001
	case 2:
		return pick(g, []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 53, 1<<53 + 1,
			-(1<<53 + 1), 1 << 31, 1<<31 - 1, -1 << 31, 1<<32 + 1, 123456789012345678})
	default:
		return rapid.Int64().Draw(g.t, "i64")
	}
}

func (g *G) u64() uint64 {
	if len(g.uints) > 0 && g.p(6) {
		return pick(g, g.uints) + uint64(g.n(2))
	}
	v := g.u64New()
	g.uints = keep(g.uints, v)
	return v
}

func (g *G) u64New() uint64 {
	switch g.n(5) {
	case 0:
		return uint64(g.n(12))
	case 1:
		return uint64(g.n(256)) * 1001
	case 2:
		return pick(g, []uint64{math.MaxUint64, math.MaxUint64 - 1, math.MaxInt64, math.MaxInt64 + 1, 1 << 53, 1<<53 + 1,
			1 << 31, 1<<31 - 1, 1 << 32, 0, 2147483646, 2147483648})
	default:
		return rapid.Uint64().Draw(g.t, "u64")
	}
}

func (g *G) f64() float64 {
	if len(g.floats) > 0 && g.p(6) {
		return pick(g, g.floats)
	}
	v := g.f64New()
	g.floats = keep(g.floats, v)
	return v
}

func (g *G) f64New() float64 {
	switch g.n(6) {
	case 0:
		return float64(g.n(12)) - 2
	case 1:
		return float64(g.n(256))/8 + float64(g.n(3))*1e6
	case 2:
		return pick(g, []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1),
			math.Inf(-1), math.NaN(), math.Copysign(0, -1), 0.1, 1.0 / 3, 1e21, 1e20, 123456789.123456789, 1e-7,
			1 << 53, 1<<53 + 2, 9007199254740993e3, 3.4028234663852886e38, 1e100, 16777217, 0.30000000000000004})
	case 3:
		return float64(g.i64())
	default:
		return rapid.Float64().Draw(g.t, "f64")
	}
}

func (g *G) u64p() *uint64 { v := g.u64(); return &v }
func (g *G) f64p() *string { v := fltText(g.f64()); return &v }
func (g *G) i64p() *string { v := strconv.FormatInt(g.i64(), 10); return &v }

// Only the first three can be written in flow style without quotes.
var timestamps = []string{"2020-01-01", "2015-05-23", "2001-1-2", "2016-02-28T16:41:41.090Z", "2001-12-15 2:59:43.10",
	"1999-12-31T23:59:59+01:00"}

// date draws the text of a date, a time or both.
func (g *G) date() string {
	if g.p(4) {
		return pick(g, append([]string{"12:30:00", "2015-07-04T21:00:00", "Sun, 28 Feb 2016 16:41:41 GMT", "12:30:00.5"},
			timestamps...))
	}
	two := func(max int) string { return fmt.Sprintf("%02d", g.n(max)) }
	day := fmt.Sprintf("%04d-%02d-%02d", pick(g, []int{1, 999, 1600, 1969, 1970, 1999, 2000, 2020, 2024, 9999}), 1+g.n(12),
		1+g.n(28))
	tim := two(24) + ":" + two(60) + ":" + two(60)
	if g.p(3) {
		tim += "." + g.runes([]rune("0123456789"), 1, 9)
	}
	switch g.n(4) {
	case 0:
		return day
	case 1:
		return tim
	}
	return day + pick(g, []string{"T", "T", "T", "t", " "}) + tim +
		pick(g, []string{"Z", "", "+00:00", "-00:00", "+05:30", "-11:00", "z", "+14:00", " +01:00"})
}

func isTimestamp(s string) bool {
	return (&yaml.Node{Kind: yaml.ScalarNode, Value: s}).ShortTag() == "!!timestamp"
}

var customTags = []string{"!include", "!foo", "!ruby/object:Foo", "!x.y"}

// scalar draws an untyped scalar.
func (g *G) scalar() *Y {
	switch g.n(10) {
	case 0, 1, 2:
		return yStr(g.str())
	case 3:
		return yInt(g.i64())
	case 4:
		return yBool(g.coin())
	case 5:
		return yFlt(g.f64())
	case 6:
		return yNull()
	case 7:
		for i := 0; i < 3; i++ {
			// The YAML library does not keep times in flow collections.
			if d := g.date(); isTimestamp(d) && (!strings.Contains(d, ":") || g.p(6)) {
				return &Y{K: "s", T: "!!timestamp", V: d}
			}
		}
		return &Y{K: "s", T: "!!timestamp", V: pick(g, timestamps[:3])}
	case 8:
		if g.coin() {
			return yUint(g.u64())
		}
		return &Y{K: "s", T: "!!int", V: "123456789012345678901234567890"}
	default:
		return &Y{K: "s", T: pick(g, customTags), V: g.ident()}
	}
}

// opaque draws an arbitrary YAML value.
func (g *G) opaque(depth int) *Y {
	if len(g.trees) > 0 && g.p(8) {
		return pick(g, g.trees)
	}
	y := g.opaqueAt(g.deeper(depth))
	if len(g.trees) < 24 && y.size() < 12 {
		g.trees = append(g.trees, y)
	}
	return y
}

func (g *G) opaqueAt(depth int) *Y {
	if depth <= 0 || (depth < 4 && g.n(3) == 0) {
		return g.scalar()
	}
	n, last := g.upTo(3), depth-1
	if depth >= 4 {
		// only one branch is deep
		n = 1 + g.n(2)
		last = 1
	}
	next := func(i int) int {
		if i == 0 {
			return depth - 1
		}
		return last
	}
	if g.coin() {
		o := yMap()
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			var key *Y
			switch g.n(8) {
			case 6:
				key = yInt(int64(g.n(30)))
			case 7:
				if depth > 1 && g.p(6) {
					key = yList(yInt(int64(i)), yStr("k"))
				} else {
					key = yBool(g.coin())
				}
			default:
				if w := pick(g, words); g.p(3) && !used[w] {
					used[w] = true
					key = yStr(w)
				} else {
					key = yStr(g.name(used, nil))
				}
			}
			if key.K == "s" && key.T != "!!str" {
				if used[key.V] {
					continue
				}
				used[key.V] = true
			}
			o.C = append(o.C, key, g.opaqueAt(next(i)))
		}
		if g.p(12) && !g.untagged {
			o.T = "!foo"
		}
		return o
	}
	o := yList()
	for i := 0; i < n; i++ {
		if i == 1 && g.p(12) {
			o.C = append(o.C, o.C[0])
			continue
		}
		o.C = append(o.C, g.opaqueAt(next(i)))
	}
	if g.p(12) && !g.untagged {
		o.T = "!bar"
	}
	return o
}

// typeText draws the text of a union or custom type.
func (g *G) typeText(kind string) string {
	if kind == kUnion {
		if g.p(6) {
			return pick(g, []string{"|", "a|", "|b", "(string | nil)[]", "a | b | c", "string|nil", " | "})
		}
		return g.ident() + pick(g, []string{" | ", "|"}) + pick(g, []string{"nil", "string", "Foo", "lib.Bar"})
	}
	if kind == kInc {
		return pick(g, []string{"types/a.raml", "b.raml", "../c.xsd", "x y.json", "schema.json#/a", "a"})
	}
	if g.p(5) {
		s := g.str()
		ok := !strings.Contains(s, "|") && !strings.HasPrefix(s, "!include ")
		for _, k := range builtinKinds {
			ok = ok && s != k
		}
		if ok {
			return s
		}
	}
	return pick(g, []string{"Foo", "string[]", "lib.Type", "Integer", "any ", "integer[]", "multi", "union", "custom",
		"include", "Object", "datetimeonly", "null", "{}", "[]", "{\"type\": \"string\"}"}) + pick(g, []string{"", "X", "[]"})
}

func (g *G) anns(depth, k int) (out []Ann) {
	if !g.opt("ann", k) {
		return nil
	}
	used := map[string]bool{}
	for i, n := 0, g.from1(3); i < n; i++ {
		a := Ann{Name: "(" + g.ident() + ")"}
		if g.p(6) {
			a.Name = pick(g, []string{"(", "()", "(a b)", "(a.b)", "(x", "(\"q\")", "(type)", "(é)", "((n))"})
		}
		if used[a.Name] {
			continue
		}
		used[a.Name] = true
		a.Fields = g.kys(depth, 3, map[string]bool{}, nil)
		out = append(out, a)
	}
	return out
}

// kys draws an ordered map of untyped values.
func (g *G) kys(depth, max int, used map[string]bool, ok func(string) bool) (out []KY) {
	for i, n := 0, g.upTo(max); i < n; i++ {
		if i > 0 && g.p(8) {
			out = append(out, KY{g.name(used, ok), out[g.n(i)].Val})
			continue
		}
		out = append(out, KY{g.name(used, ok), g.opaque(depth)})
	}
	return out
}

// misleading are facet names that mean something elsewhere in a document.
var misleading = []string{"items", "properties", "pattern", "minimum", "maxLength", "minItems", "format", "fileTypes",
	"discriminator", "value", "strict", "title", "usage", "types", "uses", "content", "attribute", "name", "mediaType",
	"baseUri", "protocols", "traits", "displayname", "Type", "examples ", "required ", "enum", "default", "facets", "xml",
	"example", "additionalProperties", "uniqueItems", "multipleOf", "description", "displayName", "version", "type",
	"schema", "schemas", "required", "securedBy", "documentation", "get", "post", "1", "true", "42", "-7", "false"}

// words are the words that occur in the uninterpreted parts of a document.
var words = append([]string{"type", "type", "get", "post", "body", "responses", "headers", "queryParameters", "is",
	"describedBy", "settings", "(a)", "/sub", "/{id}", "application/json", "200", "value", "items?", "<<name>>"}, misleading...)

func (g *G) extras(known map[string]bool, bad string, k int) (out []KY) {
	if !g.opt("extra", k) {
		return nil
	}
	used := map[string]bool{}
	ok := func(s string) bool {
		return !known[s] && (s == "" || !strings.Contains(bad, s[:1]))
	}
	for i, n := 0, g.from1(3); i < n; i++ {
		if i > 0 && g.p(4) {
			// a name that hardly differs from the last, often with a value that does not either
			last := out[len(out)-1]
			m := g.like(last.Key)
			v := g.opaque(2)
			if g.coin() {
				v = yStr(strconv.Itoa(g.n(20)))
				if last.Val.K == "s" && last.Val.T == "!!str" {
					v = yInt(int64(g.n(20)))
				}
			}
			if ok(m) && !used[m] {
				used[m] = true
				out = append(out, KY{m, v})
				continue
			}
		}
		if g.coin() {
			m := pick(g, misleading)
			if ok(m) && !used[m] {
				used[m] = true
				out = append(out, KY{m, g.opaque(2)})
				continue
			}
		}
		out = append(out, KY{g.name(used, ok), g.opaque(2)})
	}
	return out
}

// like changes a text a little.
func (g *G) like(s string) string {
	switch g.even(5) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		r := []rune(s)
		if len(r) > 0 {
			i := g.n(min(len(r), 100))
			if r[i] = unicode.ToUpper(r[i]); string(r) == s {
				r[i] = unicode.ToLower(r[i])
			}
		}
		return string(r)
	case 3:
		return s + pick(g, []string{" ", "?", "s", "-", "_"})
	}
	return " " + s
}

// typed draws a value for the default, enum or example facet.
func (g *G) typed(kind string) *Y {
	if seen := g.typeds[kind]; len(seen) > 0 && g.p(5) {
		return pick(g, seen)
	}
	y := g.typed1(kind)
	g.typeds[kind] = keep(g.typeds[kind], y)
	return y
}

func (g *G) typed1(kind string) *Y {
	switch vClass(kind) {
	case "bool":
		return yBool(g.coin())
	case "string":
		if isDateKind(kind) && !g.p(4) {
			return yStr(g.date())
		}
		return yStr(g.str())
	case "int":
		return yInt(g.i64())
	case "float":
		return yFlt(g.f64())
	case "list":
		o := yList()
		for i, n := 0, g.upTo(4); i < n; i++ {
			o.C = append(o.C, g.opaque(2))
		}
		return o
	}
	return g.opaque(2)
}

func (g *G) example(kind string) *Ex {
	ex := &Ex{}
	if !g.p(6) {
		ex.Value = g.typed(kind)
	}
	if g.focus != "example" && g.coin() {
		return ex
	}
	if g.p(4) {
		ex.DisplayName = g.strp()
	}
	if g.p(4) {
		ex.Description = g.strp()
	}
	if g.p(4) {
		ex.Lenient = true
	}
	ex.Anns = g.anns(1, 5)
	ex.Extra = g.extras(exKeys, "(", 5)
	return ex
}

func (g *G) xml() *Xml {
	x := &Xml{}
	if g.coin() {
		b := g.coin()
		x.Attribute = &b
	}
	if g.coin() {
		b := g.coin()
		x.Wrapped = &b
	}
	if g.coin() {
		x.Name = g.strp()
	}
	if g.p(3) {
		x.Namespace = g.strp()
	}
	if g.p(3) {
		x.Prefix = g.strp()
	}
	x.Extra = g.extras(xmlKeys, "", 4)
	return x
}

func (g *G) kind() string {
	// string last so that it is not preferred by the bias to small indexes
	return pick(g, spreadKinds)
}

var spreadKinds = []string{kObj, kArray, kInt, kNum, kStr, kAny, kBool, kFile, kUnion, kCustom, kDate, kTime, kDtOnly,
	kDt, kNil, kInc}

func (g *G) named(depth, min, max int) (out []Named) {
	used := map[string]bool{}
	for i, n := 0, min+g.upTo(max-min); i < n; i++ {
		out = append(out, Named{g.name(used, nil), g.td(depth)})
	}
	return out
}

// td draws a type declaration.
func (g *G) td(depth int) *TD {
	if len(g.tds) > 0 && g.p(12) {
		return clone(pick(g, g.tds)) // the same again
	}
	return g.tdOf(g.kind(), depth)
}

func (g *G) tdOf(kind string, depth int) *TD {
	t := g.tdOf1(kind, depth)
	if len(g.tds) < 10 && depth < 3 && t.small(8) > 0 {
		g.tds = append(g.tds, t)
	}
	return t
}

// small is what is left of a number of types when those of t are taken away.
func (t *TD) small(left int) int {
	left--
	for _, p := range t.Properties {
		left = p.Type.small(left)
	}
	for _, f := range t.Facets {
		for _, p := range f.Types {
			left = p.Type.small(left)
		}
	}
	if t.Items != nil {
		left = t.Items.small(left)
	}
	return left
}

func (g *G) tdOf1(kind string, depth int) *TD {
	g.budget--
	t := &TD{Kind: kind, Schema: kind}
	if kind == kUnion || kind == kCustom || kind == kInc {
		t.Schema = g.typeText(kind)
	}
	if g.p(5) && g.focus == "" {
		return t // a bare type
	}
	t.Optional = g.p(4)
	bad := "("
	if !isExt(kind) {
		bad = ""
	}
	t.Extra = g.extras(knownTypeKeys(kind), bad, 4)
	if !isExt(kind) {
		return t
	}
	if g.p(4) {
		t.DisplayName = g.strp()
	}
	if g.p(4) {
		t.Description = g.strp()
	}
	if g.opt("value", 4) {
		t.Default = g.typed(kind)
	}
	if g.opt("value", 4) {
		for i, n := 0, g.from1(3); i < n; i++ {
			t.Enum = append(t.Enum, g.typed(kind))
		}
	}
	if g.opt("example", 3) {
		t.Example = g.example(kind)
	}
	if g.opt("example", 5) {
		used := map[string]bool{}
		for i, n := 0, g.from1(3); i < n; i++ {
			t.Examples = append(t.Examples, NamedEx{g.name(used, nil), g.example(kind)})
		}
	}
	t.Anns = g.anns(2, 5)
	if g.p(6) {
		t.XML = g.xml()
	}
	if depth > 0 && g.budget > 0 && g.p(6) {
		used := map[string]bool{}
		for i, n := 0, g.from1(2); i < n; i++ {
			t.Facets = append(t.Facets, Facet{g.name(used, nil), g.named(depth-1, 0, 2)})
		}
	}
	const k = 3
	switch kind {
	case kStr:
		if g.opt("kind", k) {
			t.Pattern = g.strp()
		}
		t.MinLength = g.lim("kind", k, 0)
		if g.opt("kind", k) {
			t.MaxLength = g.u64p()
		}
	case kFile:
		if g.opt("kind", k) {
			for i, n := 0, g.from1(3); i < n; i++ {
				t.FileTypes = append(t.FileTypes, g.str())
			}
		}
		t.MinLength = g.lim("kind", k, 0)
		t.MaxLength = g.lim("kind", k, fileMaxLen)
	case kInt:
		if g.opt("kind", k) {
			t.Minimum = g.i64p()
		}
		if g.opt("kind", k) {
			t.Maximum = g.i64p()
		}
		if g.opt("kind", k) {
			t.MultipleOf = g.f64p()
		}
		t.Format = g.format(k, "int8", "int16", "int32", "int64", "int", "long")
	case kNum:
		if g.opt("kind", k) {
			t.Minimum = g.f64p()
		}
		if g.opt("kind", k) {
			t.Maximum = g.f64p()
		}
		if g.opt("kind", k) {
			t.MultipleOf = g.f64p()
		}
		t.Format = g.format(k, "float", "double", "int8", "int16", "int32", "int64", "int", "long")
	case kDt:
		t.Format = g.format(k, "rfc3339", "rfc2616")
	case kArray:
		t.UniqueItems = g.opt("kind", k)
		t.MinItems = g.lim("kind", k, 0)
		t.MaxItems = g.lim("kind", k, arrayMaxItem)
		if g.opt("kind", 2) && depth > 0 && g.budget > 0 {
			t.Items = g.td(depth - 1)
		}
	case kObj:
		if g.opt("kind", k) {
			t.MinProps = g.u64p()
		}
		if g.opt("kind", k) {
			t.MaxProps = g.u64p()
		}
		t.Closed = g.opt("kind", k)
		if g.opt("kind", k) {
			t.Discrim = g.strp()
		}
		if g.opt("kind", k) {
			t.DiscrimVal = g.opaque(2)
		}
		if depth > 0 && g.budget > 0 && !g.p(3) {
			max := 4
			if depth > 4 {
				max = 2
			} else if depth > 0 && g.p(10) {
				max = 9
			}
			t.Properties = g.named(depth-1, 1, max)
			if t.Discrim != nil && g.coin() {
				*t.Discrim = pick(g, t.Properties).Name
			}
		}
	}
	g.shape(t)
	return t
}

// shape leaves only one or two facets of some types, and makes facets of others equal.
func (g *G) shape(t *TD) {
	switch g.n(6) {
	case 5:
		v := reflect.ValueOf(t).Elem()
		var set []int
		for i := 2; i < v.NumField(); i++ {
			if !v.Field(i).IsZero() {
				set = append(set, i)
			}
		}
		if len(set) < 2 {
			return
		}
		a, b := pick(g, set), pick(g, set)
		for _, i := range set {
			if i != a && i != b {
				v.Field(i).SetZero()
			}
		}
	case 4:
		g.echo(&t.DisplayName, &t.Description)
		g.echo(&t.Minimum, &t.Maximum)
		for _, p := range [][2]**uint64{{&t.MinLength, &t.MaxLength}, {&t.MinItems, &t.MaxItems}, {&t.MinProps, &t.MaxProps}} {
			if *p[0] == nil || *p[1] == nil {
				continue
			}
			if lim := **p[0]; lim != 0 && lim != fileMaxLen && lim != arrayMaxItem {
				v := lim
				*p[1] = &v
			}
		}
		if t.Default != nil && len(t.Enum) > 0 {
			t.Enum[g.n(len(t.Enum))] = t.Default
		}
		if t.Default != nil && t.Example != nil && t.Example.Value != nil {
			t.Example.Value = t.Default
		}
	}
}

func (g *G) echo(a, b **string) {
	if *a != nil && *b != nil {
		v := **a
		*b = &v
	}
}

// lim draws a limit that is not the default.
func (g *G) lim(group string, k int, def uint64) *uint64 {
	if !g.opt(group, k) {
		return nil
	}
	v := g.u64()
	if v == def {
		return nil
	}
	return &v
}

func (g *G) format(k int, known ...string) *string {
	if !g.opt("kind", k) {
		return nil
	}
	if g.p(3) {
		return g.strp()
	}
	s := pick(g, known)
	return &s
}

func (g *G) strs(max int, known ...string) (out []string) {
	for i, n := 0, g.from1(max); i < n; i++ {
		if g.p(3) {
			out = append(out, g.str())
		} else {
			out = append(out, pick(g, known))
		}
	}
	return out
}

// doc draws a document.
func (g *G) doc(lib bool) *Doc {
	d := g.doc1(lib)
	if g.p(10) {
		g.enlarge(d)
	}
	if g.p(20) {
		g.swell(d)
	}
	if g.p(4) {
		g.repeat(d)
	}
	return d
}

// swell makes one list of a document long: a map, or a facet that is a list.
func (g *G) swell(d *Doc) {
	size := []int{9, 17, 33, 65, 101, 130, 257}[g.even(7)] + g.n(20)
	from := func(l []string) []string {
		base := append(l[:len(l):len(l)], "a", g.str(), "b-"+g.ident())
		for i := 0; len(l) < size; i++ {
			l = append(l, base[i%len(base)]+"-"+strconv.Itoa(i))
		}
		return l
	}
	switch g.even(8) {
	case 0:
		t := g.tdOf(kFile, 0)
		t.FileTypes = from(t.FileTypes)
		d.Types = append(d.Types, Named{"swollen", t})
	case 1, 2:
		t := g.tdOf(spreadKinds[g.even(len(spreadKinds))], 0)
		if !isExt(t.Kind) {
			return
		}
		for len(t.Enum) < 3 {
			t.Enum = append(t.Enum, g.typed(t.Kind))
		}
		for i, few := 0, len(t.Enum); len(t.Enum) < size; i++ {
			t.Enum = append(t.Enum, t.Enum[i%few])
		}
		d.Types = append(d.Types, Named{"swollen", t})
	case 3:
		if d.Lib {
			return
		}
		switch g.even(4) {
		case 0:
			d.MediaTypes = from(d.MediaTypes)
		case 1:
			d.SecuredBy = from(d.SecuredBy)
		default:
			for i := 0; len(d.Docs) < size; i++ {
				d.Docs = append(d.Docs, DocEntry{Title: "t" + strconv.Itoa(i), Content: g.lastName})
			}
		}
	default:
		ps := parts(nil, d)
		p := ps[g.pickPart(ps)]
		list := reflect.ValueOf(p.model).Elem()
		if list.Kind() != reflect.Slice {
			return
		}
		used := map[string]bool{}
		for i := 0; i < list.Len(); i++ {
			used[keyOf(list, i)] = true
		}
		var elems []interface{}
		var key string
		for i := 0; i < 3; i++ {
			k, v := g.partElem(p)
			if key == "" {
				key = k
			}
			elems = append(elems, v)
		}
		for i := 0; list.Len() < size; i++ {
			k := key + "_" + strconv.Itoa(i)
			if p.what == "annotations" {
				k = "(" + strconv.Itoa(i) + "_" + key[1:]
			}
			if used[k] {
				continue
			}
			x := reflect.New(list.Type().Elem())
			if err := json.Unmarshal([]byte(toJSON(elems[i%len(elems)])), x.Interface()); err != nil {
				panic(err)
			}
			x.Elem().Field(0).SetString(k)
			list.Set(reflect.Append(list, x.Elem()))
		}
	}
}

// repeat makes parts of a document the same as others.
func (g *G) repeat(d *Doc) {
	for i := 1; i < len(d.Docs); i++ {
		e, o := &d.Docs[i], d.Docs[g.n(i)]
		switch g.n(4) {
		case 0:
			e.Title = o.Title
		case 1:
			e.Content, e.Include = o.Content, o.Include
		case 2:
			*e = o
		}
	}
	for _, l := range []*[]string{&d.Protocols, &d.MediaTypes, &d.SecuredBy} {
		if len(*l) > 0 && g.coin() {
			*l = append(*l, pick(g, *l))
		}
	}
	if d.Version != nil && g.p(3) {
		if !d.Lib {
			d.Title = *d.Version
		}
	}
	g.echo(&d.Description, &d.BaseURI)
	if len(d.Docs) > 0 && g.p(3) {
		d.Docs[0].Title = d.Title
	}
	if len(d.Anns) > 1 && g.coin() {
		d.Anns[1].Fields = d.Anns[0].Fields
	}
	if len(d.Resources) > 0 && g.coin() {
		k := d.Resources[0].Key + pick(g, []string{"/", "x", "/{id}", "?", "/sub"})
		for _, r := range d.Resources {
			if r.Key == k {
				return
			}
		}
		d.Resources = append(d.Resources, KY{k, d.Resources[0].Val})
	}
}

func (g *G) doc1(lib bool) *Doc {
	d := &Doc{Lib: lib}
	if lib {
		if g.p(2) {
			d.Usage = g.strp()
		}
	} else {
		d.Title = g.str()
		if g.p(3) {
			d.Version = g.strp()
		}
		if g.p(3) {
			d.BaseURI = g.strp()
			if g.coin() {
				u := pick(g, []string{"http://", "https://", "HTTP://", "", "/"}) + pick(g, []string{"a.com", "{host}", "a.com:80",
					"u@a", ""}) + pick(g, []string{"", "/", "//", "/v{version}", "/{version}/", "/%7B", "/a?b={c}#d", "/{a}{b}"})
				d.BaseURI = &u
			}
		}
		if g.p(3) {
			d.Description = g.strp()
		}
		if g.opt("section", 4) {
			d.BaseURIParams = g.kys(2, 3, map[string]bool{}, nil)
		}
		if g.p(4) {
			d.Protocols = g.strs(3, "HTTP", "HTTPS")
		}
		if g.p(3) {
			d.MediaTypes = g.strs(3, "application/json", "application/xml", "text/plain")
		}
		if g.p(4) {
			d.SecuredBy = g.strs(3, "oauth_2_0", "basic")
		}
		if g.p(3) {
			for i, n := 0, g.from1(3); i < n; i++ {
				e := DocEntry{Title: g.str()}
				if g.p(4) {
					e.Include = true
					e.Content = g.typeText(kInc)
				} else {
					e.Content = g.str()
				}
				e.Extra = g.extras(docKeys, "", 4)
				d.Docs = append(d.Docs, e)
			}
		}
		if g.p(2) {
			used := map[string]bool{}
			for i, n := 0, g.from1(4); i < n; i++ {
				k := "/" + g.ident()
				if g.p(4) {
					k = pick(g, []string{"/", "/{id}", "/a/{b}/c", "/a b", "//", "/#x", "/é"})
				}
				if used[k] {
					continue
				}
				used[k] = true
				d.Resources = append(d.Resources, KY{k, g.opaque(3)})
			}
		}
	}
	if g.focus != "" || !g.p(8) {
		d.Types = g.named(g.deeper(3), 1, 4)
	}
	if g.opt("section", 4) {
		d.Traits = g.kys(2, 3, map[string]bool{}, nil)
	}
	if g.opt("section", 4) {
		d.ResourceTypes = g.kys(2, 3, map[string]bool{}, nil)
	}
	if g.opt("section", 4) {
		d.AnnotationTypes = g.kys(2, 3, map[string]bool{}, nil)
	}
	if g.opt("section", 4) {
		d.SecuritySchemes = g.kys(2, 3, map[string]bool{}, nil)
	}
	d.Anns = g.anns(2, 4)
	if g.p(3) {
		used := map[string]bool{}
		for i, n := 0, g.from1(4); i < n; i++ {
			d.Uses = append(d.Uses, KS{g.name(used, nil), g.str()})
		}
	}
	known, bad := apiKeys, "(/"
	if lib {
		known, bad = libKeys, "("
	}
	d.Extra = g.extras(known, bad, 3)
	return d
}
