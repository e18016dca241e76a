// Package harness holds the property checks for lib-go-raml.  It only uses the
// public API of the library.
package harness

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// Y is a YAML tree without presentation details: no styles, comments, anchors
// or positions.  Aliases are replaced by what they refer to.
type Y struct {
	K string `json:"k"`           // "s" scalar, "m" mapping, "l" sequence
	T string `json:"t,omitempty"` // short tag
	V string `json:"v,omitempty"` // scalar text
	C []*Y   `json:"c,omitempty"` // items, or alternating keys and values
}

func yStr(s string) *Y   { return &Y{K: "s", T: "!!str", V: s} }
func yBool(b bool) *Y    { return &Y{K: "s", T: "!!bool", V: strconv.FormatBool(b)} }
func yInt(i int64) *Y    { return &Y{K: "s", T: "!!int", V: strconv.FormatInt(i, 10)} }
func yUint(i uint64) *Y  { return &Y{K: "s", T: "!!int", V: strconv.FormatUint(i, 10)} }
func yFlt(f float64) *Y  { return &Y{K: "s", T: "!!float", V: fltText(f)} }
func yNull() *Y          { return &Y{K: "s", T: "!!null"} }
func yMap(kv ...*Y) *Y   { return &Y{K: "m", T: "!!map", C: kv} }
func yList(kv ...*Y) *Y  { return &Y{K: "l", T: "!!seq", C: kv} }
func ySeq(v []string) *Y { o := yList(); o.strs(v); return o }
func (y *Y) strs(v []string) {
	for _, s := range v {
		y.C = append(y.C, yStr(s))
	}
}
func (y *Y) put(k string, v *Y) *Y { y.C = append(y.C, yStr(k), v); return y }

// fltText is the canonical text of a float: distinct floats (and the two
// zeroes) have distinct texts, all NaNs have the same.
func fltText(f float64) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func textFlt(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic("harness: bad canonical float " + s)
	}
	return f
}

// canonScalar normalises the spelling of a scalar of a standard type.
func canonScalar(tag, val string) (string, string) {
	switch tag {
	case "!!null":
		return tag, ""
	case "!!bool":
		switch strings.ToLower(val) {
		case "true", "y", "yes", "on":
			return tag, "true"
		case "false", "n", "no", "off":
			return tag, "false"
		}
	case "!!int":
		p := strings.ReplaceAll(val, "_", "")
		b := new(big.Int)
		if _, ok := b.SetString(strings.TrimPrefix(p, "+"), 10); ok && !leadingZero(p) {
			return tag, b.String()
		}
		var i int64
		n := yaml.Node{Kind: yaml.ScalarNode, Tag: "!!int", Value: val}
		if n.Decode(&i) == nil {
			return tag, strconv.FormatInt(i, 10)
		}
		var u uint64
		if n.Decode(&u) == nil {
			return tag, strconv.FormatUint(u, 10)
		}
	case "!!float":
		var f float64
		n := yaml.Node{Kind: yaml.ScalarNode, Tag: "!!float", Value: val}
		if n.Decode(&f) == nil {
			return tag, fltText(f)
		}
	}
	return tag, val
}

func leadingZero(s string) bool {
	s = strings.TrimLeft(s, "+-")
	return len(s) > 1 && s[0] == '0'
}

// An alias counts as a hundred levels.
const maxDepth = 6000

func fromNode(n *yaml.Node) *Y { return fromNodeD(n, 0) }

func fromNodeD(n *yaml.Node, d int) *Y {
	if n == nil {
		return nil
	}
	if d > maxDepth {
		return &Y{K: "s", T: "!too-deep"}
	}
	switch n.Kind {
	case yaml.DocumentNode:
		if len(n.Content) == 0 {
			return nil
		}
		return fromNodeD(n.Content[0], d+1)
	case yaml.AliasNode:
		return fromNodeD(n.Alias, d+100)
	case yaml.ScalarNode:
		t, v := canonScalar(n.ShortTag(), n.Value)
		return &Y{K: "s", T: t, V: v}
	case yaml.MappingNode, yaml.SequenceNode:
		k := "m"
		if n.Kind == yaml.SequenceNode {
			k = "l"
		}
		out := &Y{K: k, T: n.ShortTag()}
		for _, c := range n.Content {
			out.C = append(out.C, fromNodeD(c, d+1))
		}
		return out
	}
	return &Y{K: "s", T: "!zero-node"}
}

func (y *Y) equal(o *Y) bool {
	if y == nil || o == nil {
		return y == o
	}
	if y.K != o.K || y.T != o.T || y.V != o.V || len(y.C) != len(o.C) {
		return false
	}
	for i := range y.C {
		if !y.C[i].equal(o.C[i]) {
			return false
		}
	}
	return true
}

func (y *Y) String() string {
	var b strings.Builder
	y.str(&b)
	return b.String()
}

func (y *Y) str(b *strings.Builder) {
	if y == nil {
		b.WriteString("<nothing>")
		return
	}
	switch y.K {
	case "s":
		if y.T == "!!str" {
			b.WriteString(strconv.Quote(y.V))
		} else {
			fmt.Fprintf(b, "%s:%s", y.T, y.V)
		}
	case "m":
		if y.T != "!!map" {
			b.WriteString(y.T)
		}
		b.WriteByte('{')
		for i := 0; i+1 < len(y.C); i += 2 {
			if i > 0 {
				b.WriteString(", ")
			}
			y.C[i].str(b)
			b.WriteString(": ")
			y.C[i+1].str(b)
		}
		b.WriteByte('}')
	case "l":
		if y.T != "!!seq" {
			b.WriteString(y.T)
		}
		b.WriteByte('[')
		for i := range y.C {
			if i > 0 {
				b.WriteString(", ")
			}
			y.C[i].str(b)
		}
		b.WriteByte(']')
	}
}

func (y *Y) get(key string) (*Y, bool) {
	for i := 0; i+1 < len(y.C); i += 2 {
		if y.C[i].K == "s" && y.C[i].V == key {
			return y.C[i+1], true
		}
	}
	return nil, false
}

func (y *Y) size() int {
	n := 1
	for _, c := range y.C {
		n += c.size()
	}
	return n
}

// goToY converts a value found in the model (a YAML node, or a plain Go value
// that a caller stored there) to a tree.
func goToY(v interface{}) *Y {
	switch t := v.(type) {
	case nil:
		return yNull()
	case *yaml.Node:
		return fromNode(t)
	case yaml.Node:
		return fromNode(&t)
	case string:
		return yStr(t)
	case bool:
		return yBool(t)
	case int:
		return yInt(int64(t))
	case int64:
		return yInt(t)
	case uint:
		return yUint(uint64(t))
	case float64:
		return yFlt(t)
	case []interface{}:
		o := yList()
		for _, x := range t {
			o.C = append(o.C, goToY(x))
		}
		return o
	case []string:
		return ySeq(t)
	case map[string]interface{}:
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		o := yMap()
		for _, k := range keys {
			o.put(k, goToY(t[k]))
		}
		return o
	}
	return &Y{K: "s", T: fmt.Sprintf("!go-%T", v), V: fmt.Sprint(v)}
}

// toNode builds a node for the tree in the default style.
func (y *Y) toNode() *yaml.Node {
	n := &yaml.Node{Tag: y.T, Value: y.V}
	switch y.K {
	case "m":
		n.Kind = yaml.MappingNode
		n.Tag = ""
		if y.T != "!!map" {
			n.Tag = y.T
		}
	case "l":
		n.Kind = yaml.SequenceNode
		n.Tag = ""
		if y.T != "!!seq" {
			n.Tag = y.T
		}
	default:
		n.Kind = yaml.ScalarNode
		if y.T == "!!float" {
			n.Value = fltYaml(y.V)
		}
		if y.T == "!!null" && y.V == "" {
			n.Value = "null"
		}
	}
	for _, c := range y.C {
		n.Content = append(n.Content, c.toNode())
	}
	return n
}

// fltYaml is the YAML spelling of a canonical float text.
func fltYaml(s string) string {
	switch s {
	case "NaN":
		return ".nan"
	case "+Inf":
		return ".inf"
	case "-Inf":
		return "-.inf"
	case "-0":
		return "-0.0"
	}
	return s
}

// decodeTree parses YAML text into a tree with the YAML library alone.  The
// second result tells whether the YAML library itself could handle the text.
func decodeTree(text []byte) (y *Y, ok bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			y, ok, err = nil, false, fmt.Errorf("yaml panic: %v", r)
		}
	}()
	var n yaml.Node
	if err := yaml.Unmarshal(text, &n); err != nil {
		return nil, true, err
	}
	return fromNode(&n), true, nil
}

// encodeNode writes a node with the YAML library alone.
func encodeNode(n *yaml.Node, indent int) (out []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("yaml panic: %v", r)
		}
	}()
	var b bytes.Buffer
	e := yaml.NewEncoder(&b)
	e.SetIndent(indent)
	if err := e.Encode(n); err != nil {
		return nil, err
	}
	if err := e.Close(); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}
