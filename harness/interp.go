package harness

import (
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"gopkg.in/yaml.v3"
)

// The reference reader: it turns a YAML tree into a model without using the
// library under test.

var errUnspecified = errors.New("unspecified")

type interp struct{}

func rej(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

func isS(y *Y, tag string) bool { return y.K == "s" && y.T == tag }

func inStr(y *Y) (string, error) {
	if !isS(y, "!!str") {
		return "", rej("want a string, got %s", y.T)
	}
	return y.V, nil
}

func inStrp(y *Y, p **string) error {
	s, err := inStr(y)
	if err == nil {
		*p = &s
	}
	return err
}

func inBool(y *Y) (bool, error) {
	if !isS(y, "!!bool") {
		return false, rej("want a bool, got %s", y.T)
	}
	switch y.V {
	case "true":
		return true, nil
	case "false":
		return false, nil
	}
	return false, errUnspecified
}

func inInt(y *Y, lo, hi *big.Int) (string, error) {
	if !isS(y, "!!int") {
		return "", rej("want an integer, got %s", y.T)
	}
	b, ok := new(big.Int).SetString(y.V, 10)
	if !ok {
		return "", errUnspecified
	}
	if b.Cmp(lo) < 0 || b.Cmp(hi) > 0 {
		return "", rej("integer out of range")
	}
	return b.String(), nil
}

var (
	big0   = big.NewInt(0)
	bigU64 = new(big.Int).SetUint64(1<<64 - 1)
	bigMin = big.NewInt(-1 << 63)
	bigMax = big.NewInt(1<<63 - 1)
)

func inUint(y *Y) (uint64, error) {
	s, err := inInt(y, big0, bigU64)
	if err != nil {
		return 0, err
	}
	b, _ := new(big.Int).SetString(s, 10)
	return b.Uint64(), nil
}

func inUintp(y *Y, p **uint64) error {
	u, err := inUint(y)
	if err == nil {
		*p = &u
	}
	return err
}

func inLim(y *Y, p **uint64, def uint64) error {
	u, err := inUint(y)
	if err == nil && u != def {
		*p = &u
	}
	return err
}

func inFlt(y *Y) (string, error) {
	if isS(y, "!!int") {
		b, ok := new(big.Int).SetString(y.V, 10)
		if !ok {
			return "", errUnspecified
		}
		if b.Cmp(bigMin) < 0 || b.Cmp(bigU64) > 0 {
			return "", errUnspecified // explicitly tagged; the YAML library does not read it
		}
		f, _ := new(big.Float).SetInt(b).Float64()
		return fltText(f), nil
	}
	if isS(y, "!!float") {
		return y.V, nil
	}
	return "", rej("want a number, got %s", y.T)
}

func inFltp(y *Y, p **string) error {
	s, err := inFlt(y)
	if err == nil {
		*p = &s
	}
	return err
}

func inI64p(y *Y, p **string) error {
	s, err := inInt(y, bigMin, bigMax)
	if err == nil {
		*p = &s
	}
	return err
}

func inSeq(y *Y, f func(*Y) error) error {
	if y.K != "l" {
		return rej("want a sequence, got %s", y.T)
	}
	for i, c := range y.C {
		if err := f(c); err != nil {
			return wrap(fmt.Sprint(i), err)
		}
	}
	return nil
}

func wrap(at string, err error) error {
	if err == nil || err == errUnspecified {
		return err
	}
	return fmt.Errorf("%s: %w", at, err)
}

func inMap(y *Y, f func(k, v *Y) error) error {
	if y.K != "m" {
		return rej("want a mapping, got %s", y.T)
	}
	for i := 0; i+1 < len(y.C); i += 2 {
		if err := f(y.C[i], y.C[i+1]); err != nil {
			return wrap(y.C[i].V, err)
		}
	}
	return nil
}

func inStrs(y *Y, out *[]string) error {
	return inSeq(y, func(c *Y) error {
		s, err := inStr(c)
		*out = append(*out, s)
		return err
	})
}

// inStrMap walks a mapping with string keys.
func inStrMap(y *Y, f func(k string, v *Y) error) error {
	return inMap(y, func(k, v *Y) error {
		s, err := inStr(k)
		if err != nil {
			return err
		}
		return f(s, v)
	})
}

func inKYs(y *Y, out *[]KY) error {
	return inStrMap(y, func(k string, v *Y) error {
		*out = append(*out, KY{k, v})
		return nil
	})
}

func inAnn(k string, y *Y, out *[]Ann) error {
	a := Ann{Name: k}
	err := inKYs(y, &a.Fields)
	*out = append(*out, a)
	return err
}

func inExtra(k, v *Y, out *[]KY) error {
	if k.K != "s" {
		return errUnspecified
	}
	*out = append(*out, KY{k.V, v})
	return nil
}

func inTyped(kind string, y *Y) (*Y, error) {
	switch vClass(kind) {
	case "bool":
		b, err := inBool(y)
		return yBool(b), err
	case "int":
		s, err := inInt(y, bigMin, bigMax)
		return &Y{K: "s", T: "!!int", V: s}, err
	case "float":
		s, err := inFlt(y)
		return &Y{K: "s", T: "!!float", V: s}, err
	case "string":
		if isDateKind(kind) && isS(y, "!!timestamp") {
			return yStr(y.V), nil
		}
		s, err := inStr(y)
		return yStr(s), err
	case "list":
		if y.K != "l" {
			return nil, rej("want a sequence, got %s", y.T)
		}
		return yList(y.C...), nil
	}
	return y, nil
}

func inExample(kind string, y *Y) (*Ex, error) {
	ex := &Ex{}
	var err error
	if y.K != "m" {
		ex.Value, err = inTyped(kind, y)
		return ex, err
	}
	err = inMap(y, func(k, v *Y) error {
		if isS(k, "!!str") {
			if strings.HasPrefix(k.V, "(") {
				return inAnn(k.V, v, &ex.Anns)
			}
			switch k.V {
			case "displayName":
				return inStrp(v, &ex.DisplayName)
			case "description":
				return inStrp(v, &ex.Description)
			case "strict":
				b, err := inBool(v)
				ex.Lenient = !b
				return err
			case "value":
				var err error
				ex.Value, err = inTyped(kind, v)
				return err
			}
		}
		return inExtra(k, v, &ex.Extra)
	})
	return ex, err
}

func inXML(y *Y) (*Xml, error) {
	x := &Xml{}
	boolp := func(y *Y, p **bool) error {
		b, err := inBool(y)
		*p = &b
		return err
	}
	err := inMap(y, func(k, v *Y) error {
		switch k.V {
		case "attribute":
			return boolp(v, &x.Attribute)
		case "wrapped":
			return boolp(v, &x.Wrapped)
		case "name":
			return inStrp(v, &x.Name)
		case "namespace":
			return inStrp(v, &x.Namespace)
		case "prefix":
			return inStrp(v, &x.Prefix)
		}
		return inExtra(k, v, &x.Extra)
	})
	return x, err
}

func kindOf(text string) string {
	for _, k := range builtinKinds {
		if text == k {
			return k
		}
	}
	if strings.Contains(text, "|") {
		return kUnion
	}
	return kCustom
}

func inNamed(y *Y, out *[]Named) error {
	return inStrMap(y, func(k string, v *Y) error {
		t, err := inTD(v)
		*out = append(*out, Named{k, t})
		return err
	})
}

func inTD(y *Y) (*TD, error) {
	switch {
	case isS(y, "!!str"):
		if strings.HasPrefix(y.V, "!include ") {
			return nil, errUnspecified
		}
		return &TD{Kind: kindOf(y.V), Schema: y.V}, nil
	case isS(y, "!include"):
		return &TD{Kind: kInc, Schema: y.V}, nil
	case isS(y, "!!null"):
		return &TD{Kind: kStr, Schema: kStr}, nil
	case y.K != "m":
		return nil, rej("not a type declaration: %s", y.T)
	}
	var ty *Y
	props, items := false, false
	err := inMap(y, func(k, v *Y) error {
		switch k.V {
		case "type", "schema":
			if ty != nil {
				return errUnspecified
			}
			ty = v
		case "properties":
			props = true
		case "items":
			items = true
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	t := &TD{Kind: kStr, Schema: kStr}
	switch {
	case ty == nil && props:
		t.Kind, t.Schema = kObj, kObj
	case ty == nil && items:
		t.Kind, t.Schema = kArray, kArray
	case ty == nil:
	case isS(ty, "!!str"):
		if strings.HasPrefix(ty.V, "!include ") {
			return nil, errUnspecified
		}
		t.Kind, t.Schema = kindOf(ty.V), ty.V
	case isS(ty, "!include"):
		t.Kind, t.Schema = kInc, ty.V
	default:
		return nil, rej("bad type %s", ty.T)
	}
	return t, inMap(y, t.facet)
}

func (t *TD) facet(k, v *Y) error {
	switch k.V {
	case "type", "schema":
		return nil
	case "required":
		b, err := inBool(v)
		t.Optional = !b
		return err
	}
	if !isExt(t.Kind) {
		return inExtra(k, v, &t.Extra)
	}
	var err error
	switch k.V {
	case "displayName":
		return inStrp(v, &t.DisplayName)
	case "description":
		return inStrp(v, &t.Description)
	case "facets":
		return inStrMap(v, func(k string, v *Y) error {
			f := Facet{Name: k}
			err := inNamed(v, &f.Types)
			t.Facets = append(t.Facets, f)
			return err
		})
	case "xml":
		t.XML, err = inXML(v)
		return err
	case "default":
		t.Default, err = inTyped(t.Kind, v)
		return err
	case "example":
		t.Example, err = inExample(t.Kind, v)
		return err
	case "examples":
		return inStrMap(v, func(k string, v *Y) error {
			ex, err := inExample(t.Kind, v)
			t.Examples = append(t.Examples, NamedEx{k, ex})
			return err
		})
	case "enum":
		return inSeq(v, func(c *Y) error {
			if t.Kind == kArray {
				t.Enum = append(t.Enum, c)
				return nil
			}
			x, err := inTyped(t.Kind, c)
			t.Enum = append(t.Enum, x)
			return err
		})
	}
	switch t.Kind + " " + k.V {
	case "string pattern":
		return inStrp(v, &t.Pattern)
	case "string minLength", "file minLength":
		return inLim(v, &t.MinLength, 0)
	case "string maxLength":
		return inUintp(v, &t.MaxLength)
	case "file maxLength":
		return inLim(v, &t.MaxLength, fileMaxLen)
	case "file fileTypes":
		return inStrs(v, &t.FileTypes)
	case "integer minimum":
		return inI64p(v, &t.Minimum)
	case "integer maximum":
		return inI64p(v, &t.Maximum)
	case "number minimum":
		return inFltp(v, &t.Minimum)
	case "number maximum":
		return inFltp(v, &t.Maximum)
	case "integer multipleOf", "number multipleOf":
		return inFltp(v, &t.MultipleOf)
	case "integer format", "number format", "datetime format":
		return inStrp(v, &t.Format)
	case "array uniqueItems":
		t.UniqueItems, err = inBool(v)
		return err
	case "array minItems":
		return inLim(v, &t.MinItems, 0)
	case "array maxItems":
		return inLim(v, &t.MaxItems, arrayMaxItem)
	case "array items":
		t.Items, err = inTD(v)
		return err
	case "object properties":
		return inNamed(v, &t.Properties)
	case "object minProperties":
		return inUintp(v, &t.MinProps)
	case "object maxProperties":
		return inUintp(v, &t.MaxProps)
	case "object additionalProperties":
		b, err := inBool(v)
		t.Closed = !b
		return err
	case "object discriminator":
		return inStrp(v, &t.Discrim)
	case "object discriminatorValue":
		t.DiscrimVal = v
		return nil
	}
	if isS(k, "!!str") && strings.HasPrefix(k.V, "(") {
		return inAnn(k.V, v, &t.Anns)
	}
	return inExtra(k, v, &t.Extra)
}

// inDoc reads a document.
func inDoc(y *Y, lib bool) (*Doc, error) {
	d := &Doc{Lib: lib}
	if y == nil || y.K != "m" {
		if y == nil || isS(y, "!!null") {
			return nil, errUnspecified
		}
		return nil, rej("want a mapping, got %s", y.T)
	}
	return d, inMap(y, d.section)
}

func (d *Doc) section(k, v *Y) error {
	if k.K != "s" {
		return rej("complex key")
	}
	str := isS(k, "!!str")
	if str && strings.HasPrefix(k.V, "(") {
		return inAnn(k.V, v, &d.Anns)
	}
	if !d.Lib && str && strings.HasPrefix(k.V, "/") {
		d.Resources = append(d.Resources, KY{k.V, v})
		return nil
	}
	switch k.V {
	case "types", "schemas":
		if d.Types != nil {
			return errUnspecified
		}
		return inNamed(v, &d.Types)
	case "traits":
		return inKYs(v, &d.Traits)
	case "resourceTypes":
		return inKYs(v, &d.ResourceTypes)
	case "annotationTypes":
		return inKYs(v, &d.AnnotationTypes)
	case "securitySchemes":
		return inKYs(v, &d.SecuritySchemes)
	case "uses":
		return inStrMap(v, func(k string, v *Y) error {
			s, err := inStr(v)
			d.Uses = append(d.Uses, KS{k, s})
			return err
		})
	}
	if d.Lib {
		if k.V == "usage" {
			return inStrp(v, &d.Usage)
		}
		return inExtra(k, v, &d.Extra)
	}
	var err error
	switch k.V {
	case "title":
		d.Title, err = inStr(v)
		return err
	case "version":
		return inStrp(v, &d.Version)
	case "baseUri":
		return inStrp(v, &d.BaseURI)
	case "description":
		return inStrp(v, &d.Description)
	case "baseUriParameters":
		return inKYs(v, &d.BaseURIParams)
	case "protocols":
		return inStrs(v, &d.Protocols)
	case "securedBy":
		return inStrs(v, &d.SecuredBy)
	case "mediaType":
		if isS(v, "!!str") {
			d.MediaTypes = []string{v.V}
			return nil
		}
		return inStrs(v, &d.MediaTypes)
	case "documentation":
		return inSeq(v, func(c *Y) error {
			e := DocEntry{}
			err := inMap(c, func(k, v *Y) error {
				switch k.V {
				case "title", "content":
					if v.K != "s" {
						return rej("want text")
					}
					if v.T != "!!str" && (v.T != "!include" || k.V == "title") {
						return errUnspecified
					}
					if k.V == "title" {
						e.Title = v.V
					} else {
						e.Content, e.Include = v.V, v.T == "!include"
					}
					return nil
				}
				return inExtra(k, v, &e.Extra)
			})
			d.Docs = append(d.Docs, e)
			return err
		})
	}
	return inExtra(k, v, &d.Extra)
}

var plainInt = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)

// odd tells whether a document uses a spelling for which the model does not
// define a meaning: aliases of keys, odd numbers, explicit or merge tags, repeated keys.
func odd(n *yaml.Node, depth int) bool {
	if depth > 5000 {
		return true
	}
	switch n.Kind {
	case yaml.ScalarNode:
		switch n.ShortTag() {
		case "!!int":
			if !plainInt.MatchString(n.Value) || n.Value == "-0" {
				return true
			}
		case "!!bool":
			if l := strings.ToLower(n.Value); l != "true" && l != "false" {
				return true
			}
		case "!!merge", "!!binary":
			return true
		case "!!float":
			var f float64
			if n.Decode(&f) != nil {
				return true
			}
		}
		if n.Style&yaml.TaggedStyle != 0 && strings.HasPrefix(n.ShortTag(), "!!") {
			switch n.ShortTag() {
			case "!!str", "!!int", "!!bool", "!!float":
			case "!!null":
				if n.Value != "" && n.Value != "~" && n.Value != "null" {
					return true
				}
			default:
				return true
			}
		}
	case yaml.MappingNode:
		if n.ShortTag() != "!!map" {
			return true
		}
		seen := map[string]bool{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k := n.Content[i]
			if k.Kind == yaml.AliasNode {
				return true
			}
			if k.Kind != yaml.ScalarNode {
				continue
			}
			if seen[k.Value] || !strings.HasPrefix(k.ShortTag(), "!!") {
				return true
			}
			seen[k.Value] = true
			if _, v := canonScalar(k.ShortTag(), k.Value); v != k.Value {
				return true
			}
		}
	case yaml.SequenceNode:
		if n.ShortTag() != "!!seq" {
			return true
		}
	}
	for _, c := range n.Content {
		if odd(c, depth+1) {
			return true
		}
	}
	return false
}
