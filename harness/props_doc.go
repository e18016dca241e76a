package harness

import (
	"bytes"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
)

// DocCase is a document: what it says and one way to write it.
type DocCase struct {
	Model *Doc
	Text  string
}

func genDocCase(t *rapid.T, lib bool, focus string) *DocCase {
	g := newG(t)
	g.focus = focus
	d := g.doc(lib)
	return &DocCase{d, R{G: g}.text(d)}
}

func genAnyDocCase(focus string) func(t *rapid.T) *DocCase {
	return func(t *rapid.T) *DocCase { return genDocCase(t, coin.Draw(t, "lib"), focus) }
}

// parse reads a document as an API specification or a library.
func parse(text string, lib bool) (interface{}, error) {
	if lib {
		l, err := rparse.ParseLibrary(strings.NewReader(text))
		if err != nil {
			if !isNilI(l) {
				return l, fmt.Errorf("%w (and a library was returned too)", err)
			}
			return nil, err
		}
		if isNilI(l) {
			return nil, fmt.Errorf("neither a library nor an error was returned")
		}
		return l, nil
	}
	a, err := rparse.ParseApiDoc(strings.NewReader(text))
	if err != nil {
		if !isNilI(a) {
			return a, fmt.Errorf("%w (and a specification was returned too)", err)
		}
		return nil, err
	}
	if isNilI(a) {
		return nil, fmt.Errorf("neither a specification nor an error was returned")
	}
	return a, nil
}

func write(v interface{}) (string, error) {
	var b bytes.Buffer
	var err error
	switch t := v.(type) {
	case raml.APISpec:
		err = t.WriteRAML(&b)
	case raml.Library:
		err = t.WriteRAML(&b)
	default:
		panic(fmt.Sprintf("harness: cannot write %T", v))
	}
	return b.String(), err
}

func parseObs(text string, lib bool) (interface{}, *Doc, error) {
	v, err := parse(text, lib)
	if err != nil {
		return nil, nil, fmt.Errorf("rejected: %w", err)
	}
	d, err := observeDoc(v)
	if err != nil {
		return nil, nil, err
	}
	return v, d, nil
}

// describe classifies a document.
func (s *Stats) describe(d *Doc) {
	n := 0
	d.eachTD(func(t *TD) { n++; s.Classes["type:"+t.Kind]++ })
	switch {
	case n == 0:
		s.class("types: none")
	case n <= 3:
		s.class("types: 1-3")
	default:
		s.class("types: 4+")
	}
	for name, on := range map[string]bool{
		"docs": len(d.Docs) > 0, "resources": len(d.Resources) > 0, "annotations": len(d.Anns) > 0,
		"extras": len(d.Extra) > 0, "uses": len(d.Uses) > 0, "traits": len(d.Traits) > 0,
		"securitySchemes": len(d.SecuritySchemes) > 0, "resourceTypes": len(d.ResourceTypes) > 0,
		"annotationTypes": len(d.AnnotationTypes) > 0, "baseUriParameters": len(d.BaseURIParams) > 0,
	} {
		if on {
			s.class("section:%s", name)
		}
	}
	if d.weight() >= 3 {
		s.interesting()
	}
}

// weight counts the things a document says.
func (d *Doc) weight() int {
	n := len(d.Types) + len(d.Docs) + len(d.Resources) + len(d.Anns) + len(d.Extra) + len(d.Uses) + len(d.Traits) +
		len(d.SecuritySchemes) + len(d.ResourceTypes) + len(d.AnnotationTypes) + len(d.BaseURIParams)
	for _, p := range []*string{d.Version, d.BaseURI, d.Description, d.Usage} {
		if p != nil {
			n++
		}
	}
	d.eachTD(func(*TD) { n++ })
	return n
}

const docRule = "a case is a generated document in a generated spelling; it is non-trivial when it says at least three " +
	"things (sections, entries of sections, type declarations)"

func checkRoundTrip(c *DocCase, s *Stats) error {
	if c.Text == "" {
		return s.skip()
	}
	s.describe(c.Model)
	v, before, err := parseObs(c.Text, c.Model.Lib)
	if err != nil {
		return err
	}
	out, err := write(v)
	if err != nil {
		return fmt.Errorf("write: %w", err)
	}
	_, after, err := parseObs(out, c.Model.Lib)
	if err != nil {
		return fmt.Errorf("reading back what was written: %w\n%s", err, out)
	}
	if m := diff(before, after); m != "" {
		return fmt.Errorf("changed by writing and reading back: %s\n%s", m, out)
	}
	if m := diff(visible(c.Model), after); m != "" {
		return fmt.Errorf("after writing and reading back, the document is not what it was: %s\n%s", m, out)
	}
	return nil
}

func checkFidelity(c *DocCase, s *Stats) error {
	if c.Text == "" {
		return s.skip()
	}
	s.describe(c.Model)
	_, got, err := parseObs(c.Text, c.Model.Lib)
	if err != nil {
		return err
	}
	if m := diff(visible(c.Model), got); m != "" {
		return fmt.Errorf("the accessors do not report the document: %s", m)
	}
	return nil
}

func checkOutput(c *DocCase, s *Stats) error {
	if c.Text == "" {
		return s.skip()
	}
	s.describe(c.Model)
	v, err := parse(c.Text, c.Model.Lib)
	if err != nil {
		return fmt.Errorf("rejected: %w", err)
	}
	out, err := write(v)
	if err != nil {
		return fmt.Errorf("write: %w", err)
	}
	return judgeOutput(c.Model, out)
}

// judgeOutput decides whether a written document says exactly what the model
// says.
func judgeOutput(want *Doc, out string) error {
	head := "#%RAML 1.0"
	if want.Lib {
		head = "#%RAML 1.0 Library"
	}
	first, _, _ := strings.Cut(out, "\n")
	if first != head {
		return fmt.Errorf("the first line is %q, want %q", first, head)
	}
	y, ok, err := decodeTree([]byte(out))
	if !ok || err != nil {
		return fmt.Errorf("what was written is not YAML: %v\n%s", err, out)
	}
	if y == nil || isS(y, "!!null") {
		y = yMap()
	}
	if at := stdTags(y, ""); at != "" {
		return fmt.Errorf("what was written has an unexpected tag or a repeated key: %s\n%s", at, out)
	}
	got, err := inDoc(y, want.Lib)
	if err != nil {
		return fmt.Errorf("what was written is not RAML: %v\n%s", err, out)
	}
	if m := diff(want, got); m != "" {
		return fmt.Errorf("what was written says something else: %s\n%s", m, out)
	}
	return noDefaults(y, want, out)
}

// stdTags looks for ordered-map and set tags and repeated keys.
func stdTags(y *Y, path string) string {
	if y.T == "!!omap" || y.T == "!!pairs" || y.T == "!!set" || strings.HasPrefix(y.T, "!go-") {
		return path + " " + y.T
	}
	if y.K == "m" {
		seen := map[string]bool{}
		for i := 0; i+1 < len(y.C); i += 2 {
			if k := y.C[i]; k.K == "s" {
				if seen[k.T+" "+k.V] {
					return path + " key " + k.V
				}
				seen[k.T+" "+k.V] = true
			}
		}
	}
	for _, c := range y.C {
		if s := stdTags(c, path+"/"+y.K); s != "" {
			return s
		}
	}
	return ""
}

func init() {
	register("C01", docRule,
		func(t *rapid.T) *DocCase { return genDocCase(t, false, "") }, checkRoundTrip)
	register("C02", docRule,
		func(t *rapid.T) *DocCase { return genDocCase(t, true, "") }, checkRoundTrip)
	register("C03", docRule, genAnyDocCase(""), checkFidelity)
	register("C06", docRule, genAnyDocCase(""), checkOutput)
}

// noDefaults checks that a written document does not spell out what is absent
// or has its default: no empty sections and no facets at their default.
func noDefaults(y *Y, want *Doc, out string) error {
	var found []string
	bad := func(path string, v *Y) { found = append(found, path+": "+v.String()) }
	eachKey(y, func(k string, v *Y) {
		switch k {
		case "types", "schemas":
			if len(want.Types) == 0 {
				bad(k, v)
			}
			eachKey(v, func(n string, t *Y) { noDefaultsTD(k+"."+n, t, bad) })
		case "traits", "resourceTypes", "annotationTypes", "securitySchemes", "uses":
			if len(v.C) == 0 {
				bad(k, v)
			}
		case "baseUriParameters", "protocols", "mediaType", "securedBy", "documentation":
			if !want.Lib && v.K != "s" && len(v.C) == 0 {
				bad(k, v)
			}
		}
	})
	if len(found) > 0 {
		return fmt.Errorf("what is absent or has its default was written: %s\n%s", strings.Join(found, "; "), out)
	}
	return nil
}

func eachKey(y *Y, f func(k string, v *Y)) {
	if y.K != "m" {
		return
	}
	for i := 0; i+1 < len(y.C); i += 2 {
		f(y.C[i].V, y.C[i+1])
	}
}

func noDefaultsTD(path string, y *Y, bad func(string, *Y)) {
	t, err := inTD(y)
	if err != nil || y.K != "m" {
		return
	}
	ex := func(path string, v *Y) {
		eachKey(v, func(k string, v *Y) {
			if k == "strict" && v.V == "true" {
				bad(path+".strict", v)
			}
		})
	}
	eachKey(y, func(k string, v *Y) {
		p := path + "." + k
		def := ""
		if k == "required" {
			def = "true"
		} else if isExt(t.Kind) {
			switch k {
			case "enum":
				if len(v.C) == 0 {
					bad(p, v)
				}
			case "facets":
				if len(v.C) == 0 {
					bad(p, v)
				}
				eachKey(v, func(n string, f *Y) {
					eachKey(f, func(m string, t *Y) { noDefaultsTD(p+"."+n+"."+m, t, bad) })
				})
			case "example":
				ex(p, v)
			case "examples":
				if len(v.C) == 0 {
					bad(p, v)
				}
				eachKey(v, func(n string, e *Y) { ex(p+"."+n, e) })
			}
		}
		switch t.Kind + " " + k {
		case "string minLength", "file minLength", "array minItems":
			def = "0"
		case "file maxLength", "array maxItems":
			def = "2147483647"
		case "array uniqueItems":
			def = "false"
		case "object additionalProperties":
			def = "true"
		case "file fileTypes":
			if len(v.C) == 0 {
				bad(p, v)
			}
		case "array items":
			noDefaultsTD(p, v, bad)
		case "object properties":
			if len(v.C) == 0 {
				bad(p, v)
			}
			eachKey(v, func(n string, t *Y) { noDefaultsTD(p+"."+n, t, bad) })
		}
		if def != "" && v.V == def {
			bad(p, v)
		}
	})
}
