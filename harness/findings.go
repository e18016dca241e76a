package harness

import (
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// finding is a known defect that is recorded (in known-findings.txt) and not
// repaired.
type finding struct {
	prop, what string
	present    func() bool
}

var findings = []finding{
	{"C17", "an alias in the place of a typed facet is rejected: 'title: &a x' with 'version: *a'", func() bool {
		v, err := parseFrom(strings.NewReader("title: &a x\nversion: *a\n"), false)
		return err != nil && v == nil
	}},
	{"C11", "a generic map writes the caller's Go float64 1.0/3 to YAML with ten digits only", func() bool {
		b, err := yaml.Marshal(raml.NewAnyMap(1).SerializeOrdered(false).Put("k", 1.0/3))
		if err != nil {
			return true
		}
		y, ok, err := decodeTree(b)
		return !ok || err != nil || !y.equal(yMap(yStr("k"), yFlt(1.0/3)))
	}},
}
