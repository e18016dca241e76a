package harness

import (
	"encoding/json"
	"errors"
	"fmt"

	"gopkg.in/yaml.v3"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// errValue is what a faulty value says.
var errValue = errors.New("injected fault of a value")

// faulty is a value that cannot be written.
type faulty struct{}

func (faulty) MarshalYAML() (interface{}, error) { return nil, errValue }
func (faulty) MarshalJSON() ([]byte, error)      { return nil, errValue }

var faultyValues = []func() interface{}{
	func() interface{} { return faulty{} },
	func() interface{} { return &faulty{} },
	func() interface{} { return func() {} },
	func() interface{} { return make(chan int) },
	func() interface{} { return complex(1, 2) },
	func() interface{} { return []interface{}{1, faulty{}} },
	func() interface{} { return map[string]interface{}{"a": faulty{}} },
	func() interface{} { return []interface{}{map[string]interface{}{"a": []interface{}{func() {}}}} },
	func() interface{} { return raml.NewUntypedMap(1).Put("a", faulty{}) },
	func() interface{} { return raml.NewAnyMap(1).SerializeOrdered(false).Put("a", faulty{}) },
}

const faultyKey = "zz\x01faulty"

// openMaps are the maps of a document that hold anything.
func openMaps(v interface{}, model *Doc) (out []interface{}) {
	add := func(m interface{}) {
		if !isNilI(m) {
			out = append(out, m)
		}
	}
	anns := func(m raml.AnnotationMap) {
		if m != nil {
			m.ForEach(func(k string, a raml.Annotation) { add(a) })
		}
	}
	for _, m := range docFields(model.Lib) {
		switch m {
		case "Traits", "ResourceTypes", "AnnotationTypes", "SecuritySchemes", "ExtraFacets", "BaseURIParameters", "Resources":
			add(call(v, m))
		case "Annotations":
			anns(call(v, m).(raml.AnnotationMap))
		}
	}
	if !model.Lib {
		for _, d := range v.(raml.APISpec).Documentation() {
			add(d.ExtraFacets())
		}
	}
	eachType(typesOf(v), model.Types, func(dt raml.DataType, t *TD) {
		add(dt.ExtraFacets())
		if !isExt(t.Kind) {
			return
		}
		anns(dt.(raml.ExtendedDataType).Annotations())
		if t.Example != nil {
			add(call(call(dt, "Example"), "ExtraFacets"))
		}
	})
	return out
}

func putFaulty(m interface{}, i int) (remove func()) {
	bad := faultyValues[i%len(faultyValues)]()
	switch x := m.(type) {
	case raml.AnyMap:
		x.Put(faultyKey, bad)
		return func() { x.Delete(faultyKey) }
	case raml.UntypedMap:
		x.Put(faultyKey, bad)
		return func() { x.Delete(faultyKey) }
	}
	panic(fmt.Sprintf("harness: a map of type %T", m))
}

// faultyMap checks that the serialisers of a map report a value that cannot be
// written.
func faultyMap(m interface{}, i int) error {
	defer putFaulty(m, i)()
	if _, err := m.(interface{ ToYAML() (*yaml.Node, error) }).ToYAML(); err == nil {
		return fmt.Errorf("ToYAML reports no error for a value that cannot be written")
	}
	if b, err := yaml.Marshal(m); err == nil {
		return fmt.Errorf("no error for a value that cannot be written as YAML: %q", b)
	}
	if b, err := json.Marshal(m); err == nil {
		return fmt.Errorf("no error for a value that cannot be written as JSON: %q", b)
	}
	return nil
}
