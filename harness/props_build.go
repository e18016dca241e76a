package harness

import (
	"fmt"

	"pgregory.net/rapid"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// BuildCase is a document to assemble through the setters.
type BuildCase struct {
	Model   *Doc
	Choices []uint8
}

func genBuild(t *rapid.T) *BuildCase {
	g := newG(t)
	return &BuildCase{buildable(g.doc(g.coin())), choiceGen.Draw(t, "choices")}
}

func checkBuild(c *BuildCase, s *Stats) error {
	if !carried(c.Model) {
		return s.skip()
	}
	s.describe(c.Model)
	b := &B{choices: c.Choices, shared: map[string]raml.DataType{}}
	v := b.doc(c.Model)
	built, err := observeDoc(v)
	if err != nil {
		return fmt.Errorf("a built document: %w", err)
	}
	if m := diff(c.Model, built); m != "" {
		return fmt.Errorf("the accessors do not report what was set: %s", m)
	}
	out, err := write(v)
	if err != nil {
		return fmt.Errorf("a built document cannot be written: %w", err)
	}
	if err := judgeOutput(c.Model, out); err != nil {
		return err
	}
	_, got, err := parseObs(out, c.Model.Lib)
	if err != nil {
		return fmt.Errorf("reading back a built document: %w\n%s", err, out)
	}
	if m := diff(c.Model, got); m != "" {
		return fmt.Errorf("a built document changed by writing and reading back: %s\n%s", m, out)
	}
	return nil
}

// carried tells whether the YAML library carries the document over faithfully
// in its default style.
func carried(d *Doc) bool {
	n := R{plain: true}.doc(d)
	want := fromNode(n)
	out, err := encodeNode(n, 2)
	return err == nil && yamlFaithful(out, want)
}

const buildRule = "a case is a generated document and a sequence of choices between ways to build it; it is non-trivial " +
	"when it says at least three things"

func init() {
	register("C05", buildRule, genBuild, checkBuild)
}
