package harness

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"os"
	"strings"
	"syscall"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
)

// MadeCase is a document that is either read from a text or built through the
// setters.
type MadeCase struct {
	Model   *Doc
	Text    string  `json:",omitempty"`
	Choices []uint8 `json:",omitempty"`
	// Nums are further choices, with a meaning that depends on the property.
	Nums []int `json:",omitempty"`
	// Pad is the size of a facet that makes the document long.
	Pad int `json:",omitempty"`
}

func genMade(t *rapid.T, focus string, nums int) *MadeCase {
	g := newG(t)
	g.focus = focus
	c := &MadeCase{}
	d := g.doc(g.coin())
	if g.p(3) {
		c.Model = buildable(d)
		c.Choices = choiceGen.Draw(t, "choices")
	} else {
		c.Model = d
		c.Text = R{G: g}.text(d)
	}
	for i := 0; i < nums; i++ {
		c.Nums = append(c.Nums, rapid.IntRange(0, 1<<20).Draw(t, "num"))
	}
	return c
}

// ok tells whether the case is in the domain.
func (c *MadeCase) ok() bool {
	if len(c.Choices) > 0 {
		return carried(c.Model)
	}
	return c.Text != ""
}

// make reads or builds the document.
func (c *MadeCase) make() (interface{}, error) {
	return c.makeWith(nil)
}

// makeWith reads or builds the document, of types that are used again where there
// is a place for them.
func (c *MadeCase) makeWith(shared map[string]raml.DataType) (interface{}, error) {
	if len(c.Choices) > 0 {
		return (&B{choices: c.Choices, shared: shared}).doc(c.Model), nil
	}
	v, err := parse(c.Text, c.Model.Lib)
	if err != nil {
		return nil, fmt.Errorf("rejected: %w", err)
	}
	return v, nil
}

func (c *MadeCase) describe(s *Stats) {
	if len(c.Choices) > 0 {
		s.class("built")
	} else {
		s.class("read")
	}
	s.describe(c.Model)
}

// C07: writing is a pure function of the document, and its output is stable.
func checkPure(c *MadeCase, s *Stats) error {
	if !c.ok() {
		return s.skip()
	}
	c.describe(s)
	v, err := c.makeWith(map[string]raml.DataType{})
	if err != nil {
		return err
	}
	// Nothing but writing happens to v; w tells what it said before.
	out1, err := write(v)
	if err != nil {
		return fmt.Errorf("write: %w", err)
	}
	out2, err := write(v)
	if err != nil {
		return fmt.Errorf("the second write: %w", err)
	}
	if out1 != out2 {
		return fmt.Errorf("two writes of the same document differ: %s", textDiff(out1, out2))
	}
	after, err := observeDoc(v)
	if err != nil {
		return err
	}
	w, err := c.makeWith(map[string]raml.DataType{})
	if err != nil {
		return err
	}
	before, err := observeDoc(w)
	if err != nil {
		return err
	}
	if m := diff(before, after); m != "" {
		return fmt.Errorf("writing changed the document: %s", m)
	}
	out3, err := write(w)
	if err != nil {
		return fmt.Errorf("write: %w", err)
	}
	if out1 != out3 {
		return fmt.Errorf("equal documents are written differently: %s", textDiff(out1, out3))
	}
	x, _, err := parseObs(out1, c.Model.Lib)
	if err != nil {
		return fmt.Errorf("reading back: %w\n%s", err, out1)
	}
	out4, err := write(x)
	if err != nil {
		return fmt.Errorf("write: %w", err)
	}
	if !sameText(out1, out4) {
		// The YAML library itself does not always keep the layout.
		var n yaml.Node
		if yaml.Unmarshal([]byte(out1), &n) == nil {
			if o, err := encodeNode(&n, 2); err == nil {
				if yaml.Unmarshal(o, &n) == nil {
					if o2, err := encodeNode(&n, 2); err == nil && !bytes.Equal(o, o2) {
						s.class("layout not stable in the YAML library")
						return nil
					}
				}
			}
		}
		return fmt.Errorf("writing what was read back gives another text: %s", textDiff(out1, out4))
	}
	return nil
}

// sameText compares texts.  Comments do not count: the YAML library moves some of
// those from one place to another when it writes what it has read.
func sameText(x, y string) bool {
	if x == y {
		return true
	}
	a, foundA := withoutComments(x)
	b, foundB := withoutComments(y)
	return (foundA || foundB) && a != "" && a == b
}

// withoutComments is a text without its comments, and whether there are any.
func withoutComments(text string) (string, bool) {
	var n yaml.Node
	if yaml.Unmarshal([]byte(text), &n) != nil {
		return "", false
	}
	found := false
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		for _, c := range strings.Split(n.HeadComment+"\n"+n.LineComment+"\n"+n.FootComment, "\n") {
			found = found || c != "" && !strings.HasPrefix(c, "#%RAML")
		}
		n.HeadComment, n.LineComment, n.FootComment = "", "", ""
		for _, c := range n.Content {
			walk(c)
		}
	}
	walk(&n)
	header, _, _ := strings.Cut(text, "\n")
	out, err := encodeNode(&n, 2)
	if err != nil {
		return "", false
	}
	return header + "\n" + string(out), found
}

func textDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q || i >= len(x) || i >= len(y) {
			return fmt.Sprintf("line %d: %q against %q", i+1, short(p), short(q))
		}
	}
	return "no difference in lines"
}

// ---- C14: faults of readers and writers

func genFaults(t *rapid.T) *MadeCase {
	c := genMade(t, "", 6)
	if g := newG(t); g.p(6) && g.p(5) {
		c.Pad = pick(g, []int{1 << 12, 1 << 13, 1 << 15, 1 << 16, 1 << 16, 1 << 17}) + g.n(256)*40 - 2000
		if g.p(12) {
			c.Pad += 1 << 20
		}
	}
	return c
}

var errFault = errors.New("injected fault")

// faults are errors that readers and writers fail with.
var faults = []error{errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrDeadlineExceeded, tempError{},
	&os.PathError{Op: "read", Path: "x", Err: syscall.EINTR}}

// tempError claims that trying again may help.
type tempError struct{}

func (tempError) Error() string   { return "injected temporary fault" }
func (tempError) Temporary() bool { return true }
func (tempError) Timeout() bool   { return true }

// faultWriter takes a number of bytes and then fails, once or from then on.
type faultWriter struct {
	left  int
	got   bytes.Buffer
	calls int // calls after the first failure
	dead  bool
	once  bool
	late  bool // the piece that exceeds the number is taken nevertheless
	err   error
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.dead {
		w.calls++
		return 0, w.err
	}
	if len(p) <= w.left {
		w.left -= len(p)
		w.got.Write(p)
		return len(p), nil
	}
	n := w.left
	if w.late {
		n = len(p)
	}
	w.got.Write(p[:n])
	w.left, w.dead = 1<<30, !w.once
	return n, w.err
}

// faultReader hands out a text in pieces and then ends in a given way.
type faultReader struct {
	text  string
	sizes []int
	i     int
	end   error
	// with: the end comes together with the last bytes
	with bool
	// empty: now and then nothing is handed out
	empty bool
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.text == "" {
		return 0, r.end
	}
	r.i++
	if r.empty && r.i%3 == 1 {
		return 0, nil
	}
	n := 1 + r.sizes[r.i%len(r.sizes)]%97
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.text) {
		n = len(r.text)
	}
	copy(p, r.text[:n])
	r.text = r.text[n:]
	if r.text == "" && r.with {
		return n, r.end
	}
	return n, nil
}

func parseFrom(r io.Reader, lib bool) (interface{}, error) {
	if lib {
		l, err := rparse.ParseLibrary(r)
		if isNilI(l) {
			return nil, err
		}
		return l, err
	}
	a, err := rparse.ParseApiDoc(r)
	if isNilI(a) {
		return nil, err
	}
	return a, err
}

func writeTo(v interface{}, w io.Writer) error {
	switch t := v.(type) {
	case raml.APISpec:
		return t.WriteRAML(w)
	case raml.Library:
		return t.WriteRAML(w)
	}
	panic("harness: cannot write")
}

func checkFaults(c *MadeCase, s *Stats) error {
	if !c.ok() {
		return s.skip()
	}
	c.describe(s)
	v, err := c.make()
	if err != nil {
		return err
	}
	if c.Pad > 0 {
		m := call(v, "ExtraFacets").(raml.AnyMap)
		if c.Nums[0]%2 == 0 {
			m.Put("zzpad", strings.Repeat("lorem ipsum ", c.Pad/12)+"end")
		} else {
			m.Put("zzpad", strings.Split(strings.Repeat("lorem,ipsum,", c.Pad/20)+"end", ","))
		}
		s.class("%d KiB or more", 1<<(bits.Len(uint(c.Pad))-1)>>10)
	}
	before, err := observeDoc(v)
	if err != nil {
		return err
	}
	full, err := write(v)
	if err != nil {
		return fmt.Errorf("write: %w", err)
	}
	// Writers.
	offsets := []int{0, 1, len(full) - 1, strings.IndexByte(full, '\n'), strings.IndexByte(full, '\n') + 1}
	for _, n := range c.Nums {
		offsets = append(offsets, n%len(full))
	}
	values := 4
	if c.Pad > 0 {
		offsets, values = offsets[3:8], 1
	}
	for i := 0; i < 4*len(offsets); i++ {
		k := offsets[i/4]
		w := &faultWriter{left: k, once: i%2 == 1, late: i%4 >= 2, err: faults[(i+c.Nums[0])%len(faults)]}
		if w.err == io.ErrUnexpectedEOF && c.Nums[1]%2 == 0 {
			w.err = io.EOF
		}
		if err := writeTo(v, w); err == nil {
			return fmt.Errorf("the writer failed after %d of %d bytes, but no error was reported", k, len(full))
		}
		if got := w.got.String(); w.late && (len(got) <= k || !strings.HasPrefix(full, got)) || !w.late && got != full[:k] {
			return fmt.Errorf("the writer failed after %d bytes, but what it got is not the start of the document: %s", k,
				textDiff(full[:k], got))
		}
		s.add("failing writers", 1)
	}
	again, err := write(v)
	if err != nil {
		return fmt.Errorf("after failed writes: %w", err)
	}
	if again != full {
		return fmt.Errorf("after failed writes another text is written: %s", textDiff(full, again))
	}
	after, err := observeDoc(v)
	if err != nil {
		return err
	}
	if m := diff(before, after); m != "" {
		return fmt.Errorf("failed writes changed the document: %s", m)
	}
	// Readers.
	for i := 0; i < 3; i++ {
		r := &faultReader{text: full, sizes: c.Nums, end: io.EOF, with: i == 1, empty: i == 2, i: i}
		x, err := parseFrom(r, c.Model.Lib)
		if err != nil || x == nil {
			return fmt.Errorf("a reader that hands out the document in pieces (%d): %v", i, err)
		}
		d, err := observeDoc(x)
		if err != nil {
			return err
		}
		if m := diff(before, d); m != "" {
			return fmt.Errorf("a reader that hands out the document in pieces (%d): %s", i, m)
		}
		s.add("chunked readers", 1)
	}
	for i, k := range append(offsets, len(full)) {
		r := &faultReader{text: full[:k], sizes: c.Nums, end: faults[(i+c.Nums[0])%len(faults)], with: i%2 == 0, i: i}
		x, err := parseFrom(r, c.Model.Lib)
		if err == nil {
			return fmt.Errorf("the reader failed after %d of %d bytes, but no error was reported", k, len(full))
		}
		if x != nil {
			return fmt.Errorf("the reader failed after %d of %d bytes, and a document was returned with the error", k, len(full))
		}
		s.add("failing readers", 1)
	}
	// Values that cannot be written.
	maps := openMaps(v, c.Model)
	for i := 0; i < values && i < len(c.Nums); i++ {
		remove := putFaulty(maps[c.Nums[i]%len(maps)], c.Nums[i]/7)
		if _, err := write(v); err == nil {
			return fmt.Errorf("a value that cannot be written was written")
		}
		if _, err := yaml.Marshal(v); err == nil {
			return fmt.Errorf("a value that cannot be written was written by yaml.Marshal")
		}
		remove()
		again, err := write(v)
		if err != nil {
			return fmt.Errorf("after a value that could not be written was removed: %w", err)
		}
		if again != full {
			return fmt.Errorf("after a value that could not be written was removed: %s", textDiff(full, again))
		}
		s.add("values that cannot be written", 1)
	}
	return nil
}

// ---- C20: types on their own

// eachType visits the types of a document with their models.
func eachType(m interface{}, model []Named, f func(raml.DataType, *TD)) {
	for i := range model {
		e := call(m, "Get", model[i].Name)
		if dt, ok := e.(raml.DataType); ok && !isNilI(dt) {
			walkType(dt, model[i].Type, f)
		}
	}
}

func walkType(dt raml.DataType, t *TD, f func(raml.DataType, *TD)) {
	f(dt, t)
	if isNilI(dt) || !isExt(t.Kind) {
		return
	}
	if t.Items != nil {
		if it, ok := call(dt, "Items").(raml.DataType); ok {
			walkType(it, t.Items, f)
		}
	}
	if len(t.Properties) > 0 {
		eachType(call(dt, "Properties"), t.Properties, f)
	}
	for _, x := range t.Facets {
		if m, ok := call(dt.(raml.ExtendedDataType).FacetDefinitions(), "Get", x.Name).(raml.DataTypeMap); ok && m != nil {
			eachType(m, x.Types, f)
		}
	}
}

func typesOf(v interface{}) raml.DataTypeMap { return call(v, "Types").(raml.DataTypeMap) }

// rereadTD reads a type declaration that was written on its own.
func rereadTD(text string) (*TD, error) {
	y, ok, err := decodeTree([]byte(text))
	if !ok || err != nil || y == nil {
		return nil, fmt.Errorf("not YAML: %v", err)
	}
	if at := stdTags(y, ""); at != "" {
		return nil, fmt.Errorf("an unexpected tag or a repeated key: %s", at)
	}
	return inTD(y)
}

func checkAlone(c *MadeCase, s *Stats) error {
	if !c.ok() {
		return s.skip()
	}
	c.describe(s)
	v, err := c.make()
	if err != nil {
		return err
	}
	var bad error
	eachType(typesOf(v), c.Model.Types, func(dt raml.DataType, t *TD) {
		if bad != nil {
			return
		}
		bad = aloneTD(dt, t, s)
	})
	if bad != nil {
		return bad
	}
	got, err := observeDoc(v)
	if err != nil {
		return err
	}
	if m := diff(visible(c.Model), got); m != "" {
		return fmt.Errorf("rendering the types changed the document: %s", m)
	}
	return nil
}

func aloneTD(dt raml.DataType, t *TD, s *Stats) error {
	s.add("types rendered", 1)
	text, err := dt.ToRAML()
	if err != nil {
		return fmt.Errorf("ToRAML of a type of kind %s: %w", t.Kind, err)
	}
	ytext, err := yaml.Marshal(dt)
	if err != nil {
		return fmt.Errorf("yaml.Marshal of a type of kind %s: %w", t.Kind, err)
	}
	for name, tx := range map[string]string{"ToRAML": text, "yaml.Marshal": string(ytext)} {
		got, err := rereadTD(tx)
		if err != nil {
			return fmt.Errorf("%s of a type of kind %s: %w\n%s", name, t.Kind, err, tx)
		}
		if m := diff(t, got); m != "" {
			return fmt.Errorf("%s of a type of kind %s says something else: %s\n%s", name, t.Kind, m, tx)
		}
		y, _, _ := decodeTree([]byte(tx))
		back, err := observeTD(parseOne(y.toNode()))
		if err != nil {
			return err
		}
		if m := diff(visibleTD(t), back); m != "" {
			return fmt.Errorf("%s of a type of kind %s is read back as something else: %s\n%s", name, t.Kind, m, tx)
		}
	}
	again, err := dt.ToRAML()
	if err != nil || again != text {
		return fmt.Errorf("ToRAML of a type of kind %s gives another text the second time: %v", t.Kind, err)
	}
	return nil
}

// ---- C21: entry points

func newDoc(lib bool) interface{} {
	if lib {
		return rbuild.NewLibrary()
	}
	return rbuild.NewAPISpec()
}

func checkEntries(c *MadeCase, s *Stats) error {
	if !c.ok() {
		return s.skip()
	}
	c.describe(s)
	v, err := c.make()
	if err != nil {
		return err
	}
	out, err := write(v)
	if err != nil {
		return fmt.Errorf("write: %w", err)
	}
	// Writing through the YAML library.
	b, err := yaml.Marshal(v)
	if err != nil {
		return fmt.Errorf("yaml.Marshal: %w", err)
	}
	y1, ok1, err1 := decodeTree([]byte(out))
	y2, ok2, err2 := decodeTree(b)
	if !ok1 || !ok2 || err1 != nil || err2 != nil {
		return fmt.Errorf("not YAML: %v, %v", err1, err2)
	}
	if !y1.equal(y2) && !(empty(y1) && empty(y2)) {
		return fmt.Errorf("WriteRAML says %s and yaml.Marshal says %s", short(y1.String()), short(y2.String()))
	}
	// The same as a part of something else.
	for i, x := range []interface{}{map[string]interface{}{"doc": v}, []interface{}{v, v}, struct{ Doc interface{} }{v}} {
		b2, err := yaml.Marshal(x)
		if err != nil {
			return fmt.Errorf("yaml.Marshal of a value with the document: %w", err)
		}
		if !within(b, y2, i) {
			s.class("not carried within another value by the YAML library")
			continue
		}
		y, ok, err := decodeTree(b2)
		if !ok || err != nil || len(y.C) != 2 {
			return fmt.Errorf("a value with the document is not written as YAML: %v", err)
		}
		if !y.C[1].equal(y2) || i == 1 && !y.C[0].equal(y2) {
			return fmt.Errorf("within another value (%d) yaml.Marshal says %s, otherwise %s", i, short(y.C[1].String()), short(y2.String()))
		}
	}
	// Readers of all sorts, some of which something else was read from before.
	if err := checkReaders(c, out); err != nil {
		return err
	}
	// Reading through the YAML library.
	texts := []string{out, string(b)}
	if c.Text != "" {
		texts = append(texts, c.Text)
	}
	for i, text := range texts {
		p, err := parse(text, c.Model.Lib)
		if err != nil {
			return fmt.Errorf("text %d: %w", i, err)
		}
		want, err := observeDoc(p)
		if err != nil {
			return err
		}
		u := newDoc(c.Model.Lib)
		if len(text)%3 == 0 {
			var n yaml.Node
			if err := yaml.Unmarshal([]byte(text), &n); err != nil {
				return fmt.Errorf("text %d: yaml.Unmarshal: %w", i, err)
			}
			if n.Kind != 0 {
				if err := n.Decode(u); err != nil {
					return fmt.Errorf("text %d: Decode: %w", i, err)
				}
			}
		} else if err := yaml.Unmarshal([]byte(text), u); err != nil {
			return fmt.Errorf("text %d: yaml.Unmarshal: %w", i, err)
		}
		got, err := observeDoc(u)
		if err != nil {
			return err
		}
		if m := diff(want, got); m != "" {
			return fmt.Errorf("text %d: yaml.Unmarshal reads something else: %s", i, m)
		}
		ou, err := write(u)
		if err != nil {
			return fmt.Errorf("text %d: write: %w", i, err)
		}
		op, err := write(p)
		if err != nil {
			return fmt.Errorf("text %d: write: %w", i, err)
		}
		if ou != op {
			return fmt.Errorf("text %d: what yaml.Unmarshal read is written differently: %s", i, textDiff(op, ou))
		}
	}
	return nil
}

// checkReaders reads a text from several sorts of readers.
func checkReaders(c *MadeCase, text string) error {
	_, want, err := parseObs(text, c.Model.Lib)
	if err != nil {
		return err
	}
	before := "title: before\nusage: before\n# before\n"[:1+len(text)%37]
	skip := func(r io.Reader) io.Reader {
		if _, err := io.ReadFull(r, make([]byte, len(before))); err != nil {
			panic("harness: " + err.Error())
		}
		return r
	}
	file, err := os.CreateTemp("", "vp-reader")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.Remove(file.Name())
	defer file.Close()
	if _, err := file.WriteString(before + text); err != nil {
		panic("harness: " + err.Error())
	}
	if _, err := file.Seek(0, io.SeekStart); err != nil {
		panic("harness: " + err.Error())
	}
	half := len(text) / 2
	for i, r := range []io.Reader{
		strings.NewReader(text), bytes.NewReader([]byte(text)), bytes.NewBufferString(text),
		skip(strings.NewReader(before + text)), skip(bytes.NewReader([]byte(before + text))),
		skip(bytes.NewBufferString(before + text)), skip(bufio.NewReaderSize(strings.NewReader(before+text), 64)), skip(file),
		io.NewSectionReader(strings.NewReader(before+text+before), int64(len(before)), int64(len(text))),
		io.LimitReader(strings.NewReader(text+before), int64(len(text))),
		io.MultiReader(strings.NewReader(text[:half]), strings.NewReader(text[half:])),
	} {
		v, err := parseFrom(r, c.Model.Lib)
		if err != nil {
			return fmt.Errorf("reader %d, a %T: %w", i, r, err)
		}
		got, err := observeDoc(v)
		if err != nil {
			return err
		}
		if m := diff(want, got); m != "" {
			return fmt.Errorf("reader %d, a %T: something else is read: %s", i, r, m)
		}
	}
	return nil
}

// within tells whether the YAML library alone carries a text (which says y) over
// when it is a part of another.
func within(text []byte, y *Y, i int) bool {
	var n yaml.Node
	if yaml.Unmarshal(text, &n) != nil {
		return false
	}
	want, x := yMap(yStr("doc"), y), y.toNode()
	if len(n.Content) > 0 {
		x = n.Content[0]
	}
	out := &yaml.Node{Kind: yaml.MappingNode, Content: []*yaml.Node{{Kind: yaml.ScalarNode, Value: "doc"}, x}}
	if i == 1 {
		want = yList(y, y)
		out = &yaml.Node{Kind: yaml.SequenceNode, Content: []*yaml.Node{x, x}}
	}
	b, err := encodeNode(out, 4)
	if err != nil {
		return false
	}
	got, ok, err := decodeTree(b)
	return ok && err == nil && got.equal(want)
}

func empty(y *Y) bool { return y == nil || isS(y, "!!null") || len(y.C) == 0 }

const madeRule = "a case is a generated document, either in a generated spelling to be read or with a sequence of choices " +
	"between ways to build it; it is non-trivial when it says at least three things"

func init() {
	register("C07", madeRule, func(t *rapid.T) *MadeCase { return genMade(t, "", 0) }, checkPure)
	register("C14", madeRule+"; the offsets of faults and the sizes of pieces are generated too, and some documents are long",
		genFaults, checkFaults)
	register("C20", madeRule, func(t *rapid.T) *MadeCase { return genMade(t, "", 0) }, checkAlone)
	register("C21", madeRule, func(t *rapid.T) *MadeCase { return genMade(t, "", 0) }, checkEntries)
}
