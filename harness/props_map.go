package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// A history of operations on two maps of one class.
type MapCase struct {
	Class string
	Size  int
	Keys  []*Y // the keys that are used
	Vals  []*Y // the values, for classes that hold plain values
	Ops   []MapOp
}

type MapOp struct {
	Op   string
	On   int `json:",omitempty"` // which of the two maps
	K, V int `json:",omitempty"` // indexes into Keys and Vals
}

var mapClasses = func() (out []string) {
	for k := range mapMakers {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}()

// heldKind is the kind of type that goes with a class of maps of examples.
var heldKind = func() map[string]string {
	out := map[string]string{}
	for k, c := range exampleMapName {
		if k != kAny {
			out[c] = k
		}
	}
	return out
}()

func plainClass(class string) bool {
	return class == "AnyMap" || class == "UntypedMap" || class == "AnyExampleMap" || class == "StringMap"
}

const nVals = 6

// plainY draws a value that can be stored as a plain Go value.
func (g *G) plainY(depth int) *Y {
	switch g.n(8) {
	case 0, 1:
		return yStr(g.str())
	case 2:
		return yInt(g.i64())
	case 3:
		return yBool(g.coin())
	case 4:
		return yUint(g.u64())
	case 5:
		if depth < 2 {
			return yFlt(float64(g.n(200))/8 + 0.5)
		}
		return yNull()
	case 6:
		if depth > 0 {
			o := yList()
			for i, n := 0, g.n(3); i < n; i++ {
				o.C = append(o.C, g.plainY(depth-1))
			}
			return o
		}
		return yStr(g.ident())
	default:
		if depth > 0 {
			return yMap().put(g.str(), g.plainY(depth-1))
		}
		return yInt(int64(g.n(50)))
	}
}

// plainGo is the Go value of a plainY.
func plainGo(y *Y) interface{} {
	switch {
	case isS(y, "!!null"):
		return nil
	case isS(y, "!!float"):
		return textFlt(y.V)
	case isS(y, "!!int"):
		if i, err := strconv.ParseInt(y.V, 10, 64); err == nil {
			return i
		}
		u, err := strconv.ParseUint(y.V, 10, 64)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return u
	case isS(y, "!!bool"):
		return y.V == "true"
	case isS(y, "!!str"):
		return y.V
	case y.K == "l":
		out := []interface{}{}
		for _, c := range y.C {
			out = append(out, plainGo(c))
		}
		return out
	}
	out := map[string]interface{}{}
	for i := 0; i+1 < len(y.C); i += 2 {
		out[y.C[i].V] = plainGo(y.C[i+1])
	}
	return out
}

func genMapCase(serialize bool) func(t *rapid.T) *MapCase {
	return func(t *rapid.T) *MapCase {
		g := newG(t)
		c := &MapCase{Class: pick(g, mapClasses), Size: g.n(4)}
		if g.p(3) {
			c.Class = pick(g, []string{"AnyMap", "UntypedMap", "StringMap", "AnyExampleMap"})
		}
		used := map[string]bool{}
		large := g.p(12)
		keys := 2 + g.n(7)
		if large {
			keys = 20 + g.n(100)
			if g.p(6) {
				keys = 40 + g.even(260)
			}
		}
		for i := 0; i < keys; i++ {
			k := yStr(g.name(used, nil))
			if g.p(8) && !used[""] {
				used[""] = true
				k = yStr("")
			}
			if c.Class == "AnyMap" && g.p(3) {
				switch g.n(4) {
				case 0:
					k = yInt(int64(g.n(250)))
				case 3:
					// Different keys may have the same text.
					if k = yInt(int64(i)); !serialize && !used[k.V] {
						used[k.V] = true
						c.Keys = append(c.Keys, yStr(k.V), k)
						continue
					}
				case 1:
					k = yBool(g.coin())
				case 2:
					k = yFlt(float64(g.n(100)) + 0.5)
				}
				if used[k.V] {
					continue
				}
				used[k.V] = true
			}
			c.Keys = append(c.Keys, k)
		}
		if plainClass(c.Class) {
			for i := 0; i < nVals; i++ {
				if c.Class == "StringMap" {
					if i == 0 && g.coin() {
						c.Vals = append(c.Vals, yStr(""))
						continue
					}
					c.Vals = append(c.Vals, yStr(g.str()))
				} else {
					c.Vals = append(c.Vals, g.plainY(2))
				}
			}
		}
		ops := []string{"Put", "Put", "Put", "PutIfNotNil", "PutIfNotNil:nil", "ReplaceOrPut", "ReplaceIfExists", "Delete"}
		max := 40
		if large {
			max = 200
		}
		if serialize {
			max = max * 2 / 5
			ops = append(ops, "Ordered", "Unordered", "Marshal")
		}
		if keys > 60 {
			// Many entries to begin with.
			for i := range c.Keys {
				c.Ops = append(c.Ops, MapOp{"Put", 0, i, g.n(nVals)})
			}
			max = 20
		}
		for i, n := 0, 1+g.n(max); i < n; i++ {
			on := 0
			if g.p(4) {
				on = 1
			}
			c.Ops = append(c.Ops, MapOp{pick(g, ops), on, g.n(len(c.Keys)), g.n(nVals)})
		}
		return c
	}
}

// ref is the reference map.
type ref struct {
	keys []int
	vals []int
}

func (r *ref) index(k int) int {
	for i, x := range r.keys {
		if x == k {
			return i
		}
	}
	return -1
}

func (r *ref) del(k int) {
	if i := r.index(k); i >= 0 {
		r.keys = append(append([]int{}, r.keys[:i]...), r.keys[i+1:]...)
		r.vals = append(append([]int{}, r.vals[:i]...), r.vals[i+1:]...)
	}
}

func (r *ref) put(k, v int) {
	r.del(k)
	r.keys = append(r.keys, k)
	r.vals = append(r.vals, v)
}

func (r *ref) replace(k, v int) bool {
	i := r.index(k)
	if i >= 0 {
		r.vals[i] = v
	}
	return i >= 0
}

func (r *ref) String() string { return fmt.Sprint(r.keys, r.vals) }

// heldDecls are the types that maps of types hold.
var heldDecls = func() (out []*Y) {
	for _, k := range []string{kStr, kInt, kObj, kArray, "Foo", kNil} {
		out = append(out, yStr(k))
	}
	return
}()

// heldVals makes the values that the maps hold.
func heldVals(c *MapCase) (out []interface{}) {
	if plainClass(c.Class) {
		for _, y := range c.Vals {
			out = append(out, plainGo(y))
		}
		return
	}
	for i := 0; i < nVals; i++ {
		text := "v" + strconv.Itoa(i)
		switch c.Class {
		case "AnnotationMap":
			out = append(out, raml.NewUntypedMap(1).SerializeOrdered(i%2 == 0).Put("k", text).Put("a", int64(i)))
		case "FacetMap":
			dt := parseOne(yMap().put("type", yStr("T"+text)).toNode())
			out = append(out, raml.NewDataTypeMap(1).SerializeOrdered(i%2 == 0).Put("k", dt).Put("a", dt))
		case "DataTypeMap", "PropertyMap":
			out = append(out, parseOne(heldDecls[i].toNode()))
		default:
			ex := newExample(heldKind[c.Class])
			call(ex, "SetDisplayName", text)
			out = append(out, ex)
		}
	}
	return
}

func sameVal(a, b interface{}) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	return false
}

func sameObj(class string, a, b interface{}) bool {
	if plainClass(class) {
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

type mapRun struct {
	c    *MapCase
	vals []interface{}
	keys []interface{}
	maps [2]interface{}
	refs [2]ref
	ord  [2]bool
	// what the operations of the case did
	moved, removed, replaced int
}

func newMapRun(c *MapCase) *mapRun {
	r := &mapRun{c: c, vals: heldVals(c)}
	for _, k := range c.Keys {
		r.keys = append(r.keys, plainGo(k))
	}
	for i := range r.maps {
		r.maps[i] = mapMakers[c.Class](c.Size)
		r.ord[i] = true
	}
	return r
}

// apply does one operation on a map and its model.
func (r *mapRun) apply(op MapOp) error {
	m, ref := r.maps[op.On], &r.refs[op.On]
	k, v := r.keys[op.K], r.vals[op.V]
	var got interface{}
	switch op.Op {
	case "Put":
		if ref.index(op.K) >= 0 {
			r.moved++
		}
		got = call(m, "Put", k, v)
		ref.put(op.K, op.V)
	case "PutIfNotNil", "PutIfNotNil:nil":
		mt := reflect.ValueOf(m).MethodByName("PutIfNotNil")
		pt := mt.Type().In(1)
		arg := reflect.Zero(pt) // nil
		if op.Op == "PutIfNotNil" && v != nil {
			if pt.Kind() == reflect.Ptr {
				arg = reflect.New(pt.Elem())
				arg.Elem().Set(reflect.ValueOf(v))
			} else {
				arg = reflect.New(reflect.TypeOf(v))
				arg.Elem().Set(reflect.ValueOf(v))
				if op.K%2 == 0 {
					arg = arg.Elem()
				}
			}
			ref.put(op.K, op.V)
		} else if pt.Kind() == reflect.Interface && op.K%2 == 0 {
			arg = reflect.ValueOf((*string)(nil)) // a nil pointer in an interface
		}
		got = mt.Call([]reflect.Value{reflect.ValueOf(k), arg})[0].Interface()
	case "ReplaceOrPut":
		got = call(m, "ReplaceOrPut", k, v)
		if ref.replace(op.K, op.V) {
			r.replaced++
		} else {
			ref.put(op.K, op.V)
		}
	case "ReplaceIfExists":
		got = call(m, "ReplaceIfExists", k, v)
		if ref.replace(op.K, op.V) {
			r.replaced++
		}
	case "Delete":
		if ref.index(op.K) >= 0 {
			r.removed++
		}
		got = call(m, "Delete", k)
		ref.del(op.K)
	case "Ordered", "Unordered":
		r.ord[op.On] = op.Op == "Ordered"
		got = call(m, "SerializeOrdered", r.ord[op.On])
	case "Marshal":
		if _, err := yaml.Marshal(m); err != nil {
			return fmt.Errorf("yaml: %w", err)
		}
		got = m
	default:
		panic("harness: unknown operation " + op.Op)
	}
	if got != m {
		return fmt.Errorf("%s returned another map", op.Op)
	}
	return nil
}

// agree compares a map with its model through every accessor.
func (r *mapRun) agree(on int) error {
	m, ref := r.maps[on], &r.refs[on]
	if n := call(m, "Len").(int); n != len(ref.keys) {
		return fmt.Errorf("Len() is %d, want %d", n, len(ref.keys))
	}
	mv := reflect.ValueOf(m)
	for i, k := range ref.keys {
		e := reflect.ValueOf(call(m, "At", i))
		if gk := e.FieldByName("Key").Interface(); !sameVal(gk, r.keys[k]) {
			return fmt.Errorf("At(%d) has key %v, want %v", i, gk, r.keys[k])
		}
		if gv := e.FieldByName("Val").Interface(); !sameObj(r.c.Class, gv, r.vals[ref.vals[i]]) {
			return fmt.Errorf("At(%d) has value %v, want %v", i, gv, r.vals[ref.vals[i]])
		}
	}
	for k := range r.keys {
		i := ref.index(k)
		kk := reflect.ValueOf(r.keys[k])
		res := mv.MethodByName("Get").Call([]reflect.Value{kk})
		if res[1].Bool() != (i >= 0) {
			return fmt.Errorf("Get(%v) found: %v, want %v", kk, res[1], i >= 0)
		}
		if i >= 0 && !sameObj(r.c.Class, res[0].Interface(), r.vals[ref.vals[i]]) {
			return fmt.Errorf("Get(%v) is %v, want %v", kk, res[0], r.vals[ref.vals[i]])
		}
		if i < 0 && !isNilI(res[0].Interface()) && res[0].Interface() != "" {
			return fmt.Errorf("Get(%v) is %v, but there is no such entry", kk, res[0])
		}
		if got := mv.MethodByName("Has").Call([]reflect.Value{kk})[0].Bool(); got != (i >= 0) {
			return fmt.Errorf("Has(%v) is %v", kk, got)
		}
		if got := int(mv.MethodByName("IndexOf").Call([]reflect.Value{kk})[0].Int()); got != i {
			return fmt.Errorf("IndexOf(%v) is %d, want %d", kk, got, i)
		}
		// An option cannot hold nil.
		if f := mv.MethodByName("GetOpt"); f.IsValid() && (i < 0 || r.vals[ref.vals[i]] != nil) {
			o := f.Call([]reflect.Value{kk})[0].Interface()
			if p := call(o, "IsPresent").(bool); p != (i >= 0) {
				return fmt.Errorf("GetOpt(%v) is present: %v", kk, p)
			}
			if i >= 0 && !sameVal(call(o, "Get"), r.vals[ref.vals[i]]) {
				return fmt.Errorf("GetOpt(%v) is %v, want %v", kk, call(o, "Get"), r.vals[ref.vals[i]])
			}
		}
	}
	j := 0
	var bad error
	fe := mv.MethodByName("ForEach")
	f := reflect.MakeFunc(fe.Type().In(0), func(in []reflect.Value) []reflect.Value {
		if bad == nil {
			if j >= len(ref.keys) {
				bad = fmt.Errorf("ForEach visits more than %d entries", j)
			} else if !sameVal(in[0].Interface(), r.keys[ref.keys[j]]) ||
				!sameObj(r.c.Class, in[1].Interface(), r.vals[ref.vals[j]]) {
				bad = fmt.Errorf("ForEach visits %v: %v at %d, want %v", in[0], in[1], j, r.keys[ref.keys[j]])
			}
		}
		j++
		return nil
	})
	if fe.Call([]reflect.Value{f})[0].Interface() != m {
		return fmt.Errorf("ForEach returned another map")
	}
	if bad == nil && j != len(ref.keys) {
		bad = fmt.Errorf("ForEach visits %d entries, want %d", j, len(ref.keys))
	}
	return bad
}

func (r *mapRun) step(i int, op MapOp) error {
	if err := r.apply(op); err != nil {
		return fmt.Errorf("%s, step %d %v: %w", r.c.Class, i, op, err)
	}
	for on := range r.maps {
		if err := r.agree(on); err != nil {
			return fmt.Errorf("%s, map %d after step %d %v: %w", r.c.Class, on, i, op, err)
		}
	}
	return nil
}

func checkMap(c *MapCase, s *Stats) error {
	r := newMapRun(c)
	s.class("class:%s", c.Class)
	for i, op := range c.Ops {
		if err := r.step(i, op); err != nil {
			return err
		}
	}
	s.add("operations", len(c.Ops))
	for name, n := range map[string]int{"a Put of a present key": r.moved, "a Delete of a present key": r.removed,
		"a replacement": r.replaced} {
		if n > 0 {
			s.class("with %s", name)
		}
	}
	if r.moved+r.removed+r.replaced > 0 {
		s.interesting()
	}
	return nil
}

// jsonAny decodes JSON with exact numbers and ordered objects reduced to maps.
func jsonAny(b []byte) (v interface{}, err error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	err = d.Decode(&v)
	return
}

// plainJSON is the JSON of a plain value, as decoded by jsonAny.
func plainJSON(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	out, err := jsonAny(b)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return out
}

func checkMapSerial(c *MapCase, s *Stats) error {
	r := newMapRun(c)
	s.class("class:%s", c.Class)
	for i, op := range c.Ops {
		if err := r.step(i, op); err != nil {
			return err
		}
	}
	for on := range r.maps {
		if len(r.refs[on].keys) > 1 {
			s.interesting()
		}
		s.class("ordered: %v", r.ord[on])
		if err := r.serial(on, s); err != nil {
			return fmt.Errorf("%s, map %d, ordered %v, entries %v: %w", c.Class, on, r.ord[on], &r.refs[on], err)
		}
		if err := r.agree(on); err != nil {
			return fmt.Errorf("%s, map %d after it was written: %w", c.Class, on, err)
		}
		if c.Class == "AnyMap" || c.Class == "UntypedMap" {
			if err := faultyMap(r.maps[on], len(c.Ops)+on); err != nil {
				return fmt.Errorf("%s, map %d, ordered %v: %w", c.Class, on, r.ord[on], err)
			}
			s.add("values that cannot be written", 1)
		}
	}
	return nil
}

// heldY is the YAML form of a value that a map holds.
func (r *mapRun) heldY(v int) (*Y, error) {
	if plainClass(r.c.Class) {
		return r.c.Vals[v], nil
	}
	if r.c.Class == "AnnotationMap" {
		text := "v" + strconv.Itoa(v)
		if v%2 == 0 {
			return &Y{K: "l", T: "!!omap", C: []*Y{yMap().put("k", yStr(text)), yMap().put("a", yInt(int64(v)))}}, nil
		}
		return yMap().put("k", yStr(text)).put("a", yInt(int64(v))), nil
	}
	if r.c.Class == "FacetMap" {
		t := yStr("Tv" + strconv.Itoa(v))
		if v%2 == 0 {
			return &Y{K: "l", T: "!!omap", C: []*Y{yMap().put("k", t), yMap().put("a", t)}}, nil
		}
		return yMap().put("k", t).put("a", t), nil
	}
	text := "v" + strconv.Itoa(v)
	switch r.c.Class {
	case "DataTypeMap", "PropertyMap":
		return heldDecls[v], nil
	}
	return yMap().put("displayName", yStr(text)), nil
}

func (r *mapRun) serial(on int, s *Stats) error {
	m, ref := r.maps[on], &r.refs[on]
	want := yMap()
	if r.ord[on] {
		want = &Y{K: "l", T: "!!omap"}
	}
	for i, k := range ref.keys {
		v, err := r.heldY(ref.vals[i])
		if err != nil {
			return err
		}
		if r.ord[on] {
			want.C = append(want.C, yMap(r.c.Keys[k], v))
		} else {
			want.C = append(want.C, r.c.Keys[k], v)
		}
	}
	node, err := m.(interface{ ToYAML() (*yaml.Node, error) }).ToYAML()
	if err != nil {
		return fmt.Errorf("ToYAML: %w", err)
	}
	if got := fromNode(node); !got.equalLoose(want) {
		return fmt.Errorf("ToYAML gives %v, want %v", got, want)
	}
	b, err := yaml.Marshal(m)
	if err != nil {
		return fmt.Errorf("yaml: %w", err)
	}
	if text, err := encodeNode(want.toNode(), 4); err == nil && yamlFaithful(text, want) {
		s.add("YAML documents compared", 1)
		got, ok, err := decodeTree(b)
		if !ok || err != nil {
			return fmt.Errorf("written as %q, which is not YAML: %v", b, err)
		}
		if !got.equal(want) {
			return fmt.Errorf("written as %v, want %v", got, want)
		}
	}
	b, err = json.Marshal(m)
	if err != nil {
		return fmt.Errorf("JSON: %w", err)
	}
	got, err := jsonAny(b)
	if err != nil {
		return fmt.Errorf("written as %s, which is not JSON: %v", b, err)
	}
	val := func(i int) interface{} {
		if r.c.Class != "AnnotationMap" {
			// A value looks in the map as it does on its own.
			return plainJSON(r.vals[ref.vals[i]])
		}
		v := ref.vals[i]
		text := "v" + strconv.Itoa(v)
		if v%2 == 0 {
			return plainJSON([]interface{}{map[string]interface{}{"key": "k", "value": text},
				map[string]interface{}{"key": "a", "value": v}})
		}
		return plainJSON(map[string]interface{}{"k": text, "a": v})
	}
	var wantJ interface{}
	if r.ord[on] {
		l := []interface{}{}
		for i, k := range ref.keys {
			l = append(l, map[string]interface{}{"key": plainJSON(r.keys[k]), "value": val(i)})
		}
		wantJ = l
	} else {
		o := map[string]interface{}{}
		for i, k := range ref.keys {
			o[fmt.Sprint(plainJSON(fmt.Sprint(r.keys[k])))] = val(i)
		}
		wantJ = o
	}
	s.add("JSON documents compared", 1)
	if !reflect.DeepEqual(got, wantJ) {
		return fmt.Errorf("written as %s, want %s", b, toJSON(wantJ))
	}
	return nil
}

// equalLoose compares trees, taking an absent tag of a collection for the
// standard one.
func (y *Y) equalLoose(o *Y) bool { return y.equal(o) }

const mapRule = "a case is a history of operations on two maps of one of the 21 classes, compared with a reference after " +
	"every step; it is non-trivial when a present key is put again, replaced or deleted"

const serialRule = "a case is a history of operations on two maps of one of the 21 classes, which are then written; it is " +
	"non-trivial when a written map has at least two entries"

func init() {
	register("C10", mapRule, genMapCase(false), checkMap)
	register("C11", serialRule, genMapCase(true), checkMapSerial)
}
