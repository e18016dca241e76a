package harness

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Prop is one property: a generator of cases and a decision procedure.
type Prop struct {
	ID  string
	Gen func(t *rapid.T) interface{}
	// New makes an empty case to decode a saved one into.
	New   func() interface{}
	Check func(c interface{}, s *Stats) error
	Rule  string
}

var props = map[string]*Prop{}

// register adds a property whose cases are of type T.
func register[T any](id, rule string, gen func(t *rapid.T) *T, check func(c *T, s *Stats) error) {
	props[id] = &Prop{
		ID:    id,
		Rule:  rule,
		Gen:   func(t *rapid.T) interface{} { return gen(t) },
		New:   func() interface{} { return new(T) },
		Check: func(c interface{}, s *Stats) error { return check(c.(*T), s) },
	}
}

// Stats counts what a run did.
type Stats struct {
	Evaluations int
	Discarded   int
	Hashes      map[uint64]bool `json:"-"`
	HashList    []uint64
	Classes     map[string]int
	Samples     []json.RawMessage
	Extra       map[string]int

	nontrivial bool
	discard    bool
}

func newStats() *Stats {
	return &Stats{Hashes: map[uint64]bool{}, Classes: map[string]int{}, Extra: map[string]int{}}
}

// class notes that the current case belongs to a class of cases.
func (s *Stats) class(f string, a ...interface{}) { s.Classes[fmt.Sprintf(f, a...)]++ }

// interesting marks the current case as non-trivial.
func (s *Stats) interesting() { s.nontrivial = true }

// skip marks the current case as outside the domain.
func (s *Stats) skip() error { s.discard = true; return nil }

func (s *Stats) add(name string, n int) { s.Extra[name] += n }

const maxSamples = 4

// runCase decides one case.
func runCase(p *Prop, c interface{}, s *Stats) (err error) {
	s.nontrivial, s.discard = false, false
	s.Evaluations++
	defer func() {
		if r := recover(); r != nil {
			if strings.HasPrefix(fmt.Sprint(r), "harness:") {
				panic(r)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
		if s.discard {
			s.Discarded++
			return
		}
		if s.nontrivial {
			js, _ := json.Marshal(c)
			h := sha256.Sum256(js)
			k := binary.LittleEndian.Uint64(h[:])
			if !s.Hashes[k] {
				s.Hashes[k] = true
				if n := len(s.Hashes); len(s.Samples) < maxSamples && n%17 == 1 && len(js) < 6000 {
					s.Samples = append(s.Samples, js)
				}
			}
		}
	}()
	return p.Check(c, s)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "lib-go-raml") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Replay is what a replay file holds.
type Replay struct {
	Property string
	Error    string
	Case     json.RawMessage
}

func saveReplay(path, id string, c interface{}, err error) {
	js, e := json.Marshal(c)
	if e != nil {
		panic(e)
	}
	msg := ""
	if err != nil {
		msg = err.Error()
	}
	b, e := json.MarshalIndent(Replay{id, msg, js}, "", " ")
	if e != nil {
		panic(e)
	}
	if e := os.WriteFile(path, b, 0o644); e != nil {
		panic(e)
	}
}

// watchdog ends the process when one case takes far too long.
type watchdog struct{ timer *time.Timer }

func (w *watchdog) reset() {
	if w.timer != nil {
		w.timer.Stop()
	}
	w.timer = time.AfterFunc(120*time.Second, func() {
		fmt.Println("HANG: a case did not finish in 120 s")
		os.Exit(4)
	})
}
