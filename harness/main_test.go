package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"testing"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	debug.SetMaxStack(128 << 20)
	os.Exit(m.Run())
}

// TestProp searches for a counterexample of the property in VP_PROP, or decides
// the case in VP_REPLAY.
func TestProp(t *testing.T) {
	p := props[os.Getenv("VP_PROP")]
	if p == nil {
		t.Fatalf("no property %q", os.Getenv("VP_PROP"))
	}
	s := newStats()
	if in := os.Getenv("VP_REPLAY"); in != "" {
		if err := runCase(p, loadCase(p, in), s); err != nil {
			fmt.Printf("FAILED: %v\n", err)
			os.Exit(10)
		}
		fmt.Println("REPLAY-OK")
		return
	}
	if dir := os.Getenv("VP_REPLAYS"); dir != "" {
		files, err := filepath.Glob(filepath.Join(dir, "*.json"))
		if err != nil {
			t.Fatal(err)
		}
		for _, f := range files {
			if err := runCase(p, loadCase(p, f), s); err != nil {
				fmt.Printf("FAILED: %s: %v\n", f, err)
				os.Exit(10)
			}
		}
		fmt.Println("REPLAYS-OK", len(files))
		return
	}
	var wd watchdog
	fail, inflight := os.Getenv("VP_FAIL"), os.Getenv("VP_INFLIGHT")
	failed := false
	defer func() {
		for h := range s.Hashes {
			s.HashList = append(s.HashList, h)
		}
		sort.Slice(s.HashList, func(i, j int) bool { return s.HashList[i] < s.HashList[j] })
		if out := os.Getenv("VP_OUT"); out != "" {
			b, err := json.Marshal(struct {
				*Stats
				Rule   string
				Failed bool
			}{s, p.Rule, failed})
			if err != nil {
				panic(err)
			}
			if err := os.WriteFile(out, b, 0o644); err != nil {
				panic(err)
			}
		}
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := p.Gen(rt)
		if inflight != "" {
			saveReplay(inflight, p.ID, c, nil)
		}
		wd.reset()
		if err := runCase(p, c, s); err != nil {
			failed = true
			if fail != "" {
				saveReplay(fail, p.ID, c, err)
			}
			rt.Fatalf("%v", err)
		}
	})
}

func loadCase(p *Prop, path string) interface{} {
	b, err := os.ReadFile(path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		panic("harness: " + err.Error())
	}
	c := p.New()
	if err := json.Unmarshal(r.Case, c); err != nil {
		panic("harness: " + err.Error())
	}
	return c
}

// TestProbes looks whether the known findings are still there.
func TestProbes(t *testing.T) {
	for _, f := range findings {
		if f.prop == os.Getenv("VP_PROBE") && f.present() {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.prop, f.what)
		}
	}
}

// TestMakeCase prints the case that goes with the document in VP_MAKECASE: what it
// says according to the reference reader, and its text.
func TestMakeCase(t *testing.T) {
	path := os.Getenv("VP_MAKECASE")
	if path == "" {
		t.Skip()
	}
	text, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	y, ok, err := decodeTree(text)
	if !ok || err != nil {
		t.Fatal(err)
	}
	d, err := inDoc(y, os.Getenv("VP_LIB") == "1")
	if err != nil {
		t.Fatal(err)
	}
	saveReplay(os.Getenv("VP_OUT"), os.Getenv("VP_PROP"), struct {
		Model *Doc
		Text  string
		Texts []string
	}{d, string(text), []string{string(text), string(text), string(text)}}, nil)
}
