// Command refute searches for concrete inputs on which the real code breaks a property.
//
// It is compiled into the module under test (by a go build overlay), runs the
// public API of the current tree and compares it with independently written
// oracles. It never proves anything: it turns a failed proof obligation into a
// replayable input, and stands in, bounded, for what the verifier cannot reach.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is one replayable case.
type Case struct {
	Prop  string   `json:"property"`
	Kind  string   `json:"kind"`
	Dict  string   `json:"dict,omitempty"`  // "ipa", "gen:<seed>"
	UDict string   `json:"udict,omitempty"` // "", "gen:<seed>"
	Omit  bool     `json:"omit_bos_eos,omitempty"`
	Mode  int      `json:"mode,omitempty"`
	Input []byte   `json:"input,omitempty"`
	More  [][]byte `json:"more,omitempty"`
	Nums  []int    `json:"nums,omitempty"`
	Strs  []string `json:"strs,omitempty"`
	Seed  int64    `json:"seed,omitempty"`
}

// Prop is a property with its case generator and its oracle.
type Prop struct {
	fixed func() []Case               // always run first
	gen   func(r *Rand, n int) Case   // random case number n
	run   func(c Case) error          // nil: the property holds on this case
	cost  int                         // rough weight: how many cases fewer in the same budget
}

var props = map[string]*Prop{}

var (
	curMu    sync.Mutex
	curCase  *Case
	curStart atomic.Int64
	casesRun atomic.Int64
	distinct = map[uint64]struct{}{}
)

type Result struct {
	Property    string   `json:"property"`
	Evaluations int64    `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Seed        int64    `json:"seed"`
	Failed      bool     `json:"failed"`
	Error       string   `json:"error,omitempty"`
	Case        *Case    `json:"case,omitempty"`
	Text        string   `json:"input_text,omitempty"`
	Samples     []Case   `json:"samples,omitempty"`
	WallS       float64  `json:"wall_s"`
}

func emit(res Result, out string) {
	b, _ := json.MarshalIndent(res, "", " ")
	if out != "" {
		_ = os.WriteFile(out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}

// guarded runs the oracle and turns a panic into a failure.
func guarded(p *Prop, c Case) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return p.run(c)
}

func trimCase(c Case) Case {
	if len(c.Input) > 200 {
		c.Input = c.Input[:200]
	}
	return c
}

func main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("secs", 5, "time budget")
	maxN := flag.Int("n", 1<<30, "case budget")
	out := flag.String("out", "", "result file")
	replay := flag.String("replay", "", "replay the case of this file")
	trace := flag.String("trace", "", "write each case to this file before running it")
	flag.Parse()

	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(4)
	}
	start := time.Now()
	res := Result{Property: *prop, Seed: *seed}

	fail := func(c Case, err error) {
		res.Failed = true
		res.Error = err.Error()
		res.Case = &c
		res.Text = fmt.Sprintf("%q", trimCase(c).Input)
		res.Evaluations = casesRun.Load()
		res.Distinct = len(distinct)
		res.WallS = time.Since(start).Seconds()
		emit(res, *out)
		fmt.Printf("FAILED %s: %s\n", *prop, res.Error)
		os.Exit(1)
	}
	// a case that does not end, or eats the memory, is a failure of its own
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(250 * time.Millisecond)
			t := curStart.Load()
			if t == 0 {
				continue
			}
			el := time.Since(time.Unix(0, t))
			runtime.ReadMemStats(&ms)
			if el > 60*time.Second || (el > time.Second && ms.HeapAlloc > 12<<30) {
				curMu.Lock()
				c := *curCase
				curMu.Unlock()
				fail(c, fmt.Errorf("did not end: %v, heap %d MB", el, ms.HeapAlloc>>20))
			}
		}
	}()
	one := func(c Case) error {
		c.Prop = *prop
		curMu.Lock()
		curCase = &c
		curMu.Unlock()
		if *trace != "" {
			b, _ := json.Marshal(c)
			_ = os.WriteFile(*trace, b, 0o644)
		}
		curStart.Store(time.Now().UnixNano())
		err := guarded(p, c)
		curStart.Store(0)
		casesRun.Add(1)
		return err
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		var r struct {
			Case *Case `json:"case"`
		}
		if err := json.Unmarshal(b, &r); err != nil || r.Case == nil {
			fmt.Fprintln(os.Stderr, "no case in the replay file", err)
			os.Exit(4)
		}
		if err := one(*r.Case); err != nil {
			fail(*r.Case, err)
		}
		fmt.Println("the case passes")
		return
	}
	check := func(c Case) {
		h := caseHash(c)
		if _, ok := distinct[h]; !ok && nontrivial(c) {
			distinct[h] = struct{}{}
			if len(res.Samples) < 5 && len(c.Input) < 300 {
				c2 := c
				c2.Prop = *prop
				res.Samples = append(res.Samples, c2)
			}
		}
		err := one(c)
		if err == nil {
			return
		}
		c.Prop = *prop
		c, err = shrink(p, c, err)
		if err2 := one(c); err2 == nil && !strings.Contains(err.Error(), "history") {
			// only failing in this history: keep the error, note it
			err = fmt.Errorf("%v (not repeatable in isolation: depends on the history of calls)", err)
		}
		fail(c, err)
	}
	if p.fixed != nil {
		for _, c := range p.fixed() {
			check(c)
		}
	}
	r := NewRand(*seed)
	for n := 0; n < *maxN && time.Since(start).Seconds() < *secs && p.gen != nil; n++ {
		check(p.gen(r, n))
	}
	res.Evaluations = casesRun.Load()
	res.Distinct = len(distinct)
	res.WallS = time.Since(start).Seconds()
	emit(res, *out)
}

func nontrivial(c Case) bool {
	return len(c.Input) > 0 || len(c.More) > 0 || len(c.Strs) > 0 || len(c.Nums) > 0 || c.Seed != 0
}

func caseHash(c Case) uint64 {
	b, _ := json.Marshal(c)
	var h uint64 = 14695981039346656037
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

// shrink makes a failing case smaller.
func shrink(p *Prop, c Case, err error) (Case, error) {
	deadline := time.Now().Add(8 * time.Second)
	try := func(d Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		curMu.Lock()
		curCase = &d
		curMu.Unlock()
		curStart.Store(time.Now().UnixNano())
		e := guarded(p, d)
		curStart.Store(0)
		if e != nil {
			c, err = d, e
			return true
		}
		return false
	}
	for _, cut := range []int{1 << 18, 1 << 14, 1 << 10, 1 << 7, 32, 8, 4, 3, 2, 1} {
		if cut > len(c.Input) {
			continue
		}
		for i := 0; i+cut <= len(c.Input); {
			d := c
			d.Input = append(append([]byte{}, c.Input[:i]...), c.Input[i+cut:]...)
			if !try(d) {
				i += cut
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(c.More); i++ {
			d := c
			d.More = append(append([][]byte{}, c.More[:i]...), c.More[i+1:]...)
			if try(d) {
				changed = true
				i--
			}
		}
		for i := 0; i < len(c.Strs); i++ {
			d := c
			d.Strs = append(append([]string{}, c.Strs[:i]...), c.Strs[i+1:]...)
			if try(d) {
				changed = true
				i--
			}
		}
	}
	if c.UDict != "" {
		d := c
		d.UDict = ""
		try(d)
	}
	return c, err
}
