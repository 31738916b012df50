package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"unsafe"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"github.com/ikawaha/kagome/v2/tokenizer/lattice"
)

func (c Case) analyze() []tokenizer.Token {
	return c.tokenizerOf().Analyze(string(c.Input), tokenizer.TokenizeMode(c.Mode))
}

func init() {
	props["C01"] = &Prop{fixed: func() []Case { return append(fixedAnalysis(), hugeAnalysis()...) }, gen: genAnalysis, run: runC01}
	props["C02"] = &Prop{fixed: fixedAnalysis, gen: genAnalysis, run: runC02}
	props["C03"] = &Prop{fixed: func() []Case { return append(fixedAnalysis(), hugeAnalysis()...) }, gen: genAnalysis, run: runC03}
	props["C04"] = &Prop{fixed: fixedAnalysis, gen: genAnalysis, run: runC04}
	props["C05"] = &Prop{gen: genC05, run: runC05}
	props["C06"] = &Prop{fixed: fixedAnalysis, gen: genAnalysis, run: runC06}
	props["C07"] = &Prop{fixed: fixedAnalysis, gen: genAnalysis, run: runC07}
	props["C16"] = &Prop{fixed: fixedAnalysis, gen: genAnalysis, run: runC16}
}

// C01: surfaces tile the input.
func runC01(c Case) error {
	in := string(c.Input)
	ts := c.analyze()
	pos := 0
	for i, t := range ts {
		if t.ID == tokenizer.BosEosID {
			if i == 0 && !c.Omit && t.Position != 0 {
				return fmt.Errorf("BOS is at byte %d", t.Position)
			}
			if i == len(ts)-1 && !c.Omit && t.Position != len(in) {
				return fmt.Errorf("EOS is at byte %d, the input has %d bytes", t.Position, len(in))
			}
			continue
		}
		if t.Position != pos {
			return fmt.Errorf("token %v is at byte %d, the previous one ended at %d", t, t.Position, pos)
		}
		if pos+len(t.Surface) > len(in) || in[pos:pos+len(t.Surface)] != t.Surface {
			return fmt.Errorf("token %v: surface %q is not the input at byte %d", i, t.Surface, pos)
		}
		pos += len(t.Surface)
	}
	if pos != len(in) {
		return fmt.Errorf("the surfaces end at byte %d, the input has %d bytes", pos, len(in))
	}
	return nil
}

// C02: character offsets, framing, numbering.
func runC02(c Case) error {
	in := string(c.Input)
	cs := chars(in)
	ts := c.analyze()
	for i, t := range ts {
		if t.Index != i {
			return fmt.Errorf("token %d has index %d", i, t.Index)
		}
	}
	body := ts
	if !c.Omit {
		if len(ts) < 2 {
			return fmt.Errorf("%d tokens, want BOS and EOS at least", len(ts))
		}
		b, e := ts[0], ts[len(ts)-1]
		if b.ID != tokenizer.BosEosID || b.Start != 0 || b.End != 0 || b.Surface != "BOS" || b.Class != tokenizer.DUMMY {
			return fmt.Errorf("first token is %v (%d,%d), want BOS", b, b.Start, b.End)
		}
		if e.ID != tokenizer.BosEosID || e.Start != len(cs) || e.End != len(cs) || e.Surface != "EOS" || e.Class != tokenizer.DUMMY {
			return fmt.Errorf("last token is %v (%d,%d), want EOS at %d", e, e.Start, e.End, len(cs))
		}
		body = ts[1 : len(ts)-1]
	}
	at := map[int]int{len(in): len(cs)}
	for i, x := range cs {
		at[x.off] = i
	}
	for _, t := range body {
		if t.ID == tokenizer.BosEosID {
			return fmt.Errorf("a BOS/EOS token among the words: %v", t)
		}
		s, ok1 := at[t.Position]
		e, ok2 := at[t.Position+len(t.Surface)]
		if !ok1 || !ok2 || t.Start != s || t.End != e {
			return fmt.Errorf("token %v: offsets (%d,%d), want (%d,%d)", t, t.Start, t.End, s, e)
		}
	}
	// omitting BOS/EOS changes nothing but the numbering
	d := c
	d.Omit = !c.Omit
	other := words(d.analyze())
	mine := words(ts)
	if len(other) != len(mine) {
		return fmt.Errorf("%d words, %d with the BOS/EOS option inverted", len(mine), len(other))
	}
	for i := range mine {
		a, b := mine[i], other[i]
		a.Index, b.Index = 0, 0
		if view(a) != view(b) {
			return fmt.Errorf("word %d changes with the BOS/EOS option: %v, %v", i, a, b)
		}
	}
	return nil
}

// C03: minimal total cost.
func runC03(c Case) error {
	in := string(c.Input)
	g, u := c.gdict(), c.guser()
	mode := c.Mode
	if mode == 3 {
		mode = 2 // the segmentation of extended mode before cutting is that of search mode
	}
	d := c
	d.Mode = mode
	ts := words(d.analyze())
	cs := candidates(g, u, in)
	known := map[[5]int]bool{}
	if len(cs) < 200000 {
		for _, x := range cs {
			known[[5]int{int(x.class), x.id, x.from, x.b0, x.b1}] = true
		}
		for _, t := range ts {
			if !known[[5]int{int(t.Class), t.ID, t.Start, t.Position, t.Position + len(t.Surface)}] {
				return fmt.Errorf("token %v is not a candidate word of the input", t)
			}
		}
	}
	want, ok := minCost(g, in, mode, cs)
	if !ok {
		return nil // no segmentation exists: nothing to compare with
	}
	got, err := pathCost(g, in, mode, ts)
	if err != nil {
		return err
	}
	if got != want {
		return fmt.Errorf("the segmentation costs %d, the cheapest one costs %d", got, want)
	}
	if c.Mode == 3 {
		return runC07(c)
	}
	return nil
}

// latticeNodes finds the node lists of a lattice by their type.
func latticeNodes(la *lattice.Lattice) ([][]*lattice.Node, bool) {
	v := reflect.ValueOf(la).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf([][]*lattice.Node(nil)) {
			return *(*[][]*lattice.Node)(unsafe.Pointer(f.UnsafeAddr())), true
		}
	}
	return nil, false
}

// C04: the candidates.
func runC04(c Case) error {
	in := string(c.Input)
	g, u := c.gdict(), c.guser()
	want := candidates(g, u, in)
	var ud *dict.UserDict
	if u != nil {
		ud = u.u
	}
	if len(in) <= 20000 {
		la := lattice.New(g.d, ud)
		la.Build(in)
		list, ok := latticeNodes(la)
		if ok {
			diffs := map[string]int{}
			key := func(class, id, from, to, b0 int, surf string, l, r, w int) string {
				if len(surf) > 100 {
					surf = fmt.Sprintf("%s... (%d bytes, ok=%v)", surf[:100], len(surf), b0+len(surf) <= len(in) && in[b0:b0+len(surf)] == surf)
				}
				return fmt.Sprintf("class %d id %d from %d to %d byte %d %q ctx %d %d cost %d", class, id, from, to, b0, surf, l, r, w)
			}
			for i, ns := range list {
				for _, n := range ns {
					if n.ID == lattice.BosEosID {
						continue
					}
					diffs[key(int(n.Class), n.ID, n.Start, i, n.Position, n.Surface, int(n.Left), int(n.Right), int(n.Weight))]++
				}
			}
			for _, x := range want {
				diffs[key(int(x.class), x.id, x.from, x.to, x.b0, in[x.b0:x.b1], x.l, x.r, x.w)]--
			}
			la.Free()
			for k, n := range diffs {
				if n > 0 {
					return fmt.Errorf("%d candidate words too many: %s", n, k)
				}
				if n < 0 {
					return fmt.Errorf("%d candidate words missing: %s", -n, k)
				}
			}
		} else {
			la.Free()
		}
	}
	// whatever the representation: the result is made of candidates and no cheaper one was missed
	return runC03(c)
}

func checksum(d *dict.Dict, u *dict.UserDict) string {
	if d == IPA().d {
		return ""
	}
	s := fmt.Sprintf("%v|%v|%q|%v|%q|%v|%v|%v|%v|%v|%v", d.Morphs, d.POSTable.POSs, d.POSTable.NameList, d.ContentsMeta, d.Contents, d.Connection, d.Index.Dup, d.InvokeList, d.GroupList, len(d.CharCategory), fmt.Sprint(d.UnkDict))
	if u != nil {
		s += fmt.Sprintf("%q|%v", u.Contents, u.Index.Dup)
	}
	return s
}

func genC05(r *Rand, n int) Case {
	if n%8 == 3 && n%64 != 3 {
		n++
	}
	c := genAnalysis(r, n)
	c.Kind = "history"
	c.Seed = r.Int63n(1 << 30)
	k := 1 + r.Intn(5)
	for i := 0; i < k; i++ {
		c.More = append(c.More, r.inputGen(c.gdict(), c.guser()))
	}
	return c
}

// C05: results do not depend on the history or on concurrent calls.
func runC05(c Case) error {
	g := c.gdict()
	var ud *dict.UserDict
	if u := c.guser(); u != nil {
		ud = u.u
	}
	sum := checksum(g.d, ud)
	in := string(c.Input)
	mode := tokenizer.TokenizeMode(c.Mode)
	tz := c.tokenizerOf()
	if c.Seed%16 == 0 {
		runtime.GC()
		runtime.GC() // empties the pools: as in a fresh process
	}
	ts := tz.Analyze(in, mode)
	first := fullViews(ts)
	keep := first
	r := NewRand(c.Seed)
	hist := func(r *Rand, more [][]byte) {
		for i, h := range more {
			d := c
			d.Mode = 1 + r.Intn(3)
			switch r.Intn(4) {
			case 0:
				d.UDict = ""
			case 1:
				d.UDict = fmt.Sprintf("gen:%d", r.Intn(1000))
			case 2:
				d.Dict = fmt.Sprintf("gen:%d", r.Intn(1000))
			}
			d.Omit = r.prob(0.5)
			d.Input = h
			if i%3 == 2 {
				var b bytes.Buffer
				d.tokenizerOf().AnalyzeGraph(&b, string(h), tokenizer.TokenizeMode(d.Mode))
			} else {
				d.analyze()
			}
		}
	}
	hist(r, c.More)
	for i := 0; i < 3; i++ {
		again := tz.Analyze(in, mode)
		if err := diff("after a history of calls", fullViews(again), first); err != nil {
			return err
		}
		hist(r, c.More)
	}
	var wg sync.WaitGroup
	errs := make([]error, 6)
	for k := range errs {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[k] = fmt.Errorf("history: panic in a concurrent call: %v", p)
				}
			}()
			rr := NewRand(c.Seed + int64(k))
			for i := 0; i < 4; i++ {
				if err := diff("history: during concurrent calls", fullViews(tz.Analyze(in, mode)), first); err != nil {
					errs[k] = err
					return
				}
				hist(rr, c.More)
			}
		}(k)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if err := diff("tokens returned earlier, after later calls (history)", fullViews(ts), keep); err != nil {
		return err
	}
	if checksum(g.d, ud) != sum {
		return fmt.Errorf("history: the dictionary has been modified")
	}
	return nil
}

// C06: no panic (guarded), termination (watchdog), accessors included.
func runC06(c Case) error {
	ts := c.analyze()
	for _, t := range ts {
		_ = fullView(t)
		for _, i := range []int{-1 << 63, -1, 0, 1, 2, 3, 4, 7, 100, 1<<63 - 1} {
			t.FeatureAt(i)
		}
		_ = tokenizer.NewTokenData(t)
		_ = t.Class.String()
		_ = t.Equal(t) && t.EqualFeatures(t) && t.EqualPOS(t)
	}
	var b bytes.Buffer
	if len(c.Input) < 300 {
		c.tokenizerOf().AnalyzeGraph(&b, string(c.Input), tokenizer.TokenizeMode(c.Mode))
	}
	c.tokenizerOf().Wakati(string(c.Input))
	return nil
}

// C07: extended mode.
func runC07(c Case) error {
	in := string(c.Input)
	tz := c.tokenizerOf()
	se := tz.Analyze(in, tokenizer.Search)
	ex := tz.Analyze(in, tokenizer.Extended)
	var want []string
	add := func(t tokenizer.Token) {
		t.Index = len(want)
		want = append(want, view(t))
	}
	for _, t := range se {
		if t.Class != tokenizer.UNKNOWN {
			add(t)
			continue
		}
		for i, x := range chars(t.Surface) {
			y := t
			y.Class = tokenizer.DUMMY
			y.Surface = t.Surface[x.off : x.off+x.size]
			y.Start, y.End = t.Start+i, t.Start+i+1
			y.Position = t.Position + x.off
			add(y)
		}
	}
	got := strings.TrimSuffix(views(ex), "\n")
	if err := diff("extended mode", got, strings.Join(want, "\n")); err != nil {
		return err
	}
	if c.Mode < 1 || c.Mode > 3 {
		if err := diff("an unknown mode value against normal mode", views(tz.Analyze(in, tokenizer.TokenizeMode(c.Mode))), views(tz.Analyze(in, tokenizer.Normal))); err != nil {
			return err
		}
	}
	// normal and search are what they are called: checked by cost (C03)
	return nil
}

type errWriter struct{ n int }

func (w *errWriter) Write(p []byte) (int, error) {
	w.n -= len(p)
	if w.n < 0 {
		return 0, fmt.Errorf("full")
	}
	return len(p), nil
}

// C16: all entry points agree.
func runC16(c Case) error {
	in := string(c.Input)
	if len(in) > 600 {
		in = in[:600]
	}
	tz := c.tokenizerOf()
	normal := tz.Analyze(in, tokenizer.Normal)
	if err := diff("Tokenize", fullViews(tz.Tokenize(in)), fullViews(normal)); err != nil {
		return err
	}
	mode := tokenizer.TokenizeMode(c.Mode)
	var b bytes.Buffer
	if err := diff("AnalyzeGraph", fullViews(tz.AnalyzeGraph(&b, in, mode)), fullViews(tz.Analyze(in, mode))); err != nil {
		return err
	}
	if err := diff("AnalyzeGraph with a failing writer", fullViews(tz.AnalyzeGraph(&errWriter{100}, in, mode)), fullViews(tz.Analyze(in, mode))); err != nil {
		return err
	}
	b.Reset()
	if err := diff("Dot", fullViews(tz.Dot(&b, in)), fullViews(normal)); err != nil {
		return err
	}
	if err := diff("Analyze after the graph calls", fullViews(tz.Analyze(in, tokenizer.Normal)), fullViews(normal)); err != nil {
		return err
	}
	var w []string
	for _, t := range normal {
		if t.ID != tokenizer.BosEosID && t.Surface != "" {
			w = append(w, t.Surface)
		}
	}
	return diff("Wakati", fmt.Sprintf("%q", tz.Wakati(in)), fmt.Sprintf("%q", w))
}
