package main

import (
	"fmt"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	props["C10"] = &Prop{gen: genFilter, run: runC10}
	props["C11"] = &Prop{fixed: fixedC11, gen: genFilter, run: runC11}
	props["C12"] = &Prop{fixed: fixedC12, gen: genC12, run: runC12}
}

func genFilter(r *Rand, n int) Case {
	c := genAnalysis(r, n)
	c.Seed = 1 + r.Int63n(1<<30)
	return c
}

var featNames = []string{"名詞", "動詞", "助詞", "*", "一般", "記号", "x", "カスタム名詞", "", "形容詞"}

func genPattern(r *Rand) []string {
	n := r.Intn(4)
	if r.prob(0.1) {
		n = r.Intn(6)
	}
	p := make([]string, 0, n)
	for i := 0; i < n; i++ {
		if r.prob(0.3) {
			p = append(p, filter.Any)
		} else {
			p = append(p, r.pick(featNames[:3+r.Intn(len(featNames)-3)]))
		}
	}
	if n == 0 && r.prob(0.5) {
		return nil
	}
	return p
}

func genPatterns(r *Rand) [][]string {
	var ps [][]string
	for n := r.Intn(6); n > 0; n-- {
		ps = append(ps, genPattern(r))
		if len(ps) > 1 && r.prob(0.3) { // a variation of an earlier one
			q := append([]string{}, ps[r.Intn(len(ps))]...)
			switch {
			case len(q) > 0 && r.prob(0.5):
				q = q[:len(q)-1]
			default:
				q = append(q, r.pick(featNames))
			}
			ps = append(ps, q)
		}
	}
	return ps
}

func patMatch(ps [][]string, fs []string) bool {
	for _, p := range ps {
		if len(p) == 0 || len(p) > len(fs) {
			continue
		}
		ok := true
		for i := range p {
			if p[i] != filter.Any && p[i] != fs[i] {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// C10: Keep and Drop.
func runC10(c Case) error {
	r := NewRand(c.Seed)
	toks := allTokens(c)
	r.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
	if len(toks) > 12 {
		toks = toks[:r.Intn(13)]
	}
	type pair struct {
		name       string
		keep, drop func(*[]tokenizer.Token)
		match      func(i int, t tokenizer.Token) bool
	}
	var calls []int
	bits := r.Int63()
	// a predicate with a memory: it answers by call number, and records whom it was asked about
	mk := func() func(tokenizer.Token) bool {
		n := 0
		calls = nil
		return func(t tokenizer.Token) bool {
			a := bits>>uint(n%60)&1 == 1
			calls = append(calls, t.Index)
			n++
			return a
		}
	}
	ps := genPatterns(r)
	pf := filter.NewPOSFilter(ps...)
	var ws []string
	for _, t := range toks {
		if r.prob(0.4) {
			ws = append(ws, t.Surface)
		}
	}
	wf := filter.NewWordFilter(ws)
	inWs := func(_ int, t tokenizer.Token) bool {
		for _, w := range ws {
			if w == t.Surface {
				return true
			}
		}
		return false
	}
	cases := []pair{
		{"predicate", func(x *[]tokenizer.Token) { filter.Keep(x, mk()) }, func(x *[]tokenizer.Token) { filter.Drop(x, mk()) }, func(i int, _ tokenizer.Token) bool { return bits>>uint(i%60)&1 == 1 }},
		{"pos filter", pf.Keep, pf.Drop, func(_ int, t tokenizer.Token) bool { return patMatch(ps, refPOS(c, t)) }},
		{"word filter", wf.Keep, wf.Drop, inWs},
	}
	for _, p := range cases {
		for _, keep := range []bool{true, false} {
			f := p.drop
			if keep {
				f = p.keep
			}
			f(nil)
			in := make([]tokenizer.Token, len(toks), len(toks)+3)
			copy(in, toks)
			for i := range in {
				in[i].Index = i
			}
			spare := in[:cap(in)]
			spare[len(toks)] = tokenizer.Token{ID: 4711, Surface: "spare"}
			var want []tokenizer.Token
			for i, t := range in {
				if p.match(i, t) == keep {
					want = append(want, t)
				}
			}
			got := in
			f(&got)
			if err := diff(fmt.Sprintf("%s keep=%v", p.name, keep), fullViews(got), fullViews(want)); err != nil {
				return err
			}
			if p.name == "predicate" {
				if len(calls) != len(toks) {
					return fmt.Errorf("the predicate was asked %d times for %d tokens", len(calls), len(toks))
				}
				for i, x := range calls {
					if x != i {
						return fmt.Errorf("the predicate was asked about token %d at call %d", x, i)
					}
				}
			}
			if len(got) > 0 && &got[0] != &in[0] {
				return fmt.Errorf("%s keep=%v: not in place", p.name, keep)
			}
			if spare[len(toks)].ID != 4711 {
				return fmt.Errorf("%s keep=%v: memory beyond the list was written", p.name, keep)
			}
			e := []tokenizer.Token{}
			f(&e)
			var z []tokenizer.Token
			f(&z)
			if len(e) != 0 || len(z) != 0 {
				return fmt.Errorf("%s: an empty list became longer", p.name)
			}
		}
	}
	return nil
}

func fixedC11() []Case {
	return []Case{{Kind: "filter", Dict: "gen:1", Seed: 1, Strs: []string{"x"}}}
}

// C11: features filters match exactly their patterns.
func runC11(c Case) error {
	r := NewRand(c.Seed)
	for k := 0; k < 20; k++ {
		ps := genPatterns(r)
		orig := fmt.Sprintf("%q", ps)
		f := filter.NewFeaturesFilter(ps...)
		pf := filter.NewPOSFilter(ps...)
		if fmt.Sprintf("%q", ps) != orig {
			return fmt.Errorf("building the filter changed the patterns %s", orig)
		}
		for j := 0; j < 30; j++ {
			v := make([]string, r.Intn(6))
			for i := range v {
				v[i] = r.pick(featNames)
				if r.prob(0.05) {
					v[i] = filter.Any
				}
			}
			if len(ps) > 0 && r.prob(0.6) {
				p := ps[r.Intn(len(ps))]
				v = append([]string{}, p...)
				for i := range v {
					if v[i] == filter.Any || r.prob(0.1) {
						v[i] = r.pick(featNames)
					}
				}
				for r.prob(0.5) {
					v = append(v, r.pick(featNames))
				}
				if len(v) > 0 && r.prob(0.2) {
					v = v[:len(v)-1]
				}
			}
			if len(v) == 0 && r.prob(0.5) {
				v = nil
			}
			want := patMatch(ps, v)
			if got := f.Match(v); got != want {
				return fmt.Errorf("features filter %q on %q: %v, want %v", ps, v, got, want)
			}
			if got := pf.Match(v); got != want {
				return fmt.Errorf("POS filter %q on %q: %v, want %v", ps, v, got, want)
			}
		}
		var ws []string
		for n := r.Intn(5); n > 0; n-- {
			ws = append(ws, r.pick(featNames))
		}
		wf := filter.NewWordFilter(ws)
		for _, w := range append([]string{"", " ", "名", "名詞 "}, featNames...) {
			want := false
			for _, x := range ws {
				want = want || x == w
			}
			if got := wf.Match(w); got != want {
				return fmt.Errorf("word filter %q on %q: %v, want %v", ws, w, got, want)
			}
		}
	}
	return nil
}

func fixedC12() []Case {
	return []Case{
		{Kind: "ja", Dict: "ipa", Seed: 2, Input: []byte("人魚は、南の方の海にばかり棲んでいるのではありません。")},
		{Kind: "ja", Dict: "ipa", Seed: 3, Input: []byte("寿司が食べたい美しい静かなポポピッピ")},
	}
}

func genC12(r *Rand, n int) Case {
	c := genFilter(r, n)
	if n%3 == 0 {
		c.Dict = "ipa"
		c.UDict = ""
		c.Input = r.inputIPA()
	}
	return c
}

// the settings the default filter documents: base form of verbs and adjectives
var jaBase = [][]string{{"動詞"}, {"形容詞"}, {"形容動詞"}}

// C12: the Japanese filter.
func runC12(c Case) error {
	r := NewRand(c.Seed)
	var opts []ja.FilterOption
	base, tags, stop := jaBase, defaultStopTags(), defaultStopWords()
	toks := allTokens(c)
	r.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
	if len(toks) > 20 {
		toks = toks[:20]
	}
	n := r.Intn(5)
	if c.Dict != "ipa" {
		n = 3
	}
	for i := 0; i < n; i++ {
		switch r.Intn(3) {
		case 0:
			base = genPatterns(r)
			opts = append(opts, ja.BaseFormFilterOption(base))
		case 1:
			tags = genPatterns(r)
			opts = append(opts, ja.StopTagsFilterOption(tags))
		case 2:
			stop = nil
			for _, t := range toks {
				if r.prob(0.3) {
					stop = append(stop, t.Surface)
				}
			}
			opts = append(opts, ja.StopWordsFilterOption(stop))
		}
	}
	f, err := ja.NewFilter(opts...)
	if err != nil {
		return err
	}
	isStop := map[string]bool{}
	for _, w := range stop {
		isStop[w] = true
	}
	var wantY []string
	var wantD []tokenizer.Token
	for _, t := range toks {
		if patMatch(tags, refPOS(c, t)) || isStop[t.Surface] {
			continue
		}
		wantD = append(wantD, t)
		if patMatch(base, refPOS(c, t)) {
			if b, ok := refPick(c, t, dict.BaseFormIndex); ok {
				wantY = append(wantY, b)
			}
			continue
		}
		wantY = append(wantY, t.Surface)
	}
	in := append([]tokenizer.Token{}, toks...)
	if got := f.Yield(in); !sameList(got, wantY) {
		return fmt.Errorf("Yield gives %q, want %q (options %d)", got, wantY, len(opts))
	}
	if err := diff("tokens after Yield", views(in), views(toks)); err != nil {
		return err
	}
	f.Drop(&in)
	if err := diff("Drop", views(in), views(wantD)); err != nil {
		return err
	}
	f.Drop(nil)
	return nil
}

// the documented defaults are read from the assets of the tree (see defaults.go)
func parseList(text string) []string {
	var ret []string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if strings.HasPrefix(l, "#") {
			continue
		}
		if i := strings.Index(l, "#"); i > 0 {
			l = l[:i]
		}
		if l != "" {
			ret = append(ret, l)
		}
	}
	return ret
}
