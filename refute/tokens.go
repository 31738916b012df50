package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	props["C08"] = &Prop{fixed: fixedTokens, gen: genAnalysis, run: runC08}
	props["C09"] = &Prop{fixed: fixedTokens, gen: genAnalysis, run: runC09}
	props["C18"] = &Prop{fixed: fixedTokens, gen: genC18, run: runC18}
	props["C19"] = &Prop{fixed: fixedTokens, gen: genAnalysis, run: runC19}
}

func fixedTokens() []Case {
	var cs []Case
	for _, c := range fixedAnalysis() {
		if len(c.Input) < 400 {
			cs = append(cs, c)
		}
	}
	return cs
}

// refFeatures is the feature list of property C08; nil when there is none.
func refFeatures(c Case, t tokenizer.Token) []string {
	d := c.gdict().d
	switch t.Class {
	case tokenizer.KNOWN:
		var ret []string
		for _, p := range d.POSTable.POSs[t.ID] {
			ret = append(ret, d.POSTable.NameList[p])
		}
		if t.ID < len(d.Contents) {
			ret = append(ret, d.Contents[t.ID]...)
		}
		return ret
	case tokenizer.UNKNOWN:
		return append([]string(nil), d.UnkDict.Contents[t.ID]...)
	case tokenizer.USER:
		e := c.guser().u.Contents[t.ID]
		return []string{e.Pos, strings.Join(e.Tokens, "/"), strings.Join(e.Yomi, "/")}
	}
	return nil
}

func refPOS(c Case, t tokenizer.Token) []string {
	d := c.gdict().d
	switch t.Class {
	case tokenizer.KNOWN:
		var ret []string
		for _, p := range d.POSTable.POSs[t.ID] {
			ret = append(ret, d.POSTable.NameList[p])
		}
		return ret
	case tokenizer.UNKNOWN:
		f := d.UnkDict.Contents[t.ID]
		s := 0
		if v, ok := d.UnkDict.ContentsMeta[dict.POSStartIndex]; ok {
			s = int(v)
		}
		e := 1
		if v, ok := d.UnkDict.ContentsMeta[dict.POSHierarchy]; ok {
			e = s + int(v)
		}
		if s < e && e <= len(f) {
			return f[s:e]
		}
		return nil
	case tokenizer.USER:
		return []string{c.guser().u.Contents[t.ID].Pos}
	}
	return nil
}

func refPick(c Case, t tokenizer.Token, key string) (string, bool) {
	d := c.gdict().d
	var m dict.ContentsMeta
	switch t.Class {
	case tokenizer.KNOWN:
		m = d.ContentsMeta
	case tokenizer.UNKNOWN:
		m = d.UnkDict.ContentsMeta
	}
	i, ok := m[key]
	f := refFeatures(c, t)
	if !ok || int(i) < 0 || int(i) >= len(f) {
		return "", false
	}
	return f[i], true
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// allTokens are the tokens of the three modes, and tokens made by hand.
func allTokens(c Case) []tokenizer.Token {
	tz := c.tokenizerOf()
	var ret []tokenizer.Token
	for _, m := range []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended} {
		ret = append(ret, tz.Analyze(string(c.Input), m)...)
	}
	ret = append(ret, tokenizer.Token{}, tokenizer.Token{ID: 5, Surface: "x"}, tokenizer.Token{ID: -1, Class: 9})
	return ret
}

var pickers = []struct {
	key string
	f   func(tokenizer.Token) (string, bool)
}{
	{dict.InflectionalType, tokenizer.Token.InflectionalType},
	{dict.InflectionalForm, tokenizer.Token.InflectionalForm},
	{dict.BaseFormIndex, tokenizer.Token.BaseForm},
	{dict.ReadingIndex, tokenizer.Token.Reading},
	{dict.PronunciationIndex, tokenizer.Token.Pronunciation},
}

// C08: accessors against the dictionary and each other.
func runC08(c Case) error {
	for _, t := range allTokens(c) {
		want := refFeatures(c, t)
		if got := t.Features(); !sameList(got, want) {
			return fmt.Errorf("%v: features %q, want %q", t, got, want)
		}
		for i := -3; i < len(want)+4; i++ {
			v, ok := t.FeatureAt(i)
			if in := i >= 0 && i < len(want); ok != in || (ok && v != want[i]) {
				return fmt.Errorf("%v: feature %d is %q %v, the list is %q", t, i, v, ok, want)
			}
		}
		for _, i := range []int{-1 << 63, -1 << 31, 1 << 31, 1<<63 - 1, 256, 65536, 1 << 32} {
			if v, ok := t.FeatureAt(i); ok {
				return fmt.Errorf("%v: feature %d is %q, the list is %q", t, i, v, want)
			}
		}
		if got, want := t.POS(), refPOS(c, t); !sameList(got, want) {
			return fmt.Errorf("%v: part of speech %q, want %q", t, got, want)
		}
		for _, p := range pickers {
			v, ok := p.f(t)
			w, wok := refPick(c, t, p.key)
			if ok != wok || v != w {
				return fmt.Errorf("%v: %s is %q %v, want %q %v", t, p.key, v, ok, w, wok)
			}
		}
		x := t.UserExtra()
		if (x != nil) != (t.Class == tokenizer.USER) {
			return fmt.Errorf("%v: user extra %v", t, x)
		}
		if x != nil {
			e := c.guser().u.Contents[t.ID]
			if !sameList(x.Tokens, e.Tokens) || !sameList(x.Readings, e.Yomi) {
				return fmt.Errorf("%v: user extra %q, want %q", t, *x, e)
			}
		}
	}
	return nil
}

// scribble overwrites a list, its spare capacity included, and appends to it.
func scribble(s []string) {
	for i := range s {
		s[i] = "\x01scribbled"
	}
	s = s[:cap(s)]
	for i := range s {
		s[i] = "\x01scribbled"
	}
	_ = append(s, "\x01scribbled")
}

// C09: returned values are private copies.
func runC09(c Case) error {
	g := c.gdict()
	var ud *dict.UserDict
	if u := c.guser(); u != nil {
		ud = u.u
	}
	sum := checksum(g.d, ud)
	tz := c.tokenizerOf()
	in := string(c.Input)
	mode := tokenizer.TokenizeMode(c.Mode)
	ts := tz.Analyze(in, mode)
	before := fullViews(ts)
	for _, t := range ts {
		f1, f2 := t.Features(), t.Features()
		p1, p2 := t.POS(), t.POS()
		want, wantP := fmt.Sprintf("%q", f2), fmt.Sprintf("%q", p2)
		scribble(f1)
		scribble(p1)
		if fmt.Sprintf("%q", f2) != want || fmt.Sprintf("%q", p2) != wantP {
			return fmt.Errorf("%v: two calls share their lists", t)
		}
		if x, y := t.UserExtra(), t.UserExtra(); x != nil {
			want := fmt.Sprintf("%q", *y)
			scribble(x.Tokens)
			if fmt.Sprintf("%q", x.Readings) != fmt.Sprintf("%q", y.Readings) {
				return fmt.Errorf("%v: the tokens and readings share their list", t)
			}
			scribble(x.Readings)
			if fmt.Sprintf("%q", *y) != want {
				return fmt.Errorf("%v: two calls share their user data", t)
			}
		}
		d1, d2 := tokenizer.NewTokenData(t), tokenizer.NewTokenData(t)
		wantD := fmt.Sprintf("%q", []any{d2.POS, d2.Features})
		scribble(d1.POS)
		if fmt.Sprintf("%q", d1.Features) != fmt.Sprintf("%q", d2.Features) {
			return fmt.Errorf("%v: part of speech and features of the data share their list", t)
		}
		scribble(d1.Features)
		if fmt.Sprintf("%q", []any{d2.POS, d2.Features}) != wantD {
			return fmt.Errorf("%v: two data records share their lists", t)
		}
		for _, p := range pickers {
			p.f(t)
		}
		if err := diff("token after its accessors", fullView(t), fullView(t)); err != nil {
			return err
		}
	}
	if err := diff("tokens after changing what the accessors returned", fullViews(ts), before); err != nil {
		return err
	}
	w := tz.Wakati(in)
	wantW := fmt.Sprintf("%q", w)
	scribble(w)
	if got := fmt.Sprintf("%q", tz.Wakati(in)); got != wantW {
		return fmt.Errorf("the word list of a later call is %s, was %s", got, wantW)
	}
	t2 := tz.Analyze(in, mode)
	for i := range t2[:cap(t2)] {
		t2[:cap(t2)][i] = tokenizer.Token{ID: 77, Surface: "scribbled"}
	}
	_ = append(t2, tokenizer.Token{})
	if err := diff("an earlier token list after changing a later one", fullViews(ts), before); err != nil {
		return err
	}
	if err := diff("a later call after changing a token list", fullViews(tz.Analyze(in, mode)), before); err != nil {
		return err
	}
	if checksum(g.d, ud) != sum {
		return fmt.Errorf("the dictionary has been modified")
	}
	return nil
}

func genC18(r *Rand, n int) Case {
	c := genAnalysis(r, n)
	c.Seed = r.Int63n(1 << 30)
	return c
}

// C18: comparisons.
func runC18(c Case) error {
	r := NewRand(c.Seed)
	ts := allTokens(c)
	for k := 0; k < 60; k++ {
		a, b := ts[r.Intn(len(ts))], ts[r.Intn(len(ts))]
		if got, want := a.EqualFeatures(b), sameList(refFeatures(c, a), refFeatures(c, b)); got != want {
			return fmt.Errorf("EqualFeatures(%v, %v) = %v", a, b, got)
		}
		if got, want := a.EqualPOS(b), sameList(refPOS(c, a), refPOS(c, b)); got != want {
			return fmt.Errorf("EqualPOS(%v, %v) = %v", a, b, got)
		}
		if got, want := a.Equal(b), a.ID == b.ID && a.Class == b.Class && a.Surface == b.Surface; got != want {
			return fmt.Errorf("Equal(%v, %v) = %v", a, b, got)
		}
		x := a
		switch r.Intn(8) {
		case 0:
			x.ID++
		case 1:
			x.Class = (x.Class + 1) % 4
		case 2:
			x.Surface += "x"
		case 3:
			x.Start++
		case 4:
			x.End++
		case 5:
			x.Position++
		case 6:
			x.Index++
		}
		if got, want := a.Equal(x), a.ID == x.ID && a.Class == x.Class && a.Surface == x.Surface; got != want {
			return fmt.Errorf("Equal(%v, %v) = %v", a, x, got)
		}
		// lists that differ in one place, in length, or not at all
		n := r.Intn(6)
		l := someStrings(r, n)
		m := append([]string{}, l...)
		switch r.Intn(6) {
		case 0:
			m = append(m, "z")
		case 1:
			if n > 0 {
				m = m[:n-1]
			}
		case 2, 3:
			if n > 0 {
				m[r.Intn(n)] += "'"
			}
		case 4:
			if n > 0 {
				m = m[1:]
			}
		}
		if n == 0 && r.prob(0.5) {
			l = nil
		}
		if got, want := tokenizer.EqualFeatures(l, m), sameList(l, m); got != want {
			return fmt.Errorf("EqualFeatures(%q, %q) = %v", l, m, got)
		}
	}
	return nil
}

// C19: token data.
func runC19(c Case) error {
	names := map[tokenizer.TokenClass]string{tokenizer.DUMMY: "DUMMY", tokenizer.KNOWN: "KNOWN", tokenizer.UNKNOWN: "UNKNOWN", tokenizer.USER: "USER"}
	for _, t := range allTokens(c) {
		d := tokenizer.NewTokenData(t)
		want := tokenizer.TokenData{ID: t.ID, Start: t.Start, End: t.End, Surface: t.Surface, Class: names[t.Class], POS: refPOS(c, t), Features: refFeatures(c, t)}
		if d.POS == nil || d.Features == nil {
			return fmt.Errorf("%v: nil lists in %+v", t, d)
		}
		want.POS = append([]string{}, want.POS...)
		want.Features = append([]string{}, want.Features...)
		want.BaseForm, _ = refPick(c, t, dict.BaseFormIndex)
		want.Reading, _ = refPick(c, t, dict.ReadingIndex)
		want.Pronunciation, _ = refPick(c, t, dict.PronunciationIndex)
		if !reflect.DeepEqual(d, want) {
			return fmt.Errorf("%v: data %+v, want %+v", t, d, want)
		}
	}
	return nil
}
