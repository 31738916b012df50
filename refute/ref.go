package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// chr is one character of an input: an undecodable byte counts as one.
type chr struct {
	off, size int
	r         rune
}

// chars decodes an input, independently of the code under test.
func chars(s string) []chr {
	var ret []chr
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		ret = append(ret, chr{i, n, r})
		i += n
	}
	return ret
}

// cand is a candidate word.
type cand struct {
	class    tokenizer.TokenClass
	id       int
	from, to int // character offsets
	b0, b1   int // byte offsets
	l, r, w  int
}

func charCat(d *dict.Dict, r rune) int {
	if int(r) < len(d.CharCategory) {
		return int(d.CharCategory[r])
	}
	return int(d.CharCategory[0])
}

// prefixes lists the entries of an index that are a prefix of the text, with their lengths.
func prefixes(g *GenDict, u *GenUser, s string) (ids, lens []int) {
	if u != nil {
		for id, w := range u.words {
			if strings.HasPrefix(s, w) {
				ids, lens = append(ids, id), append(lens, len(w))
			}
		}
		return
	}
	if g == ipaGen {
		l, idss := g.d.Index.CommonPrefixSearch(s)
		for i := range l {
			for _, id := range idss[i] {
				ids, lens = append(ids, id), append(lens, l[i])
			}
		}
		return
	}
	for id, w := range g.words {
		if strings.HasPrefix(s, w) {
			ids, lens = append(ids, id), append(lens, len(w))
		}
	}
	return
}

// candidates lists the candidate words by the rules of property C04.
func candidates(g *GenDict, u *GenUser, s string) []cand {
	d := g.d
	cs := chars(s)
	at := map[int]int{len(s): len(cs)}
	for i, c := range cs {
		at[c.off] = i
	}
	var ret []cand
	for i, c := range cs {
		if u != nil {
			ids, lens := prefixes(g, u, s[c.off:])
			for k, id := range ids {
				ret = append(ret, cand{tokenizer.USER, id, i, at[c.off+lens[k]], c.off, c.off + lens[k], 0, 0, 0})
			}
			if len(ids) > 0 {
				continue
			}
		}
		ids, lens := prefixes(g, nil, s[c.off:])
		for k, id := range ids {
			m := d.Morphs[id]
			ret = append(ret, cand{tokenizer.KNOWN, id, i, at[c.off+lens[k]], c.off, c.off + lens[k], int(m.LeftID), int(m.RightID), int(m.Weight)})
		}
		cat := charCat(d, c.r)
		if len(ids) > 0 && !d.InvokeList[cat] {
			continue
		}
		n := 1
		if d.GroupList[cat] {
			for n < 1024 && i+n < len(cs) && charCat(d, cs[i+n].r) == cat {
				n++
			}
		}
		id0 := int(d.UnkDict.Index[int32(cat)])
		ends := []int{i + n}
		if last := cs[i+n-1]; n > 1 && lastDecodes(s, c.off, last) {
			ends = append(ends, i+n-1)
		}
		for x := 0; x <= int(d.UnkDict.IndexDup[int32(cat)]); x++ {
			m := d.UnkDict.Morphs[id0+x]
			for _, e := range ends {
				b1 := len(s)
				if e < len(cs) {
					b1 = cs[e].off
				}
				ret = append(ret, cand{tokenizer.UNKNOWN, id0 + x, i, e, c.off, b1, int(m.LeftID), int(m.RightID), int(m.Weight)})
			}
		}
	}
	return ret
}

// lastDecodes tells whether the last character of a run decodes properly (a literal U+FFFD does not).
func lastDecodes(s string, from int, last chr) bool {
	return last.r != utf8.RuneError
}

func penalty(mode int, surface string) int64 {
	if mode != 2 && mode != 3 {
		return 0
	}
	l, kanji := 0, true
	for _, r := range surface {
		l++
		if !unicode.Is(unicode.Ideographic, r) {
			kanji = false
		}
	}
	switch {
	case l > 2 && kanji:
		return int64(l-2) * 3000
	case l > 7:
		return int64(l-7) * 1700
	}
	return 0
}

func conn(d *dict.Dict, r, l int) int64 {
	return int64(d.Connection.Vec[int64(l)*d.Connection.Row+int64(r)])
}

const inf = int64(1) << 62

// minCost is the minimal total cost of a segmentation; ok is false when there is none.
func minCost(g *GenDict, s string, mode int, cs []cand) (int64, bool) {
	d := g.d
	n := len(chars(s))
	ends := make([][]int32, n+1)
	for i, c := range cs {
		ends[c.to] = append(ends[c.to], int32(i))
	}
	best := make([]int64, len(cs))
	order := make([]int32, 0, len(cs))
	for p := 0; p <= n; p++ {
		order = append(order, ends[p]...)
	}
	connect := func(a *cand, b *cand) int64 {
		if a.class == tokenizer.USER || b.class == tokenizer.USER {
			return 0
		}
		return conn(d, a.r, b.l)
	}
	bos := &cand{class: tokenizer.DUMMY}
	for _, i := range order {
		c := &cs[i]
		best[i] = inf
		add := int64(c.w) + penalty(mode, s[c.b0:c.b1])
		if c.from == 0 {
			best[i] = connect(bos, c) + add
			continue
		}
		for _, j := range ends[c.from] {
			if best[j] >= inf {
				continue
			}
			if v := best[j] + connect(&cs[j], c) + add; v < best[i] {
				best[i] = v
			}
		}
	}
	if n == 0 {
		return conn(d, 0, 0), true
	}
	ret := inf
	for _, j := range ends[n] {
		if best[j] < inf {
			if v := best[j] + connect(&cs[j], bos); v < ret {
				ret = v
			}
		}
	}
	return ret, ret < inf
}

// pathCost is the cost of a word sequence.
func pathCost(g *GenDict, s string, mode int, ts []tokenizer.Token) (int64, error) {
	d := g.d
	var total int64
	prevUser, prevR := false, 0
	for _, t := range ts {
		var l, r, w int
		switch t.Class {
		case tokenizer.KNOWN:
			if t.ID < 0 || t.ID >= len(d.Morphs) {
				return 0, fmt.Errorf("token %v: no such entry", t)
			}
			m := d.Morphs[t.ID]
			l, r, w = int(m.LeftID), int(m.RightID), int(m.Weight)
		case tokenizer.UNKNOWN:
			if t.ID < 0 || t.ID >= len(d.UnkDict.Morphs) {
				return 0, fmt.Errorf("token %v: no such unknown entry", t)
			}
			m := d.UnkDict.Morphs[t.ID]
			l, r, w = int(m.LeftID), int(m.RightID), int(m.Weight)
		}
		user := t.Class == tokenizer.USER
		if !user && !prevUser {
			total += conn(d, prevR, l)
		}
		total += int64(w) + penalty(mode, t.Surface)
		prevUser, prevR = user, r
	}
	if !prevUser {
		total += conn(d, prevR, 0)
	}
	return total, nil
}

// words are the tokens without BOS/EOS.
func words(ts []tokenizer.Token) []tokenizer.Token {
	var ret []tokenizer.Token
	for _, t := range ts {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		ret = append(ret, t)
	}
	return ret
}

// view is everything visible of a token.
func view(t tokenizer.Token) string {
	return fmt.Sprintf("%d|%d|%d|%d|%d|%d|%q", t.Index, t.ID, t.Class, t.Position, t.Start, t.End, t.Surface)
}

func fullView(t tokenizer.Token) string {
	bf, b1 := t.BaseForm()
	rd, b2 := t.Reading()
	pr, b3 := t.Pronunciation()
	it, b4 := t.InflectionalType()
	fo, b5 := t.InflectionalForm()
	ex := ""
	if x := t.UserExtra(); x != nil {
		ex = fmt.Sprintf("%q", *x)
	}
	return fmt.Sprintf("%s|%q|%q|%q%v|%q%v|%q%v|%q%v|%q%v|%s|%s", view(t), t.Features(), t.POS(), bf, b1, rd, b2, pr, b3, it, b4, fo, b5, ex, t.String())
}

func views(ts []tokenizer.Token) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(view(t))
		b.WriteByte('\n')
	}
	return b.String()
}

func fullViews(ts []tokenizer.Token) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(fullView(t))
		b.WriteByte('\n')
	}
	return b.String()
}

func diff(name, got, want string) error {
	if got == want {
		return nil
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		var a, b string
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			if len(a) > 400 {
				a = a[:400]
			}
			if len(b) > 400 {
				b = b[:400]
			}
			return fmt.Errorf("%s: item %d: got %s, want %s", name, i, a, b)
		}
	}
	return fmt.Errorf("%s differs", name)
}
