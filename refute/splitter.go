package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strings"
	"unicode"

	"github.com/ikawaha/kagome/v2/filter"
)

func init() {
	props["C13"] = &Prop{fixed: fixedSplit, gen: genSplit, run: runC13}
	props["C14"] = &Prop{fixed: fixedSplit, gen: genSplit, run: runC14}
}

var splitBits = []string{"。", "．", "！", "!", "？", "?", ".", "｣", "」", "』", ")", "a", "b", "あ", "漢", " ", "　", "\n", "\n", "\n\n", "\t", "\r\n", "\u2028", "\xff", "\xe3", "\xe3\x80", "\x82", "𠮷", "\uFFFD", "\u0085", "、"}

func genSplit(r *Rand, n int) Case {
	c := Case{Kind: "split", Seed: 1 + r.Int63n(1<<30)}
	var b strings.Builder
	k := r.Intn(12)
	if r.prob(0.05) {
		k = r.Intn(300)
	}
	for i := 0; i < k; i++ {
		if r.prob(0.08) {
			b.WriteString(strings.Repeat(r.pick(splitBits), 1+r.Intn(6)))
		}
		b.WriteString(r.pick(splitBits))
	}
	if r.prob(0.05) {
		b.WriteString(strings.Repeat("あ", 120+r.Intn(20)) + r.pick(splitBits) + r.pick(splitBits))
	}
	c.Input = []byte(b.String())
	// 0: the default splitter; otherwise a random configuration
	c.Nums = []int{r.Intn(2) * (1 + r.Intn(1000))}
	for p := 0; p < len(c.Input); {
		w := 1 + r.Intn(4)
		if r.prob(0.2) {
			w = 1 + r.Intn(60)
		}
		c.Nums = append(c.Nums, w)
		p += w
	}
	return c
}

func fixedSplit() []Case {
	var cs []Case
	for _, s := range []string{"", " ", "\n\n", "あ", "あ。", "あ。い", "あ。」い", "あ。 」い", "あ。\n」い", "あ。\n\n」い", "あ\n\nい", "あ\n \nい", "あ ", "あ\n", "。。。", "  。", strings.Repeat("あ", 128) + "。」い", strings.Repeat("あ", 129), strings.Repeat("あ", 127) + "。\n\nい", "あ。  \n \n  い。」』", "a\n\n\n\nb", "あ\xe3"} {
		cs = append(cs, Case{Kind: "split", Input: []byte(s), Nums: []int{0}})
		one := Case{Kind: "split", Input: []byte(s), Nums: []int{0}}
		for range s {
			one.Nums = append(one.Nums, 1, 1, 1)
		}
		cs = append(cs, one)
	}
	return cs
}

// splitterOf makes the splitter of a configuration number; 0 is the default one.
func splitterOf(n int) (filter.SentenceSplitter, bufio.SplitFunc) {
	if n == 0 {
		return filter.SentenceSplitter{
			Delim:               []rune{'。', '．', '！', '!', '？', '?'},
			Follower:            []rune{'.', '｣', '」', '』', ')', '）', '｝', '}', '〉', '》'},
			SkipWhiteSpace:      true,
			DoubleLineFeedSplit: true,
			MaxRuneLen:          128,
		}, filter.ScanSentences
	}
	r := NewRand(int64(n))
	s := filter.SentenceSplitter{SkipWhiteSpace: r.prob(0.5), DoubleLineFeedSplit: r.prob(0.6), MaxRuneLen: []int{1, 2, 3, 5, 8, 128, 0, -1}[r.Intn(8)]}
	for _, x := range []rune{'。', '!', '\n', ' ', 'a', '\uFFFD'} {
		if r.prob(0.4) {
			s.Delim = append(s.Delim, x)
		}
	}
	for _, x := range []rune{'」', '.', ')', '\n', 'b', ' '} {
		if r.prob(0.4) {
			s.Follower = append(s.Follower, x)
		}
	}
	return s, s.ScanSentences
}

// drive feeds the text in pieces and calls the split function as bufio.Scanner does.
func drive(f bufio.SplitFunc, text []byte, pieces []int) ([]string, error) {
	var out []string
	var buf []byte
	off, pi := 0, 0
	eof := false
	for steps := 0; ; steps++ {
		if steps > 20*len(text)+100 {
			return out, fmt.Errorf("no progress after %d calls", steps)
		}
		if len(buf) > 0 || eof {
			data := append([]byte{}, buf...)
			adv, tok, err := f(data, eof)
			if err != nil {
				return out, fmt.Errorf("error %v", err)
			}
			if adv < 0 || adv > len(data) {
				return out, fmt.Errorf("advance %d of %d", adv, len(data))
			}
			if !bytes.Equal(data[adv:], buf[adv:]) {
				return out, fmt.Errorf("data not consumed was altered: %q, was %q", data[adv:], buf[adv:])
			}
			if tok != nil {
				if len(tok) == 0 {
					return out, fmt.Errorf("an empty sentence after %q", out)
				}
				if adv == 0 {
					return out, fmt.Errorf("a sentence %q without progress", tok)
				}
				out = append(out, string(tok))
			}
			buf = buf[adv:]
			if tok != nil {
				continue
			}
			if eof {
				if len(buf) == 0 || adv == 0 {
					return out, nil
				}
				continue
			}
		}
		if off >= len(text) {
			eof = true
			continue
		}
		n := len(text) - off
		if pi < len(pieces) && pieces[pi] < n {
			n = pieces[pi]
		}
		pi++
		if n < 1 {
			n = 1
		}
		buf = append(append([]byte{}, buf...), text[off:off+n]...)
		off += n
	}
}

type pieceReader struct {
	text   []byte
	pieces []int
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(p.text) == 0 {
		return 0, io.EOF
	}
	n := len(p.text)
	if len(p.pieces) > 0 {
		if p.pieces[0] > 0 && p.pieces[0] < n {
			n = p.pieces[0]
		}
		p.pieces = p.pieces[1:]
	}
	n = copy(b, p.text[:n])
	p.text = p.text[n:]
	return n, nil
}

func stripSpace(s string) string {
	var b strings.Builder
	for _, x := range chars(s) {
		if !unicode.IsSpace(x.r) {
			b.WriteString(s[x.off : x.off+x.size])
		}
	}
	return b.String()
}

// C13: nothing lost, nothing invented.
func runC13(c Case) error {
	cfg := 0
	if len(c.Nums) > 0 {
		cfg = c.Nums[0]
	}
	s, f := splitterOf(cfg)
	var pieces []int
	if len(c.Nums) > 1 {
		pieces = c.Nums[1:]
	}
	want := string(c.Input)
	if s.SkipWhiteSpace {
		want = stripSpace(want)
	}
	for _, ps := range [][]int{nil, pieces} {
		out, err := drive(f, c.Input, ps)
		if err != nil {
			return fmt.Errorf("%+v pieces %v: %v", s, ps, err)
		}
		if got := strings.Join(out, ""); got != want {
			return fmt.Errorf("%+v pieces %v: the sentences %q are not the text %q", s, ps, out, want)
		}
		// the real scanner
		sc := bufio.NewScanner(&pieceReader{append([]byte{}, c.Input...), append([]int{}, ps...)})
		sc.Split(f)
		var real []string
		for sc.Scan() {
			real = append(real, sc.Text())
		}
		if sc.Err() != nil {
			return fmt.Errorf("%+v pieces %v: scanner error %v", s, ps, sc.Err())
		}
		if got := strings.Join(real, ""); got != want {
			return fmt.Errorf("%+v pieces %v: the scanned sentences %q are not the text %q", s, ps, real, want)
		}
	}
	return nil
}

func has(rs []rune, r rune) bool {
	for _, x := range rs {
		if x == r {
			return true
		}
	}
	return false
}

// refSplit is the splitting rule of property C14 on a whole text.
func refSplit(s filter.SentenceSplitter, text string) []string {
	var out []string
	cs := chars(text)
	i := 0
	for i < len(cs) {
		var sent strings.Builder
		n, lf := 0, false
		ended := false
		for i < len(cs) && !ended {
			x := cs[i]
			i++
			skip := s.SkipWhiteSpace && unicode.IsSpace(x.r)
			if skip && n == 0 {
				continue
			}
			if !skip {
				sent.WriteString(text[x.off : x.off+x.size])
				n++
			} else if has(s.Delim, x.r) {
				ended = true // a skipped delimiter
				break
			}
			if s.DoubleLineFeedSplit && x.r == '\n' {
				if lf {
					ended = true
					break
				}
				lf = true
			} else {
				lf = false
			}
			if skip || (!has(s.Delim, x.r) && n < s.MaxRuneLen) {
				continue
			}
			ended = true
			lf = false
			for i < len(cs) {
				y := cs[i]
				if s.SkipWhiteSpace && unicode.IsSpace(y.r) {
					i++
					if s.DoubleLineFeedSplit && y.r == '\n' {
						if lf {
							break
						}
						lf = true
					} else {
						lf = false
					}
					continue
				}
				if !has(s.Delim, y.r) && !has(s.Follower, y.r) {
					break
				}
				sent.WriteString(text[y.off : y.off+y.size])
				lf = false
				i++
			}
		}
		if sent.Len() > 0 {
			out = append(out, sent.String())
		}
	}
	return out
}

// C14: where sentences end.
func runC14(c Case) error {
	cfg := 0
	if len(c.Nums) > 0 {
		cfg = c.Nums[0]
	}
	s, f := splitterOf(cfg)
	want := refSplit(s, string(c.Input))
	out, err := drive(f, c.Input, nil)
	if err != nil {
		return fmt.Errorf("%+v: %v", s, err)
	}
	if cmp(out, want) != nil && !bytes.HasSuffix(c.Input, []byte("\n")) {
		return fmt.Errorf("%+v: %v", s, cmp(out, want))
	}
	// the whole text at once, at EOF
	var eof []string
	data := append([]byte{}, c.Input...)
	for n := 0; len(data) > 0; n++ {
		adv, tok, err := f(data, true)
		if err != nil || adv < 1 || adv > len(data) || n > len(c.Input)+1 {
			return fmt.Errorf("%+v: advance %d of %d, error %v", s, adv, len(data), err)
		}
		if tok != nil {
			eof = append(eof, string(tok))
		}
		data = data[adv:]
	}
	if err := cmp(eof, want); err != nil {
		return fmt.Errorf("%+v: at EOF: %v", s, err)
	}
	if len(c.Nums) < 2 {
		return nil
	}
	off := 0
	for _, w := range c.Nums[1:] {
		if w < 1 {
			w = 1
		}
		off += w
		if off <= len(c.Input) && c.Input[off-1] == '\n' {
			return nil
		}
	}
	if len(c.Input) > 0 && c.Input[len(c.Input)-1] == '\n' {
		return nil
	}
	out, err = drive(f, c.Input, c.Nums[1:])
	if err != nil {
		return fmt.Errorf("%+v pieces %v: %v", s, c.Nums[1:], err)
	}
	if err := cmp(out, want); err != nil {
		return fmt.Errorf("%+v pieces %v: %v", s, c.Nums[1:], err)
	}
	return nil
}

func cmp(got, want []string) error {
	if sameList(got, want) {
		return nil
	}
	return fmt.Errorf("sentences %q, want %q", got, want)
}
