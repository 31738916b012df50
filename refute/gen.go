package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// Rand is a seeded source.
type Rand struct {
	*rand.Rand
	seed int64
}

func NewRand(seed int64) *Rand { return &Rand{rand.New(rand.NewSource(seed)), seed} }

// dictBase is where the generated dictionaries of a run start: few enough to be built once
func (r *Rand) dictBase() int64 { return (r.seed & 0xffff) * 1000 }

func (r *Rand) pick(xs []string) string { return xs[r.Intn(len(xs))] }
func (r *Rand) prob(p float64) bool     { return r.Float64() < p }

// the characters generated dictionaries and inputs are made of
var alphabet = []string{
	"a", "b", "c", "A", "1", "2", " ", "\n", "ア", "イ", "ー", "あ", "い", "漢", "字", "連", "盟", "。", "!", "é", "𠮷", "\uFFFD", "〇", "々",
}

var badBytes = []string{"\xff", "\xfe", "\x80", "\xe3", "\xe3\x81", "\xf0\xa0", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x00"}

var ipaWords = []string{
	"すもも", "もも", "も", "の", "うち", "私", "は", "鰻", "猫", "です", "ねこ", "関西国際空港", "日本経済新聞", "人魚", "南", "方", "海", "に", "ばかり", "棲ん", "で", "いる", "デジカメ", "プロジェクトデザイン", "を", "買った", "ポポピッピ", "鱻鱻", "ヵヵ", "イスラエル連盟", "連盟", "寿司", "が", "食べたい", "。", "、", "！", "１２３", "12345", "abc", "ＡＢＣ", " ", "　", "\n", "\t", "カタカナカタカナカタカナ", "株式会社東京証券取引所上場", "漢字漢字漢字漢字", "飛行機", "自動車", "の", "国際連合教育科学文化機関", "〇〇", "々", "ー", "Ⅷ", "①", "♪", "\U0001F600", "𠮷野家", "e\u0301", "한국어", "Привет", "ééé", "\x7f",
}

// inputIPA makes an input for the IPA dictionary.
func (r *Rand) inputIPA() []byte {
	var b strings.Builder
	n := 1 + r.Intn(8)
	if r.prob(0.1) {
		n = r.Intn(60)
	}
	for i := 0; i < n; i++ {
		switch {
		case r.prob(0.12):
			b.WriteString(r.pick(badBytes))
		case r.prob(0.1):
			b.WriteString(strings.Repeat(r.pick(ipaWords), 1+r.Intn(5)))
		case r.prob(0.08):
			b.WriteString(r.pick(alphabet))
		default:
			b.WriteString(r.pick(ipaWords))
		}
	}
	return []byte(b.String())
}

// inputGen makes an input for a generated dictionary.
func (r *Rand) inputGen(g *GenDict, u *GenUser) []byte {
	var b strings.Builder
	n := r.Intn(7)
	if r.prob(0.1) {
		n = r.Intn(40)
	}
	for i := 0; i < n; i++ {
		switch {
		case r.prob(0.1):
			b.WriteString(r.pick(badBytes))
		case r.prob(0.3):
			b.WriteString(r.pick(g.words))
		case u != nil && r.prob(0.3):
			b.WriteString(r.pick(u.words))
		case r.prob(0.1):
			b.WriteString(strings.Repeat(r.pick(g.alpha), 1+r.Intn(12)))
		case r.prob(0.1):
			b.WriteString(r.pick(alphabet))
		default:
			b.WriteString(r.pick(g.alpha))
		}
	}
	if r.prob(0.01) {
		b.WriteString(strings.Repeat(r.pick(g.alpha), 1015+r.Intn(30)))
	}
	return []byte(b.String())
}

// GenDict is a generated, well-formed system dictionary.
type GenDict struct {
	d     *dict.Dict
	words []string // keywords in id order
	alpha []string
}

// GenUser is a generated user dictionary.
type GenUser struct {
	u     *dict.UserDict
	words []string // keywords in id order
}

var (
	dictMu    sync.Mutex
	genDicts  = map[int64]*GenDict{}
	genUsers  = map[int64]*GenUser{}
	ipaOnce   sync.Once
	ipaGen    *GenDict
)

func IPA() *GenDict {
	ipaOnce.Do(func() { ipaGen = &GenDict{d: ipa.Dict(), words: ipaWords, alpha: alphabet} })
	return ipaGen
}

func genWord(r *Rand, alpha []string, max int) string {
	n := 1 + r.Intn(max)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(alpha[r.Intn(len(alpha))])
	}
	return b.String()
}

func weight(r *Rand) int16 {
	switch r.Intn(10) {
	case 0:
		return int16(r.Intn(65536) - 32768)
	case 1:
		return []int16{-32768, 32767, 0, 1, -1}[r.Intn(5)]
	case 2, 3, 4:
		return int16(r.Intn(7) - 3)
	}
	return int16(r.Intn(8000) - 2000)
}

func someStrings(r *Rand, n int) []string {
	ret := make([]string, n)
	for i := range ret {
		ret[i] = r.pick([]string{"*", "名詞", "動詞", "一般", "x", "", "読ミ", "基本形", "y/z", "a,b"})
	}
	return ret
}

// NewGenDict builds the dictionary of the seed.
func NewGenDict(seed int64) *GenDict {
	dictMu.Lock()
	defer dictMu.Unlock()
	if g, ok := genDicts[seed]; ok {
		return g
	}
	r := NewRand(seed*7919 + 17)
	g := &GenDict{}
	na := 3 + r.Intn(5)
	for _, i := range r.Perm(len(alphabet))[:na] {
		g.alpha = append(g.alpha, alphabet[i])
	}
	nw := 1 + r.Intn(16)
	for i := 0; i < nw; i++ {
		w := genWord(r, g.alpha, 4)
		if r.prob(0.1) {
			w = genWord(r, g.alpha, 12)
		}
		g.words = append(g.words, w)
		for r.prob(0.3) {
			g.words = append(g.words, w)
		}
	}
	sort.Strings(g.words)
	idx, err := dict.BuildIndexTable(append([]string{}, g.words...))
	if err != nil {
		panic(err)
	}
	nctx := 1 + r.Intn(4)
	ctx := func() int16 { return int16(r.Intn(nctx)) }
	d := &dict.Dict{Index: idx}
	names := []string{"名詞", "動詞", "助詞", "*", "一般", "記号", "x"}
	d.POSTable.NameList = names
	shrunk := r.prob(0.2)
	for range g.words {
		d.Morphs = append(d.Morphs, dict.Morph{LeftID: ctx(), RightID: ctx(), Weight: weight(r)})
		var p dict.POS
		for k := r.Intn(5); k > 0; k-- {
			p = append(p, dict.POSID(r.Intn(len(names))))
		}
		d.POSTable.POSs = append(d.POSTable.POSs, p)
		if !shrunk {
			d.Contents = append(d.Contents, someStrings(r, r.Intn(6)))
		}
	}
	meta := func() dict.ContentsMeta {
		m := dict.ContentsMeta{}
		if r.prob(0.1) {
			return m
		}
		if r.prob(0.9) {
			m[dict.POSStartIndex] = int8(r.Intn(3))
		}
		if r.prob(0.9) {
			m[dict.POSHierarchy] = int8(r.Intn(5))
		}
		for _, k := range []string{dict.InflectionalType, dict.InflectionalForm, dict.BaseFormIndex, dict.ReadingIndex, dict.PronunciationIndex} {
			if r.prob(0.8) {
				m[k] = int8(r.Intn(10) - 1)
			}
		}
		return m
	}
	d.ContentsMeta = meta()
	d.Connection = dict.ConnectionTable{Row: int64(nctx), Col: int64(nctx), Vec: make([]int16, nctx*nctx)}
	for i := range d.Connection.Vec {
		d.Connection.Vec[i] = weight(r)
	}
	// character categories
	nc := 1 + r.Intn(4)
	d.CharCategory = make([]byte, 0x10000)
	if r.prob(0.5) {
		d.CharCategory = make([]byte, 0x20BC0)
	}
	for _, a := range alphabet {
		c := []rune(a)[0]
		if int(c) < len(d.CharCategory) {
			d.CharCategory[c] = byte(r.Intn(nc))
		}
	}
	d.CharCategory[0] = byte(r.Intn(nc))
	d.CharCategory[0xFFFD] = byte(r.Intn(nc))
	d.UnkDict.Index = map[int32]int32{}
	d.UnkDict.IndexDup = map[int32]int32{}
	for c := 0; c < nc; c++ {
		d.CharClass = append(d.CharClass, fmt.Sprintf("C%d", c))
		d.InvokeList = append(d.InvokeList, r.prob(0.5))
		d.GroupList = append(d.GroupList, r.prob(0.6))
		d.UnkDict.Index[int32(c)] = int32(len(d.UnkDict.Morphs))
		n := 1
		for r.prob(0.35) {
			n++
		}
		if n > 1 {
			d.UnkDict.IndexDup[int32(c)] = int32(n - 1)
		}
		for ; n > 0; n-- {
			d.UnkDict.Morphs = append(d.UnkDict.Morphs, dict.Morph{LeftID: ctx(), RightID: ctx(), Weight: weight(r)})
			d.UnkDict.Contents = append(d.UnkDict.Contents, someStrings(r, r.Intn(8)))
		}
	}
	d.UnkDict.ContentsMeta = meta()
	g.d = d
	if len(genDicts) > 1500 {
		genDicts = map[int64]*GenDict{}
	}
	genDicts[seed] = g
	return g
}

// NewGenUser builds the user dictionary of the seed, over the characters of a dictionary.
func NewGenUser(seed int64, alpha []string) *GenUser {
	dictMu.Lock()
	defer dictMu.Unlock()
	key := seed*31 + int64(len(alpha)) + int64(len(strings.Join(alpha, "")))*1000003
	for _, a := range alpha {
		for _, b := range []byte(a) {
			key = key*131 + int64(b)
		}
	}
	if g, ok := genUsers[key]; ok {
		return g
	}
	r := NewRand(seed*104729 + 5)
	set := map[string]bool{}
	for i := 1 + r.Intn(5); i > 0; i-- {
		w := strings.TrimSpace(genWord(r, alpha, 3))
		if w != "" {
			set[w] = true
		}
	}
	if len(set) == 0 {
		set["漢字"] = true
	}
	var recs dict.UserDictRecords
	g := &GenUser{}
	for w := range set {
		g.words = append(g.words, w)
	}
	sort.Strings(g.words)
	for _, w := range g.words {
		n := 1 + r.Intn(3)
		recs = append(recs, dict.UserDicRecord{Text: w, Tokens: someStrings(r, n), Yomi: someStrings(r, n), Pos: r.pick([]string{"カスタム名詞", "", "x"})})
	}
	u, err := recs.NewUserDict()
	if err != nil {
		panic(err)
	}
	g.u = u
	if len(genUsers) > 6000 {
		genUsers = map[int64]*GenUser{}
	}
	genUsers[key] = g
	return g
}

func (c Case) gdict() *GenDict {
	if strings.HasPrefix(c.Dict, "gen:") {
		n, _ := strconv.ParseInt(c.Dict[4:], 10, 64)
		return NewGenDict(n)
	}
	return IPA()
}

func (c Case) guser() *GenUser {
	if strings.HasPrefix(c.UDict, "gen:") {
		n, _ := strconv.ParseInt(c.UDict[4:], 10, 64)
		g := c.gdict()
		return NewGenUser(n, g.alpha)
	}
	return nil
}

// tokenizerOf makes the tokenizer of a case.
func (c Case) tokenizerOf() *tokenizer.Tokenizer {
	var opts []tokenizer.Option
	if u := c.guser(); u != nil {
		opts = append(opts, tokenizer.UserDict(u.u))
	}
	if c.Omit {
		opts = append(opts, tokenizer.OmitBosEos())
	}
	t, err := tokenizer.New(c.gdict().d, opts...)
	if err != nil {
		panic("tokenizer.New: " + err.Error())
	}
	return t
}

// genAnalysis makes a case with a dictionary, perhaps a user dictionary, a mode and an input.
func genAnalysis(r *Rand, n int) Case {
	c := Case{Kind: "analysis", Mode: []int{1, 2, 3, 1, 2, 3, 0, 7, -1}[r.Intn(9)], Omit: r.prob(0.25)}
	if n%8 == 3 {
		c.Dict = "ipa"
		if r.prob(0.3) {
			c.UDict = fmt.Sprintf("gen:%d", r.Intn(50))
		}
		c.Input = r.inputIPA()
		return c
	}
	c.Dict = fmt.Sprintf("gen:%d", r.dictBase()+r.Int63n(700))
	if r.prob(0.4) {
		c.UDict = fmt.Sprintf("gen:%d", r.Int63n(4))
	}
	c.Input = r.inputGen(c.gdict(), c.guser())
	return c
}

// fixedAnalysis are the inputs every analysis property starts with.
func fixedAnalysis() []Case {
	ins := []string{
		"", " ", "\n", "\x00", "\xff", "\xff\xfe", "a", "あ", "\uFFFD", "あ\uFFFDい", "\xe3\x81", "すもももももももものうち", "関西国際空港限定トートバッグ",
		"日本経済新聞社とデジカメを買った", "ポポピッピポポピッピ", "株式会社東京証券取引所上場", "カタカナカタカナカタカナカタカナ", "12345６７８９", "  \t 　\n",
		"\xff\xfeあ\x80い", "𠮷野家で𠮷", "e\u0301a\u0301", strings.Repeat("あ", 1030), strings.Repeat("ア", 1025) + "漢", strings.Repeat("a", 1024), strings.Repeat("a", 1023) + "\xff",
		strings.Repeat("\xff", 1100), strings.Repeat("鱻", 40) + "ヵヵイスラエル連盟", strings.Repeat("連盟", 300), strings.Repeat("日本", 2000), "漢字漢字漢字漢字漢字漢字漢字", "ヵヵイスラエル連盟",
	}
	var cs []Case
	for _, in := range ins {
		for _, m := range []int{1, 2, 3, 0, 4} {
			cs = append(cs, Case{Kind: "analysis", Dict: "ipa", Mode: m, Input: []byte(in)})
		}
		cs = append(cs, Case{Kind: "analysis", Dict: "ipa", Mode: 1, Omit: true, Input: []byte(in)})
		cs = append(cs, Case{Kind: "analysis", Dict: "ipa", UDict: "gen:3", Mode: 2, Input: []byte(in)})
	}
	return cs
}

// hugeAnalysis are the inputs long enough for sums to leave small integer types.
func hugeAnalysis() []Case {
	return []Case{
		{Kind: "analysis", Dict: "ipa", Mode: 1, Input: []byte(strings.Repeat("鱻", 300000) + "ヵヵイスラエル連盟")},
		{Kind: "analysis", Dict: "ipa", Mode: 2, Input: []byte(strings.Repeat("連盟", 340000))},
	}
}
