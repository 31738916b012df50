package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unsafe"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
	"github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	props["C15"] = &Prop{fixed: fixedC15, gen: genC15, run: runC15}
	props["C17"] = &Prop{fixed: fixedC17, gen: genC17, run: runC17}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func asset(name string) string {
	b, err := os.ReadFile(filepath.Join(repoDir(), "filter/ja/asset", name))
	if err != nil {
		panic(err)
	}
	return string(b)
}

func defaultStopTags() [][]string {
	var ret [][]string
	for _, v := range parseList(asset("stop_tags.txt")) {
		p := strings.Split(v, "-")
		for len(p) < 4 {
			p = append(p, "*")
		}
		ret = append(ret, p)
	}
	return ret
}

func defaultStopWords() []string { return parseList(asset("stop_words.txt")) }

var modeNames = []string{"normal", "search", "extended"}

func fixedC15() []Case {
	var cs []Case
	for _, in := range []string{"", "\n", "ねこです", "ねこです\n私は鰻\n", "ポポピッピ\nポポピッピを買った", "a\x00b\xff\n", "<&>\"\\ \u2028 日本経済新聞\n", "BOS EOS\nEOS", " \n　\n", "日本経済新聞でモバゲー"} {
		for m := 0; m < 3; m++ {
			cs = append(cs, Case{Kind: "cli", Mode: m, Input: []byte(in)}, Case{Kind: "json", Mode: m, Input: []byte(in)}, Case{Kind: "http", Mode: m, Input: []byte(in)})
		}
		cs = append(cs, Case{Kind: "cli-udict", Mode: 1, Input: []byte(in)}, Case{Kind: "http", Mode: 3, Input: []byte(in)}, Case{Kind: "cli-split", Input: []byte(in)})
	}
	return cs
}

func genC15(r *Rand, n int) Case {
	in := r.inputIPA()
	for r.prob(0.3) {
		in = append(append(in, '\n'), r.inputIPA()...)
	}
	return Case{Kind: []string{"cli", "json", "http", "cli-udict", "cli-split", "http", "json"}[n%7], Mode: r.Intn(4), Input: in}
}

func withFile(data []byte, f func(path string) error) error {
	dir, err := os.MkdirTemp("", "refute")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "in.txt")
	if err := os.WriteFile(p, data, 0o600); err != nil {
		return err
	}
	return f(p)
}

const udictText = "日本経済新聞,日本 経済 新聞,ニホン ケイザイ シンブン,カスタム名詞\n関西国際空港,関西 国際 空港,カンサイ コクサイ クウコウ,テスト名詞\n"

var toolUser = func() *dict.UserDict {
	recs, err := dict.NewUserDicRecords(strings.NewReader(udictText))
	if err != nil {
		panic(err)
	}
	u, err := recs.NewUserDict()
	if err != nil {
		panic(err)
	}
	return u
}

func runTool(args ...string) (out, serr string, err error) {
	var b, e bytes.Buffer
	o1, o2 := tokenize.Stdout, tokenize.Stderr
	tokenize.Stdout, tokenize.Stderr = &b, &e
	defer func() { tokenize.Stdout, tokenize.Stderr = o1, o2 }()
	err = tokenize.Run(context.Background(), args)
	return b.String(), e.String(), err
}

func plainOf(ts []tokenizer.Token) string {
	var b strings.Builder
	for _, t := range ts {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		b.WriteString(t.Surface)
		if t.Class != tokenizer.DUMMY {
			b.WriteString("\t" + strings.Join(t.Features(), ","))
		}
		b.WriteString("\n")
	}
	return b.String() + "EOS\n"
}

func dataOf(ts []tokenizer.Token) string {
	ret := []json.RawMessage{}
	for _, t := range ts {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		d := tokenizer.TokenData{ID: t.ID, Start: t.Start, End: t.End, Surface: t.Surface, Class: t.Class.String(), POS: append([]string{}, t.POS()...), Features: append([]string{}, t.Features()...)}
		d.BaseForm, _ = t.BaseForm()
		d.Reading, _ = t.Reading()
		d.Pronunciation, _ = t.Pronunciation()
		b, err := json.Marshal(d)
		if err != nil {
			panic(err)
		}
		ret = append(ret, b)
	}
	b, err := json.Marshal(ret)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func handlerOf(t *tokenizer.Tokenizer) (http.Handler, bool) {
	h := &server.TokenizeHandler{}
	v := reflect.ValueOf(h).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf(t) {
			*(**tokenizer.Tokenizer)(unsafe.Pointer(f.UnsafeAddr())) = t
			return h, true
		}
		if f.Type() == reflect.TypeOf(*t) {
			*(*tokenizer.Tokenizer)(unsafe.Pointer(f.UnsafeAddr())) = *t
			return h, true
		}
	}
	return nil, false
}

func lines(in []byte, split bool) []string {
	s := bufio.NewScanner(bytes.NewReader(append([]byte{}, in...)))
	if split {
		s.Split(filter.ScanSentences)
	}
	var ret []string
	for s.Scan() {
		ret = append(ret, s.Text())
	}
	return ret
}

// C15: what the tools print.
func runC15(c Case) error {
	mode := []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended}[c.Mode%3]
	var opts []tokenizer.Option
	if c.Kind == "cli-udict" {
		opts = append(opts, tokenizer.UserDict(toolUser()))
	}
	tz, err := tokenizer.New(ipa.Dict(), opts...)
	if err != nil {
		return err
	}
	switch c.Kind {
	case "http":
		h, ok := handlerOf(tz)
		if !ok {
			return nil
		}
		name := []string{"Normal", "Search", "Extended", ""}[c.Mode%4]
		if c.Mode%4 == 3 {
			mode = tokenizer.Normal
		}
		req := map[string]string{"sentence": string(c.Input)}
		if name != "" {
			req["mode"] = name
		}
		body, _ := json.Marshal(req)
		var back map[string]string
		if err := json.Unmarshal(body, &back); err != nil {
			return nil
		}
		sentence := back["sentence"] // JSON replaces undecodable bytes
		w := httptest.NewRecorder()
		h.ServeHTTP(w, httptest.NewRequest("PUT", "/tokenize", bytes.NewReader(body)))
		if w.Code != 200 {
			return fmt.Errorf("status %d: %s", w.Code, w.Body.String())
		}
		var res struct {
			Status bool            `json:"status"`
			Tokens json.RawMessage `json:"tokens"`
		}
		if err := json.Unmarshal(w.Body.Bytes(), &res); err != nil {
			return fmt.Errorf("response %q: %v", w.Body.String(), err)
		}
		var compact bytes.Buffer
		if err := json.Compact(&compact, res.Tokens); err != nil {
			return err
		}
		want := "[]"
		if sentence != "" {
			want = dataOf(tz.Analyze(sentence, mode))
		}
		if !res.Status {
			return fmt.Errorf("status false: %s", w.Body.String())
		}
		return diff("HTTP tokens", strings.ReplaceAll(compact.String(), "},{", "},\n{"), strings.ReplaceAll(want, "},{", "},\n{"))
	}
	return withFile(c.Input, func(path string) error {
		args := []string{"-file", path, "-mode", modeNames[c.Mode%3]}
		var want strings.Builder
		switch c.Kind {
		case "json":
			args = append(args, "-json")
		case "cli-udict":
			up := filepath.Join(filepath.Dir(path), "user.txt")
			if err := os.WriteFile(up, []byte(udictText), 0o600); err != nil {
				return err
			}
			args = append(args, "-udict", up)
		case "cli-split":
			args = append(args, "-split")
		}
		out, serr, err := runTool(args...)
		if err != nil {
			return fmt.Errorf("tokenize %v: %v %s", args, err, serr)
		}
		ls := lines(c.Input, c.Kind == "cli-split")
		if c.Kind == "json" {
			dec := json.NewDecoder(strings.NewReader(out))
			for i, l := range ls {
				var m []json.RawMessage
				if err := dec.Decode(&m); err != nil {
					return fmt.Errorf("JSON output of line %d: %v in %q", i, err, out)
				}
				if m == nil {
					m = []json.RawMessage{}
				}
				got, _ := json.Marshal(m)
				if err := diff("JSON output", strings.ReplaceAll(string(got), "},{", "},\n{"), strings.ReplaceAll(dataOf(tz.Analyze(l, mode)), "},{", "},\n{")); err != nil {
					return err
				}
			}
			if dec.More() {
				return fmt.Errorf("more JSON output than lines: %q", out)
			}
			return nil
		}
		for _, l := range ls {
			want.WriteString(plainOf(tz.Analyze(l, mode)))
		}
		return diff("plain output", out, want.String())
	})
}

func fixedC17() []Case {
	var cs []Case
	for m := 0; m < 3; m++ {
		cs = append(cs, Case{Kind: "select", Mode: m, Input: []byte("関西国際空港ポポピッピ日本経済新聞")})
		cs = append(cs, Case{Kind: "select-uni", Mode: m, Input: []byte("関西国際空港ポポピッピ日本経済新聞を食べた")})
		cs = append(cs, Case{Kind: "select-simple", Mode: m, Input: []byte("日本経済新聞を食べた")})
		cs = append(cs, Case{Kind: "lattice", Mode: m, Input: []byte("関西国際空港ポポピッピ")})
		cs = append(cs, Case{Kind: "lattice-uni", Mode: m, Input: []byte("関西国際空港ポポピッピを食べた")})
	}
	cs = append(cs, Case{Kind: "lattice-bad", Seed: 1}, Case{Kind: "select-bad", Seed: 1})
	for i := 0; i < 200; i++ {
		cs = append(cs, Case{Kind: "options", Seed: int64(1000 + i)})
	}
	return cs
}

func genC17(r *Rand, n int) Case {
	return Case{Kind: "options", Seed: 1 + r.Int63n(1<<40)}
}

// C17: options and selectors.
func runC17(c Case) error {
	mode := []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended}[c.Mode%3]
	switch c.Kind {
	case "options":
		return runOptions(c)
	case "select-bad":
		for _, a := range [][]string{{"-sysdict", "ko"}, {"-mode", "zzz"}, {"extra"}} {
			if _, _, err := runTool(a...); err == nil {
				return fmt.Errorf("tokenize %v succeeded", a)
			}
		}
		return nil
	case "lattice-bad":
		for _, a := range [][]string{{"-dict", "ko", "x"}, {"-mode", "zzz", "x"}, {}} {
			if _, _, err := runLattice(a...); err == nil {
				return fmt.Errorf("lattice %v succeeded", a)
			}
		}
		return nil
	case "lattice", "lattice-uni":
		d, name := ipa.Dict(), "ipa"
		if c.Kind == "lattice-uni" {
			d, name = uni.Dict(), "uni"
		}
		tz, err := tokenizer.New(d)
		if err != nil {
			return err
		}
		var want strings.Builder
		for _, t := range tz.Analyze(string(c.Input), mode)[1:] {
			if t.Class == tokenizer.DUMMY {
				want.WriteString(t.Surface + "\n")
			} else {
				want.WriteString(t.Surface + "\t" + strings.Join(t.Features(), ",") + "\n")
			}
		}
		_, serr, err := runLattice("-v", "-dict", name, "-mode", modeNames[c.Mode%3], string(c.Input))
		if err != nil {
			return err
		}
		return diff("lattice "+name, serr, want.String())
	}
	d := ipa.Dict()
	args := []string{"-mode", modeNames[c.Mode%3], "-sysdict", "ipa"}
	switch c.Kind {
	case "select-uni":
		d = uni.Dict()
		args = []string{"-mode", modeNames[c.Mode%3], "-sysdict", "uni"}
	case "select-simple":
		d = ipa.DictShrink()
		args = append(args, "-simple")
	}
	tz, err := tokenizer.New(d)
	if err != nil {
		return err
	}
	return withFile(c.Input, func(path string) error {
		out, serr, err := runTool(append(args, "-file", path)...)
		if err != nil {
			return fmt.Errorf("tokenize %v: %v %s", args, err, serr)
		}
		return diff(fmt.Sprint("tokenize ", args), out, plainOf(tz.Analyze(string(c.Input), mode)))
	})
}

func runLattice(args ...string) (out, serr string, err error) {
	var b, e bytes.Buffer
	o1, o2 := lattice.Stdout, lattice.Stderr
	lattice.Stdout, lattice.Stderr = &b, &e
	defer func() { lattice.Stdout, lattice.Stderr = o1, o2 }()
	err = lattice.Run(context.Background(), args)
	return b.String(), e.String(), err
}

func runOptions(c Case) error {
	r := NewRand(c.Seed)
	g := NewGenDict(r.Int63n(500))
	var opts []tokenizer.Option
	var log []int
	var want []int
	fails := false
	omit := false
	var user *GenUser
	for n := r.Intn(6); n > 0; n-- {
		k := len(opts)
		switch r.Intn(8) {
		case 0:
			opts = append(opts, tokenizer.Nop())
		case 1, 2:
			u := NewGenUser(r.Int63n(500), g.alpha)
			opts = append(opts, tokenizer.UserDict(u.u))
			if !fails {
				user = u
			}
		case 3:
			if r.prob(0.3) {
				opts = append(opts, tokenizer.UserDict(nil))
				fails = true
			}
		case 4:
			opts = append(opts, tokenizer.OmitBosEos())
			if !fails {
				omit = true
			}
		case 5, 6:
			opts = append(opts, func(*tokenizer.Tokenizer) error { log = append(log, k); return nil })
			if !fails {
				want = append(want, k)
			}
		case 7:
			if r.prob(0.2) {
				opts = append(opts, func(*tokenizer.Tokenizer) error { log = append(log, k); return errors.New("x") })
				if !fails {
					want = append(want, k)
				}
				fails = true
			}
		}
	}
	if _, err := tokenizer.New(nil, opts...); err == nil {
		return fmt.Errorf("New succeeded without a dictionary")
	}
	log = nil
	t, err := tokenizer.New(g.d, opts...)
	if (err != nil) != fails {
		return fmt.Errorf("New: error %v with failing options: %v", err, fails)
	}
	if fmt.Sprint(log) != fmt.Sprint(want) {
		return fmt.Errorf("options applied %v, want %v", log, want)
	}
	if err != nil {
		return nil
	}
	in := string(r.inputGen(g, user))
	ts := t.Analyze(in, tokenizer.Normal)
	if got := len(ts) == 0 || ts[0].ID != tokenizer.BosEosID; got != omit && (len(in) > 0 || omit) {
		return fmt.Errorf("BOS/EOS omitted: %v, want %v", got, omit)
	}
	// the words are those of the dictionaries named
	ref, ok := minCost(g, in, 1, candidates(g, user, in))
	if !ok {
		return nil
	}
	got, err := pathCost(g, in, 1, words(ts))
	if err != nil {
		return err
	}
	if got != ref {
		return fmt.Errorf("analysis of %q with the options given costs %d, want %d", in, got, ref)
	}
	for _, x := range words(ts) {
		if x.Class == tokenizer.USER {
			if user == nil {
				return fmt.Errorf("%v: a user word without a user dictionary", x)
			}
			if x.ID >= len(user.words) || user.words[x.ID] != x.Surface || x.Features()[0] != user.u.Contents[x.ID].Pos {
				return fmt.Errorf("%v: not a word of the user dictionary given", x)
			}
		}
	}
	return nil
}
