// filter: predicates, features filters and word filters

// ---------- vectors of features ----------
// A vector is a mathematical list of strings, built from the empty one by adding elements at the end.
sym vnil() int;
sym vsnoc(v int, x string) int;
sym vlen(v int) int;
sym vat(v int, i int) string;
axiom vecNil() { ensures vlen(vnil()) == 0; export {vnil()}; because "definition of lists"; }
axiom vecSnoc(v int, x string) { ensures vlen(v) >= 0 && vlen(vsnoc(v, x)) == vlen(v) + 1 && vat(vsnoc(v, x), vlen(v)) == x; export {vsnoc(v, x)}; because "definition of lists"; }
axiom vecAt(v int, x string, i int) { requires i < vlen(v); ensures vat(vsnoc(v, x), i) == vat(v, i); export {vat(vsnoc(v, x), i)}; because "definition of lists"; }

// the part of speech of a token as a vector
rec posV(t tok.Token, n int) int = if n <= 0 then vnil() else vsnoc(posV(t, n-1), posAt(t, n-1));
lemma posVLen(t tok.Token, n int) [C10, C12] {
  requires n >= 0;
  ensures vlen(posV(t, n)) == n;
  induction n;
  export {posV(t, n)};
}
lemma posVAt(t tok.Token, n int, i int) [C10, C12] {
  requires 0 <= i < n;
  ensures vat(posV(t, n), i) == posAt(t, i);
  induction n;
  export {vat(posV(t, n), i)};
}
lemma posVFrame(t tok.Token, n int) [C10, C12] {
  requires forall i {idx(i)} :: idx(i) && 0 <= i < n ==> posAt(t, i) == old(posAt(t, i));
  ensures posV(t, n) == old(posV(t, n));
  use n > 0 ==> idx(n-1);
  induction n;
  export {posV(t, n), old(posV(t, n))};
}

// ---------- the tree of a features filter ----------
macro valM(val string, x string) = val == filter.Any || val == x;
rec tm(fan []*filter.filterEdge, fs []string) bool =
  len(fs) > 0 && exists j {fan[j]} :: 0 <= j < len(fan) && valM(fan[j].val, fs[0])
     && (fan[j].to.fanout == nil || tm(fan[j].to.fanout, fs[1:]));
rec tmV(fan []*filter.filterEdge, v int, d int) bool =
  d < vlen(v) && exists j {fan[j]} :: 0 <= j < len(fan) && valM(fan[j].val, vat(v, d))
     && (fan[j].to.fanout == nil || tmV(fan[j].to.fanout, v, d+1));
lemma tmLink(fan []*filter.filterEdge, fs []string, v int, d int) [C10, C11, C12] {
  requires d >= 0 && vlen(v) - d == len(fs);
  requires forall i {vat(v, i)} :: d <= i < vlen(v) ==> fs[i-d] == vat(v, i);
  ensures tm(fan, fs) <==> tmV(fan, v, d);
  induction len(fs);
  export {tm(fan, fs), tmV(fan, v, d)};
}

func (filter.filterNode).match(n, fs)(r) {
  props C11;
  ensures [C11, C10, C12] r <==> tm(n.fanout, fs);
  decreases len(fs);
  loop 0 {
    invariant len(fs) > 0;
    invariant forall j {n.fanout[j]} :: 0 <= j < $k ==> !(valM(n.fanout[j].val, fs[0]) && (n.fanout[j].to.fanout == nil || tm(n.fanout[j].to.fanout, fs[1:])));
  }
}
func (*filter.FeaturesFilter).Match(f, fs)(r) {
  props C11;
  ensures [C11, C10, C12] r <==> tm(f.root.fanout, fs);
}
func (filter.POSFilter).Match(f, p)(r) {
  props C11;
  ensures [C11, C10, C12] r <==> tm(f.filter.root.fanout, p);
}
func (filter.WordFilter).Match(f, w)(r) {
  props C11;
  ensures [C11, C10, C12] r <==> dom(f.words, w);
}

// ---------- Keep and Drop ----------
// the n-th call of an unknown predicate f in the program returns pred(f, n, t)
sym pred(f fn, n int, t tok.Token) bool;
extern func dyn("func(tokenizer.Token) bool")(f, n, t)(r) {
  pure;
  ensures r == pred(f, n, t);
}
// how many of the first k tokens stay
rec cnt(f fn, n0 int, drop bool, s []tok.Token, k int) int =
  if k <= 0 then 0 else cnt(f, n0, drop, s, k-1) + (if pred(f, n0+k-1, s[k-1]) == drop then 0 else 1);
lemma cntMono(f fn, n0 int, drop bool, s []tok.Token, i int, j int) [C10] {
  requires 0 <= i <= j;
  ensures cnt(f, n0, drop, s, i) <= cnt(f, n0, drop, s, j) && cnt(f, n0, drop, s, j) <= cnt(f, n0, drop, s, i) + j - i;
  induction j;
  export {cnt(f, n0, drop, s, i), cnt(f, n0, drop, s, j)};
}
macro stays(f fn, n0 int, drop bool, s []tok.Token, i int) = pred(f, n0+i, s[i]) != drop;


macro inList(r ref, tokens *[]tok.Token) = tokens != nil && aid(r) == base(*tokens) && off(*tokens) <= rix(r) && rix(r) < off(*tokens) + len(*tokens);

macro filtered(f fn, n0 int, drop bool, tokens *[]tok.Token) =
  tokens != nil ==>
     len(*tokens) == old(cnt(f, n0, drop, *tokens, len(*tokens))) && base(*tokens) == old(base(*tokens)) && off(*tokens) == old(off(*tokens))
  && (forall i {old(cnt(f, n0, drop, *tokens, i))} :: 0 <= i < old(len(*tokens)) && old(stays(f, n0, drop, *tokens, i))
       ==> (*tokens)[old(cnt(f, n0, drop, *tokens, i))] == old((*tokens)[i]));
macro judgedOnce(n0 int, tokens *[]tok.Token) = ghost("ncalls") == n0 + (if tokens == nil then 0 else old(len(*tokens)));

func filter.applyFilter(match, tokens, drop)() {
  props C10;
  let n0 = ghost("ncalls");
  modifies "mem:[]tokenizer.Token" if tokens != nil && $r == addr(tokens);
  modifies "tokenizer.Token.*" if inList($r, tokens);
  ensures [C10] judgedOnce(n0, tokens);
  ensures [C10] filtered(match, n0, drop, tokens);
  loop 0 {
    invariant tokens != nil && ghost("ncalls") == n0 + $k;
    invariant *tokens == old(*tokens);
    invariant tail == old(cnt(match, n0, drop, *tokens, $k)) && 0 <= tail && tail <= $k;
    invariant forall i {old(cnt(match, n0, drop, *tokens, i))} :: 0 <= i < $k && old(stays(match, n0, drop, *tokens, i))
       ==> (*tokens)[old(cnt(match, n0, drop, *tokens, i))] == old((*tokens)[i]) && old(cnt(match, n0, drop, *tokens, i)) < tail;
    invariant forall j {(*tokens)[j]} :: $k <= j < len(*tokens) ==> (*tokens)[j] == old((*tokens)[j]);
  }
}
func filter.Drop(tokens, match)() {
  props C10;
  let n0 = ghost("ncalls");
  modifies "mem:[]tokenizer.Token" if tokens != nil && $r == addr(tokens);
  modifies "tokenizer.Token.*" if inList($r, tokens);
  ensures [C10] judgedOnce(n0, tokens);
  ensures [C10] filtered(match, n0, true, tokens);
}
func filter.Keep(tokens, match)() {
  props C10;
  let n0 = ghost("ncalls");
  modifies "mem:[]tokenizer.Token" if tokens != nil && $r == addr(tokens);
  modifies "tokenizer.Token.*" if inList($r, tokens);
  ensures [C10] judgedOnce(n0, tokens);
  ensures [C10] filtered(match, n0, false, tokens);
}

// word filter
macro staysW(f filter.WordFilter, drop bool, s []tok.Token, i int) = dom(f.words, s[i].Surface) != drop;
rec cntW(f filter.WordFilter, drop bool, s []tok.Token, k int) int =
  if k <= 0 then 0 else cntW(f, drop, s, k-1) + (if dom(f.words, s[k-1].Surface) == drop then 0 else 1);
lemma cntWMono(f filter.WordFilter, drop bool, s []tok.Token, i int, j int) [C10] {
  requires 0 <= i <= j;
  ensures cntW(f, drop, s, i) <= cntW(f, drop, s, j) && cntW(f, drop, s, j) <= cntW(f, drop, s, i) + j - i;
  induction j;
  export {cntW(f, drop, s, i), cntW(f, drop, s, j)};
}
macro filteredW(f filter.WordFilter, drop bool, tokens *[]tok.Token) =
  tokens != nil ==>
     len(*tokens) == old(cntW(f, drop, *tokens, len(*tokens))) && base(*tokens) == old(base(*tokens)) && off(*tokens) == old(off(*tokens))
  && (forall i {old(cntW(f, drop, *tokens, i))} :: 0 <= i < old(len(*tokens)) && old(staysW(f, drop, *tokens, i))
       ==> (*tokens)[old(cntW(f, drop, *tokens, i))] == old((*tokens)[i]) && 0 <= old(cntW(f, drop, *tokens, i)) && old(cntW(f, drop, *tokens, i)) < len(*tokens));

func (filter.WordFilter).apply(f, tokens, drop)() {
  props C10;
  modifies "mem:[]tokenizer.Token" if tokens != nil && $r == addr(tokens);
  modifies "tokenizer.Token.*" if inList($r, tokens);
  ensures [C10, C12] filteredW(f, drop, tokens);
  loop 0 {
    invariant tokens != nil && *tokens == old(*tokens);
    invariant tail == old(cntW(f, drop, *tokens, $k)) && 0 <= tail && tail <= $k;
    invariant forall i {old(cntW(f, drop, *tokens, i))} :: 0 <= i < $k && old(staysW(f, drop, *tokens, i))
       ==> (*tokens)[old(cntW(f, drop, *tokens, i))] == old((*tokens)[i]) && 0 <= old(cntW(f, drop, *tokens, i)) && old(cntW(f, drop, *tokens, i)) < tail;
    invariant forall j {(*tokens)[j]} :: $k <= j < len(*tokens) ==> (*tokens)[j] == old((*tokens)[j]);
  }
}
func (filter.WordFilter).Drop(f, tokens)() {
  props C10;
  modifies "mem:[]tokenizer.Token" if tokens != nil && $r == addr(tokens);
  modifies "tokenizer.Token.*" if inList($r, tokens);
  ensures [C10, C12] filteredW(f, true, tokens);
}
func (filter.WordFilter).Keep(f, tokens)() {
  props C10;
  modifies "mem:[]tokenizer.Token" if tokens != nil && $r == addr(tokens);
  modifies "tokenizer.Token.*" if inList($r, tokens);
  ensures [C10, C12] filteredW(f, false, tokens);
}

// part-of-speech filter
macro posMatch(f filter.POSFilter, t tok.Token) = tmV(f.filter.root.fanout, posV(t, posLen(t)), 0);
macro staysP(f filter.POSFilter, drop bool, s []tok.Token, i int) = posMatch(f, s[i]) != drop;
rec cntP(f filter.POSFilter, drop bool, s []tok.Token, k int) int =
  if k <= 0 then 0 else cntP(f, drop, s, k-1) + (if posMatch(f, s[k-1]) == drop then 0 else 1);
lemma cntPMono(f filter.POSFilter, drop bool, s []tok.Token, i int, j int) [C10] {
  requires 0 <= i <= j;
  ensures cntP(f, drop, s, i) <= cntP(f, drop, s, j) && cntP(f, drop, s, j) <= cntP(f, drop, s, i) + j - i;
  induction j;
  export {cntP(f, drop, s, i), cntP(f, drop, s, j)};
}
macro filteredP(f filter.POSFilter, drop bool, tokens *[]tok.Token) =
  tokens != nil ==>
     len(*tokens) == old(cntP(f, drop, *tokens, len(*tokens))) && base(*tokens) == old(base(*tokens)) && off(*tokens) == old(off(*tokens))
  && (forall i {old(cntP(f, drop, *tokens, i))} :: 0 <= i < old(len(*tokens)) && old(staysP(f, drop, *tokens, i))
       ==> (*tokens)[old(cntP(f, drop, *tokens, i))] == old((*tokens)[i]) && 0 <= old(cntP(f, drop, *tokens, i)) && old(cntP(f, drop, *tokens, i)) < len(*tokens));

func (filter.POSFilter).apply(f, tokens, drop)() {
  props C10;
  modifies "mem:[]tokenizer.Token" if tokens != nil && $r == addr(tokens);
  modifies "tokenizer.Token.*" if inList($r, tokens);
  ensures [C10, C12] filteredP(f, drop, tokens);
  after "POS" posV($t, posLen($t)) == old(posV($t, posLen($t)));
  after "Match" $r <==> old(posMatch(f, v));
  loop 0 {
    invariant tokens != nil && *tokens == old(*tokens);
    invariant tail == old(cntP(f, drop, *tokens, $k)) && 0 <= tail && tail <= $k;
    invariant forall i {old(cntP(f, drop, *tokens, i))} :: 0 <= i < $k && old(staysP(f, drop, *tokens, i))
       ==> (*tokens)[old(cntP(f, drop, *tokens, i))] == old((*tokens)[i]) && 0 <= old(cntP(f, drop, *tokens, i)) && old(cntP(f, drop, *tokens, i)) < tail;
    invariant forall j {(*tokens)[j]} :: $k <= j < len(*tokens) ==> (*tokens)[j] == old((*tokens)[j]);
  }
}
func (filter.POSFilter).Drop(f, tokens)() {
  props C10;
  modifies "mem:[]tokenizer.Token" if tokens != nil && $r == addr(tokens);
  modifies "tokenizer.Token.*" if inList($r, tokens);
  ensures [C10, C12] filteredP(f, true, tokens);
}
func (filter.POSFilter).Keep(f, tokens)() {
  props C10;
  modifies "mem:[]tokenizer.Token" if tokens != nil && $r == addr(tokens);
  modifies "tokenizer.Token.*" if inList($r, tokens);
  ensures [C10, C12] filteredP(f, false, tokens);
}

// ---------- construction ----------
macro listed(ws []string, n int, w string) = exists i {ws[i]} :: 0 <= i < n && ws[i] == w;
func filter.NewWordFilter(words)(r) {
  props C06, C11;
  ensures [C11, C12] r != nil && fresh(r) && r.words != nil;
  ensures [C11, C12] forall w string {dom(r.words, w)} :: dom(r.words, w) <==> old(listed(words, len(words), w));
  loop 0 {
    invariant ret != nil && fresh(ret) && ret.words != nil && fresh(ret.words) && 0 <= $k && $k <= len(words);
    invariant forall w string {dom(ret.words, w)} :: dom(ret.words, w) <==> old(listed(words, $k, w));
  }
}
