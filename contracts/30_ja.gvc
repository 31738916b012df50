// filter/ja (C12)
macro stopTag(f ja.Filter, t tok.Token) = tmV(f.stopTags.filter.root.fanout, posV(t, posLen(t)), 0);
macro stopWord(f ja.Filter, t tok.Token) = dom(f.stopWords.words, t.Surface);
macro baseClass(f ja.Filter, t tok.Token) = tmV(f.baserForm.filter.root.fanout, posV(t, posLen(t)), 0);
macro hasBase(t tok.Token) = hasMeta(t, dict.BaseFormIndex) && 0 <= metaIdx(t, dict.BaseFormIndex) < featLen(t);
rec yields(f ja.Filter, t tok.Token) bool = !stopTag(f, t) && !stopWord(f, t) && (baseClass(f, t) ==> hasBase(t));
rec word(f ja.Filter, t tok.Token) string = if baseClass(f, t) then featAt(t, metaIdx(t, dict.BaseFormIndex)) else t.Surface;
rec cntY(f ja.Filter, s []tok.Token, k int) int =
  if k <= 0 then 0 else cntY(f, s, k-1) + (if yields(f, s[k-1]) then 1 else 0);
lemma cntYMono(f ja.Filter, s []tok.Token, i int, j int) [C12] {
  requires 0 <= i <= j;
  ensures cntY(f, s, i) <= cntY(f, s, j) && cntY(f, s, j) <= cntY(f, s, i) + j - i && 0 <= cntY(f, s, i);
  use cntY(f, s, 0) == 0;
  induction j;
  export {cntY(f, s, i), cntY(f, s, j)};
}

func (ja.Filter).Yield(f, tokens)(r) {
  props C12;
  requires [C12] forall i {tokens[i]} :: 0 <= i < len(tokens) ==> tokWF(tokens[i]);
  ensures [C12] len(r) == old(cntY(f, tokens, len(tokens)));
  ensures [C12] forall i {old(cntY(f, tokens, i))} :: 0 <= i < len(tokens) && old(yields(f, tokens[i])) ==> r[old(cntY(f, tokens, i))] == old(word(f, tokens[i]));
  after "POS" posV($t, posLen($t)) == old(posV($t, posLen($t)));
  after "BaseForm" $ok <==> old(hasBase(v));
  after "BaseForm" $ok ==> $r == old(featAt(v, metaIdx(v, dict.BaseFormIndex)));
  loop 0 {
    invariant len(ret) == old(cntY(f, tokens, $k)) && (ret == nil || fresh(ret)) && 0 <= $k && $k <= len(tokens);
    invariant forall i {old(cntY(f, tokens, i))} :: 0 <= i < $k && old(yields(f, tokens[i])) ==> ret[old(cntY(f, tokens, i))] == old(word(f, tokens[i])) && 0 <= old(cntY(f, tokens, i)) && old(cntY(f, tokens, i)) < len(ret);
  }
}

// Drop: tokens with a stop tag, then tokens with a stop word
rec dropsTok(f ja.Filter, t tok.Token) bool = stopTag(f, t) || stopWord(f, t);
rec cntD(f ja.Filter, s []tok.Token, k int) int =
  if k <= 0 then 0 else cntD(f, s, k-1) + (if dropsTok(f, s[k-1]) then 0 else 1);
lemma cntDMono(f ja.Filter, s []tok.Token, i int, j int) [C12] {
  requires 0 <= i <= j;
  ensures cntD(f, s, i) <= cntD(f, s, j) && cntD(f, s, j) <= cntD(f, s, i) + j - i && 0 <= cntD(f, s, i);
  use cntD(f, s, 0) == 0;
  induction j;
  export {cntD(f, s, i), cntD(f, s, j)};
}
lemma cntPNonneg(f filter.POSFilter, drop bool, s []tok.Token, k int) [C12] {
  ensures 0 <= cntP(f, drop, s, k) && (0 <= k ==> cntP(f, drop, s, k) <= k);
  use cntP(f, drop, s, 0) == 0;
  induction k;
  export {cntP(f, drop, s, k)};
}
lemma dropBoth(f ja.Filter, s []tok.Token, m []tok.Token, k int) [C12] {
  requires 0 <= k <= len(s);
  requires f.stopWords != nil && old(f.stopTags != nil);
  requires forall w string {dom(f.stopWords.words, w)} :: dom(f.stopWords.words, w) <==> old(dom(f.stopWords.words, w));
  requires forall i {old(cntP(*f.stopTags, true, s, i))} :: 0 <= i < len(s) && old(staysP(*f.stopTags, true, s, i)) ==> m[old(cntP(*f.stopTags, true, s, i))].Surface == old(s[i].Surface);
  ensures cntW(*f.stopWords, true, m, old(cntP(*f.stopTags, true, s, k))) == old(cntD(f, s, k));
  use old(cntP(*f.stopTags, true, s, 0)) == 0;
  use 0 < k ==> old(cntP(*f.stopTags, true, s, k-1)) >= 0;
  use 0 < k && old(staysP(*f.stopTags, true, s, k-1)) ==> m[old(cntP(*f.stopTags, true, s, k-1))].Surface == old(s[k-1].Surface);
  use 0 < k ==> old(cntD(f, s, k)) == old(cntD(f, s, k-1)) + (if old(dropsTok(f, s[k-1])) then 0 else 1);
  induction k;
  export {cntW(*f.stopWords, true, m, old(cntP(*f.stopTags, true, s, k))), old(cntD(f, s, k))};
}
func (ja.Filter).Drop(f, tokens)() {
  props C12;
  requires [C12] f.stopTags != nil && f.stopWords != nil;
  modifies "mem:[]tokenizer.Token" if tokens != nil && $r == addr(tokens);
  modifies "tokenizer.Token.*" if inList($r, tokens);
  ensures [C12] tokens != nil ==> len(*tokens) == old(cntD(f, *tokens, len(*tokens)));
  ensures [C12] tokens != nil ==> forall i {old(cntD(f, *tokens, i))} :: 0 <= i < old(len(*tokens)) && old(!dropsTok(f, (*tokens)[i]))
     ==> (*tokens)[old(cntD(f, *tokens, i))] == old((*tokens)[i]);
  after "(filter.POSFilter).Drop" tokens != nil ==> len(*tokens) <= old(len(*tokens));
  after "(filter.POSFilter).Drop" tokens != nil ==> forall k {old(cntD(f, *tokens, k))} {old(cntP(*f.stopTags, true, *tokens, k))} :: 0 <= k <= old(len(*tokens)) ==>
     cntW(*f.stopWords, true, *tokens, old(cntP(*f.stopTags, true, *tokens, k))) == old(cntD(f, *tokens, k));
}
