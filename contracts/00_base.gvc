// Packages named in contracts.
import dict "github.com/ikawaha/kagome-dict/dict"
import trie "github.com/ikawaha/kagome-dict/dict/trie"
import tok "github.com/ikawaha/kagome/v2/tokenizer"
import lattice "github.com/ikawaha/kagome/v2/tokenizer/lattice"
import mem "github.com/ikawaha/kagome/v2/tokenizer/lattice/mem"
import filter "github.com/ikawaha/kagome/v2/filter"
import ja "github.com/ikawaha/kagome/v2/filter/ja"

// ---------- library ----------

// the string made of the elements of a string list with a separator: abstract, a function of the elements
sym joinSeq(n int, sep string) string;
rec joinUpTo(s []string, n int, sep string) string =
  if n <= 0 then "" else if n == 1 then s[0] else joinUpTo(s, n-1, sep) + sep + s[n-1];
macro joined(s []string, sep) = joinUpTo(s, len(s), sep);

extern func strings.Join(elems, sep)(r) {
  pure;
  ensures r == joined(elems, sep);
}
extern func errors.New(text)(r) {
  pure;
  ensures r != nil;
}
lemma joinFrame(s []string, n int, sep string) {
  requires forall i {s[i]} {old(s[i])} :: 0 <= i < n ==> s[i] == old(s[i]);
  ensures joinUpTo(s, n, sep) == old(joinUpTo(s, n, sep));
  induction n;
  export {joinUpTo(s, n, sep), old(joinUpTo(s, n, sep))};
}
// idx(i) is always true; it marks the positions of interest in goals and triggers the facts about lists
sym idx(i int) bool;
axiom idxTrue(i int) {
  ensures idx(i);
  export {idx(i)};
  because "definition: idx is the constant true predicate";
}
