// What the list of words means for the user: C01, C02, C03, C07.

// ---------- C01 ----------
rec catSurf(r []tok.Token, n int) string = if n <= 0 then "" else catSurf(r, n-1) + (if r[n-1].ID == tok.BosEosID then "" else r[n-1].Surface);
// output entry of token i; om: 1 if BOS/EOS are left out
macro entryOf(x, m, om, i) = vN(x, m) - 1 - i - om;
// where the first n tokens end
macro endOf(x, m, om, n) = if n <= 0 then 0 else bp(ps(x), vE(x, m, entryOf(x, m, om, n-1)));
macro words(r []tok.Token, x, m, om) =
  len(r) == vN(x, m) - 2*om
  && forall i {r[i]} :: 0 <= i < len(r) ==> r[i].ID == vId(x, m, entryOf(x, m, om, i)) && r[i].Position == bp(ps(x), vS(x, m, entryOf(x, m, om, i)))
       && (r[i].ID != tok.BosEosID ==> r[i].Surface == vSurf(x, m, entryOf(x, m, om, i)));
lemma wordStart(x int, m int, om int, n int) [V] {
  requires okD(x) && 0 <= om && om <= 1 && 0 <= n && n < vN(x, m) - 2*om;
  ensures bp(ps(x), vS(x, m, entryOf(x, m, om, n))) == endOf(x, m, om, n);
  use vEnds(x, m);
  use 0 < n ==> vNext(x, m, entryOf(x, m, om, n));
  use n == 0 && om == 1 ==> vNext(x, m, vN(x, m)-2);
}
lemma catIs(r []tok.Token, x int, m int, om int, n int) [C01] {
  requires okD(x) && 0 <= om && om <= 1 && words(r, x, m, om) && 0 <= n && n <= len(r);
  ensures catSurf(r, n) == (ps(x))[0:endOf(x, m, om, n)];
  use n > 0 ==> catIs(r, x, m, om, n-1);
  use n > 0 ==> wordStart(x, m, om, n-1);
  use n > 0 ==> vSpan(x, m, entryOf(x, m, om, n-1));
  induction n;
}
lemma catAll(r []tok.Token, x int, m int, om int) [C01] {
  requires okD(x) && 0 <= om && om <= 1 && words(r, x, m, om);
  ensures catSurf(r, len(r)) == ps(x);
  use vEnds(x, m);
  use catIs(r, x, m, om, len(r));
  use vNext(x, m, 0);
  use endOf(x, m, om, len(r)) == len(ps(x));
}
lemma catAt(r []tok.Token, x int, m int, om int, n int) [C01] {
  requires okD(x) && 0 <= om && om <= 1 && words(r, x, m, om) && 0 <= n && n < len(r);
  ensures r[n].Position == len(catSurf(r, n));
  use vEnds(x, m);
  use catIs(r, x, m, om, n);
  use wordStart(x, m, om, n);
  use vSpan(x, m, entryOf(x, m, om, n));
  use n > 0 ==> vSpan(x, m, entryOf(x, m, om, n-1));
}

// ---------- C02 ----------
lemma entryOffsets(x int, m int, o int) [V] {
  requires okD(x) && 0 <= o && o < vN(x, m);
  ensures vS(x, m, o) == rc((ps(x))[0:bp(ps(x), vS(x, m, o))]) && vE(x, m, o) == vS(x, m, o) + rc(vSurf(x, m, o));
  use vSpan(x, m, o);
}

// ---------- C03 ----------
// the steps of the path that was chosen, from EOS back to its i-th node
rec steps(x int, m int, i int) int =
  if i <= 0 then 0 else steps(x, m, i-1) + step(x, m != lattice.Normal, chP(x, m, i), chJ(x, m, i), chP(x, m, i-1), chJ(x, m, i-1));
lemma stepsCost(x int, m int, i int) [C03] {
  requires okD(x) && 0 <= i && i < chN(x, m);
  ensures steps(x, m, i) + cst(x, m != lattice.Normal, chP(x, m, i), chJ(x, m, i)) == cst(x, m != lattice.Normal, rc(ps(x))+1, 0);
  use i == 0 ==> chainStart(x, m);
  use i > 0 ==> stepsCost(x, m, i-1);
  use i > 0 ==> chain(x, m, i-1);
  use i > 0 ==> chainNext(x, m, i-1);
  use i > 0 ==> cstNext(x, m != lattice.Normal, chP(x, m, i-1), chJ(x, m, i-1));
  induction i;
}
// the chosen path costs no more than any other path from BOS to EOS
lemma chosenIsCheapest(x int, m int, P []int, J []int, n int) [C03] {
  requires okD(x) && 0 < n && n < len(P) && len(P) == len(J) && P[0] == 0 && J[0] == 0;
  requires forall i {P[i]} {J[i]} :: 0 < i && i <= n ==> nodeAt(x, P[i], J[i]) && 0 < P[i] && nStart(x, P[i], J[i]) == P[i-1];
  requires P[n] == rc(ps(x))+1 && J[n] == 0;
  ensures chP(x, m, chN(x, m)-1) == 0 && chP(x, m, 0) == rc(ps(x))+1;
  ensures steps(x, m, chN(x, m)-1) <= pathCost(x, m != lattice.Normal, P, J, n);
  use chainStart(x, m);
  use chainBos(x, m);
  use stepsCost(x, m, chN(x, m)-1);
  use cstBos(x, m != lattice.Normal, 0);
  use optimal(x, m != lattice.Normal, P, J, n);
}
// without splitting, entry i of the output is node i of the path
lemma plainCount(x int, m int, i int) [V] {
  requires 0 <= i && m != lattice.Extended;
  ensures oC(x, m, i) == i;
  use i == 0 ==> oZero(x, m);
  use i > 0 ==> plainCount(x, m, i-1);
  use i > 0 ==> oNext(x, m, i-1);
  induction i;
}
lemma plain(x int, m int, i int) [V] {
  requires okD(x) && m != lattice.Extended && 0 <= i && i < chN(x, m);
  ensures vN(x, m) == chN(x, m) && vI(x, m, i) == i;
  ensures vId(x, m, i) == nId(x, chP(x, m, i), chJ(x, m, i)) && vCls(x, m, i) == nCls(x, chP(x, m, i), chJ(x, m, i));
  ensures vS(x, m, i) == nStart(x, chP(x, m, i), chJ(x, m, i)) && vE(x, m, i) == (if chP(x, m, i) == rc(ps(x))+1 then rc(ps(x)) else chP(x, m, i));
  ensures vSurf(x, m, i) == nSurf(x, chP(x, m, i), chJ(x, m, i));
  use plainCount(x, m, i);
  use plainCount(x, m, chN(x, m));
  use vWhole(x, m, i);
}

// ---------- C07 ----------
lemma sameChain(x int, i int) [C07] {
  requires 0 <= i;
  ensures chP(x, lattice.Extended, i) == chP(x, lattice.Search, i) && chJ(x, lattice.Extended, i) == chJ(x, lattice.Search, i);
  use i == 0 ==> chainStart(x, lattice.Extended) && chainStart(x, lattice.Search);
  use i > 0 ==> sameChain(x, i-1) && chainNext(x, lattice.Extended, i-1) && chainNext(x, lattice.Search, i-1);
  induction i;
}
// entry i of search mode: in extended mode it is the entries from oC(x, Extended, i) on; one, or one per character if it is an unknown word
lemma extended(x int, i int, t int, e int) [C07] {
  requires okD(x) && 0 <= i && i < vN(x, lattice.Search) && 0 <= t && t < oW(x, lattice.Extended, i);
  requires e == oC(x, lattice.Extended, i) + t;
  ensures chN(x, lattice.Extended) == vN(x, lattice.Search) && 0 <= e && e < vN(x, lattice.Extended);
  ensures vId(x, lattice.Extended, e) == vId(x, lattice.Search, i);
  ensures vCls(x, lattice.Search, i) != tok.UNKNOWN ==>
    t == 0 && vCls(x, lattice.Extended, e) == vCls(x, lattice.Search, i)
    && vS(x, lattice.Extended, e) == vS(x, lattice.Search, i) && vE(x, lattice.Extended, e) == vE(x, lattice.Search, i);
  ensures vCls(x, lattice.Search, i) == tok.UNKNOWN ==>
    vCls(x, lattice.Extended, e) == tok.DUMMY
    && vS(x, lattice.Extended, e) == vE(x, lattice.Search, i) - 1 - t && vE(x, lattice.Extended, e) == vS(x, lattice.Extended, e) + 1;
  ensures oW(x, lattice.Extended, i) == (if vCls(x, lattice.Search, i) == tok.UNKNOWN then vE(x, lattice.Search, i) - vS(x, lattice.Search, i) else 1);
  use chainBos(x, lattice.Search);
  use plain(x, lattice.Search, 0);
  use plain(x, lattice.Search, i);
  use sameChain(x, i);
  use chainStart(x, lattice.Search);
  use chain(x, lattice.Search, i);
  use chN(x, lattice.Extended) == chN(x, lattice.Search);
  use vOf(x, lattice.Extended, i, t);
  use oWpos(x, lattice.Extended, i);
}
// and there are no other entries
lemma extendedAll(x int, e int) [C07] {
  requires okD(x) && 0 <= e && e < vN(x, lattice.Extended);
  ensures 0 <= vI(x, lattice.Extended, e) && vI(x, lattice.Extended, e) < vN(x, lattice.Search);
  ensures oC(x, lattice.Extended, vI(x, lattice.Extended, e)) <= e && e < oC(x, lattice.Extended, vI(x, lattice.Extended, e)) + oW(x, lattice.Extended, vI(x, lattice.Extended, e));
  use vWhere(x, lattice.Extended, e);
  use chN(x, lattice.Extended) == chN(x, lattice.Search);
  use chainBos(x, lattice.Search);
  use plain(x, lattice.Search, 0);
}
