// The Viterbi search of tokenizer/lattice computes the best predecessors of 40_viterbi.gvc.
extern func unicode.In(r, ranges)(b) {
  pure;
  ensures len(ranges) == 1 && ranges[0] == unicode.Ideographic ==> (b <==> ideo(r));
}
func lattice.kanjiOnly(s)(r) {
  props V;
  labels V;
  pure;
  ensures r <==> kanji(s);
  loop 0 {
    invariant forall k {runeAt(s, k)} :: 0 <= k < $k ==> ideo(runeAt(s, k));
  }
}
func lattice.additionalCost(n)(r) {
  props V;
  labels V;
  pure;
  requires n != nil;
  ensures r == penalty(n.Surface);
}

// the search has settled node (p, j)
macro settled(la *lattice.Lattice, x, pen, p, j) =
  (pre(x, pen, p, j) < 0 ==> la.list[p][j].prev == nil)
  && (pre(x, pen, p, j) >= 0 ==> la.list[p][j].prev == la.list[nStart(x, p, j)][pre(x, pen, p, j)] && la.list[p][j].Cost == cst(x, pen, p, j));
macro allSettled(la *lattice.Lattice, x, pen, q, k) =
  forall p, j {la.list[p][j].prev} {la.list[p][j].Cost} :: 0 < p <= rc(ps(x))+1 && 0 <= j < nAt(x, p) && (p < q || p == q && j < k) ==> settled(la, x, pen, p, j);
macro untouched(la *lattice.Lattice, x, q, k) =
  forall p, j {la.list[p][j].prev} :: 0 < p <= rc(ps(x))+1 && 0 <= j < nAt(x, p) && (q < p || p == q && k <= j) ==> la.list[p][j].prev == nil;
macro bosOK(la *lattice.Lattice) = la.list[0][0].prev == nil && la.list[0][0].Cost == 0;

func (*lattice.Lattice).Forward(la, m)() {
  props V;
  labels V;
  let x = pb(la.dic, la.udic, la.Input);
  opaque nStart, nCls, nId, inDict, nL, nR, nW, nSurf, cE, cEnd, cN, best, cst, penalty, kanji, atCand, surjQ, surjK, bestOpt, bestReach;
  let pen = m != lattice.Normal;
  requires la != nil && la.dic != nil && named(la.dic) && sized(la.dic) && okD(x);
  requires [C06] connTable(la.dic) && tables(la.dic, la.udic);
  requires lens(la, x, rc(la.Input), 0) && nodes(la, x) && unset(la, x);
  requires exist(la) && noDup(la);
  modifies [C01, C02, C03, C04, C06, C07, C09, C16] "lattice.Node.prev", "lattice.Node.Cost";
  modifies [C05] "lattice.Node.prev", "lattice.Node.Cost" if exists p, j {la.list[p][j]} :: 0 < p < len(la.list) && 0 <= j < len(la.list[p]) && $r == la.list[p][j];
  ensures allSettled(la, x, pen, rc(ps(x))+2, 0) && bosOK(la);
  loop 0 {
    decreases size - i;
    invariant size == len(la.list) && i <= size;
    invariant i == $k + 1 && nAt(x, 0) == 1 && len(la.list[0]) == 1 && bosOK(la) && allSettled(la, x, pen, i, 0) && untouched(la, x, i, 0);
  }
  loop 1 {
    invariant bosOK(la) && allSettled(la, x, pen, i, $k) && untouched(la, x, i, $k);
    hint nodeRange(x, i, $k-1);
    hint cstNext(x, pen, i, $k-1);
    hint bestNone(x, pen, i, $k-1, nAt(x, nStart(x, i, $k-1)));
  }
  loop 2 {
    head [C06] nodeConn(x, la.dic, la.udic, i, $k1);
    head [C06] nodeConn(x, la.dic, la.udic, nStart(x, i, $k1), $k);
    head [C06] connIndex(la.dic, nR(x, nStart(x, i, $k1), $k), nL(x, i, $k1));
    head [C06] cstBound(x, pen, nStart(x, i, $k1), $k);
    head [C06] penaltyBound(nSurf(x, nStart(x, i, $k1), $k));
    invariant bosOK(la) && allSettled(la, x, pen, i, $k1) && untouched(la, x, i, $k1 + 1);
    invariant best(x, pen, i, $k1, $k) < 0 ==> la.list[i][$k1].prev == nil;
    invariant best(x, pen, i, $k1, $k) >= 0 ==> la.list[i][$k1].prev == la.list[nStart(x, i, $k1)][best(x, pen, i, $k1, $k)]
      && la.list[i][$k1].Cost == cst(x, pen, nStart(x, i, $k1), best(x, pen, i, $k1, $k)) + step(x, pen, nStart(x, i, $k1), best(x, pen, i, $k1, $k), i, $k1);
    hint bestNext(x, pen, i, $k1, $k);
    hint nodeRange(x, i, $k1);
    hint cstBos(x, pen, $k-1);
  }
}
