// The mathematical lattice: which nodes an input has and which path the Viterbi search picks.
// Everything here is a function of the problem x = (dictionary, user dictionary, input).
// The contracts of 41_lattice.gvc say that the code computes exactly these functions; the lemmas
// say what these functions are good for (C01-C04, C07, C16).

group V = C01, C02, C03, C04, C05, C06, C07, C16;
sym pb(d *dict.Dict, u *dict.UserDict, s string) int;
sym pd(x int) *dict.Dict;
sym pu(x int) *dict.UserDict;
sym ps(x int) string;
axiom pbProj(d *dict.Dict, u *dict.UserDict, s string) {
  ensures pd(pb(d, u, s)) == d && pu(pb(d, u, s)) == u && ps(pb(d, u, s)) == s;
  export {pb(d, u, s)};
  because "definition of the triple x and its projections";
}

// ---------- names for what the dictionaries contain ----------
sym charCat(d *dict.Dict, ch int) int;
sym invoke(d *dict.Dict, c int) bool;
sym group(d *dict.Dict, c int) bool;
sym unkId(d *dict.Dict, c int) int;
sym unkDup(d *dict.Dict, c int) int;
sym mL(d *dict.Dict, cls int, id int) int;
sym mR(d *dict.Dict, cls int, id int) int;
sym mW(d *dict.Dict, cls int, id int) int;
sym conn(d *dict.Dict, row int, col int) int;
// the entries of the system / user dictionary that are a prefix of t: how many, the i-th one's id and byte length
sym kN(d *dict.Dict, t string) int;
sym kId(d *dict.Dict, t string, i int) int;
sym kLen(d *dict.Dict, t string, i int) int;
sym uN(u *dict.UserDict, t string) int;
sym uId(u *dict.UserDict, t string, i int) int;
sym uLen(u *dict.UserDict, t string, i int) int;
// the prefix search of kagome-dict
sym pmN(x dict.IndexTable, t string) int;
sym pmId(x dict.IndexTable, t string, i int) int;
sym pmLen(x dict.IndexTable, t string, i int) int;

// the symbols name the content of d (heap)
macro named(d *dict.Dict) =
  (forall ch {charCat(d, ch)} :: charCat(d, ch) == (if ch < len(d.CharCategory) then d.CharCategory[ch] else d.CharCategory[0]))
  && (forall c {d.InvokeList[c]} {invoke(d, c)} :: 0 <= c < len(d.InvokeList) ==> (d.InvokeList[c] <==> invoke(d, c)))
  && (forall c {d.GroupList[c]} {group(d, c)} :: 0 <= c < len(d.GroupList) ==> (d.GroupList[c] <==> group(d, c)))
  && (forall c {unkId(d, c)} {unkDup(d, c)} :: unkId(d, c) == (if dom(d.UnkDict.Index, c) then d.UnkDict.Index[c] else 0) && unkDup(d, c) == (if dom(d.UnkDict.IndexDup, c) then d.UnkDict.IndexDup[c] else 0))
  && (forall i {d.Morphs[i]} {mL(d, tok.KNOWN, i)} {mR(d, tok.KNOWN, i)} {mW(d, tok.KNOWN, i)} :: 0 <= i < len(d.Morphs) ==>
        d.Morphs[i].LeftID == mL(d, tok.KNOWN, i) && d.Morphs[i].RightID == mR(d, tok.KNOWN, i) && d.Morphs[i].Weight == mW(d, tok.KNOWN, i))
  && (forall i {d.UnkDict.Morphs[i]} {mL(d, tok.UNKNOWN, i)} {mR(d, tok.UNKNOWN, i)} {mW(d, tok.UNKNOWN, i)} :: 0 <= i < len(d.UnkDict.Morphs) ==>
        d.UnkDict.Morphs[i].LeftID == mL(d, tok.UNKNOWN, i) && d.UnkDict.Morphs[i].RightID == mR(d, tok.UNKNOWN, i) && d.UnkDict.Morphs[i].Weight == mW(d, tok.UNKNOWN, i))
  && (forall r, c {conn(d, r, c)} :: conn(d, r, c) == d.Connection.Vec[d.Connection.Row*c + r])
  && (forall t string {kN(d, t)} {pmN(d.Index, t)} :: kN(d, t) == pmN(d.Index, t))
  && (forall t string, i {kId(d, t, i)} {kLen(d, t, i)} {pmId(d.Index, t, i)} {pmLen(d.Index, t, i)} :: kId(d, t, i) == pmId(d.Index, t, i) && kLen(d, t, i) == pmLen(d.Index, t, i));
macro namedUser(u *dict.UserDict) =
  u != nil ==> (forall t string {uN(u, t)} {pmN(u.Index, t)} :: uN(u, t) == pmN(u.Index, t))
  && (forall t string, i {uId(u, t, i)} {uLen(u, t, i)} {pmId(u.Index, t, i)} {pmLen(u.Index, t, i)} :: uId(u, t, i) == pmId(u.Index, t, i) && uLen(u, t, i) == pmLen(u.Index, t, i));
// the tables are as long as the ids need
macro sized(d *dict.Dict) =
  (forall t string, i {kId(d, t, i)} :: 0 <= i < kN(d, t) ==> kId(d, t, i) < len(d.Morphs))
  && (forall c {unkId(d, c)} :: 0 <= c <= 255 ==> unkId(d, c) + unkDup(d, c) < len(d.UnkDict.Morphs))
  && len(d.InvokeList) > 255 && len(d.GroupList) > 255 && len(d.CharCategory) > 0;
// what a well-formed pair of dictionaries satisfies: words are non-empty valid UTF-8, ids are not negative
rec okD(x int) bool =
  (forall t string {kN(pd(x), t)} :: 0 <= kN(pd(x), t))
  && (forall t string, i {kLen(pd(x), t, i)} {kId(pd(x), t, i)} :: 0 <= i < kN(pd(x), t) ==> 0 <= kId(pd(x), t, i) && 0 < kLen(pd(x), t, i) && kLen(pd(x), t, i) <= len(t) && isB(t, kLen(pd(x), t, i)))
  && (forall t string {uN(pu(x), t)} :: 0 <= uN(pu(x), t))
  && (forall t string, i {uLen(pu(x), t, i)} {uId(pu(x), t, i)} :: 0 <= i < uN(pu(x), t) ==> 0 <= uId(pu(x), t, i) && 0 < uLen(pu(x), t, i) && uLen(pu(x), t, i) <= len(t) && isB(t, uLen(pu(x), t, i)))
  && (forall c {unkId(pd(x), c)} {unkDup(pd(x), c)} :: 0 <= c ==> 0 <= unkId(pd(x), c) && 0 <= unkDup(pd(x), c) && unkId(pd(x), c) + unkDup(pd(x), c) <= 2147483647)
  && (forall c, i {mW(pd(x), c, i)} :: -32768 <= mW(pd(x), c, i) <= 32767)
  && (forall r, c {conn(pd(x), r, c)} :: -32768 <= conn(pd(x), r, c) <= 32767)
  && (forall ch {charCat(pd(x), ch)} :: 0 <= charCat(pd(x), ch) <= 255);

// ---------- candidate words (C04) ----------
rec rest(x int, q int) string = (ps(x))[bp(ps(x), q):len(ps(x))];
rec ccat(x int, q int) int = charCat(pd(x), runeAt(ps(x), q));
rec run(x int, c int, q int, m int) int =
  if m >= 1024 || q + m >= rc(ps(x)) || ccat(x, q+m) != c then m else run(x, c, q, m+1);
rec runLen(x int, q int) int = if group(pd(x), ccat(x, q)) then run(x, ccat(x, q), q, 1) else 1;
rec two(x int, q int) bool = runLen(x, q) > 1 && runeAt(ps(x), q + runLen(x, q) - 1) != 65533;
rec nU(x int, q int) int = if pu(x) == nil then 0 else uN(pu(x), rest(x, q));
rec nK(x int, q int) int = kN(pd(x), rest(x, q));
rec asksUnk(x int, q int) bool = nK(x, q) == 0 || invoke(pd(x), ccat(x, q));
rec nX(x int, q int) int = if !asksUnk(x, q) then 0 else if two(x, q) then 2*(unkDup(pd(x), ccat(x, q))+1) else unkDup(pd(x), ccat(x, q))+1;
rec nC(x int, q int) int = if nU(x, q) > 0 then nU(x, q) else nK(x, q) + nX(x, q);
// class, id and length in characters of the k-th candidate that starts at character q
rec cCls(x int, q int, k int) int = if nU(x, q) > 0 then tok.USER else if k < nK(x, q) then tok.KNOWN else tok.UNKNOWN;
rec cId(x int, q int, k int) int =
  if nU(x, q) > 0 then uId(pu(x), rest(x, q), k)
  else if k < nK(x, q) then kId(pd(x), rest(x, q), k)
  else unkId(pd(x), ccat(x, q)) + (if two(x, q) then (k - nK(x, q)) / 2 else k - nK(x, q));
rec cN(x int, q int, k int) int =
  if nU(x, q) > 0 then ridx(rest(x, q), uLen(pu(x), rest(x, q), k))
  else if k < nK(x, q) then ridx(rest(x, q), kLen(pd(x), rest(x, q), k))
  else if two(x, q) && (k - nK(x, q)) % 2 == 0 then runLen(x, q) - 1
  else runLen(x, q);
rec cEnd(x int, q int, k int) int = q + cN(x, q, k);

lemma runBound(x int, c int, q int, m int) [V] {
  requires 0 <= q && 1 <= m && q + m <= rc(ps(x)) && m <= 1024;
  ensures m <= run(x, c, q, m) && q + run(x, c, q, m) <= rc(ps(x)) && run(x, c, q, m) <= 1024;
  induction 1024 - m;
  export {run(x, c, q, m)};
}
lemma runSame(x int, c int, q int, m int, j int) [V] {
  requires 0 <= q && 1 <= m && q + m <= j && j < q + run(x, c, q, m);
  ensures ccat(x, j) == c;
  induction j - m;
  export {run(x, c, q, m), ccat(x, j)};
}
lemma runMaximal(x int, c int, q int, m int) [V] {
  requires 0 <= q && 1 <= m && q + m <= rc(ps(x)) && m <= 1024;
  ensures run(x, c, q, m) == 1024 || q + run(x, c, q, m) == rc(ps(x)) || ccat(x, q + run(x, c, q, m)) != c;
  induction 1024 - m;
  export {run(x, c, q, m)};
}
lemma candLen(x int, q int, k int) [V] {
  requires okD(x) && 0 <= q && q < rc(ps(x)) && 0 <= k && k < nC(x, q);
  ensures 1 <= cN(x, q, k) && q + cN(x, q, k) <= rc(ps(x)) && 0 <= cId(x, q, k);
  export {cN(x, q, k)};
}
lemma candSome(x int, q int) [V] {
  requires okD(x) && 0 <= q && q < rc(ps(x));
  ensures 1 <= nC(x, q);
  export {nC(x, q)};
}

// ---------- the order in which nodes enter the lists ----------
// how many nodes that end at character p precede the k-th candidate of character q (BOS is the only
// node that ends at 0, EOS the only one that ends at n+1)
rec cE(x int, q int, k int, p int) int =
  if k > 0 then cE(x, q, k-1, p) + (if cEnd(x, q, k-1) == p then 1 else 0)
  else if q > 0 then cE(x, q-1, nC(x, q-1), p)
  else if p == 0 || p == rc(ps(x))+1 then 1 else 0;
rec nAt(x int, p int) int = cE(x, rc(ps(x)), 0, p);
lemma cNext(x int, q int, k int, p int) [V] {
  requires 0 < k;
  ensures cE(x, q, k, p) == cE(x, q, k-1, p) + (if cEnd(x, q, k-1) == p then 1 else 0);
}
lemma cNextQ(x int, q int, p int) [V] {
  requires 0 < q;
  ensures cE(x, q, 0, p) == cE(x, q-1, nC(x, q-1), p);
}
lemma cEk(x int, q int, k int, k2 int, p int) [V] {
  requires 0 <= k <= k2;
  ensures cE(x, q, k, p) <= cE(x, q, k2, p) && cE(x, q, k2, p) <= cE(x, q, k, p) + k2 - k;
  induction k2;
  export {cE(x, q, k, p), cE(x, q, k2, p)};
}
lemma cEq(x int, q int, q2 int, p int) [V] {
  requires 0 <= q <= q2;
  ensures cE(x, q, 0, p) <= cE(x, q2, 0, p);
  use 0 < q2 && q < q2 ==> cE(x, q2-1, 0, p) <= cE(x, q2-1, nC(x, q2-1), p) || nC(x, q2-1) < 0;
  use 0 < q2 ==> cE(x, q2, 0, p) == cE(x, q2-1, nC(x, q2-1), p);
  use 0 < q2 && nC(x, q2-1) < 0 ==> cE(x, q2-1, nC(x, q2-1), p) == cE(x, q2-1, 0, p);
  induction q2;
  export {cE(x, q, 0, p), cE(x, q2, 0, p)};
}
// a candidate's place in its list
lemma cPlace(x int, q int, k int) [V] {
  requires 0 <= q && q < rc(ps(x)) && 0 <= k && k < nC(x, q);
  ensures 0 <= cE(x, q, k, cEnd(x, q, k)) && cE(x, q, k, cEnd(x, q, k)) < nAt(x, cEnd(x, q, k));
  use cE(x, q, k+1, cEnd(x, q, k)) == cE(x, q, k, cEnd(x, q, k)) + 1;
  use cE(x, q, k+1, cEnd(x, q, k)) <= cE(x, q, nC(x, q), cEnd(x, q, k));
  use cE(x, q+1, 0, cEnd(x, q, k)) == cE(x, q, nC(x, q), cEnd(x, q, k));
  use cE(x, q+1, 0, cEnd(x, q, k)) <= cE(x, rc(ps(x)), 0, cEnd(x, q, k));
  use cE(x, 0, 0, cEnd(x, q, k)) <= cE(x, q, 0, cEnd(x, q, k));
  use cE(x, q, 0, cEnd(x, q, k)) <= cE(x, q, k, cEnd(x, q, k));
  use 0 <= cE(x, 0, 0, cEnd(x, q, k));
  export {cE(x, q, k, cEnd(x, q, k))};
}
// two candidates that end at the same character have different places
lemma cPlacesDiffer(x int, q int, k int, q2 int, k2 int) [C04] {
  requires 0 <= q && q < rc(ps(x)) && 0 <= k && k < nC(x, q);
  requires 0 <= q2 && q2 < rc(ps(x)) && 0 <= k2 && k2 < nC(x, q2);
  requires q < q2 || q == q2 && k < k2;
  requires cEnd(x, q, k) == cEnd(x, q2, k2);
  ensures cE(x, q, k, cEnd(x, q, k)) < cE(x, q2, k2, cEnd(x, q2, k2));
  use cE(x, q, k+1, cEnd(x, q, k)) == cE(x, q, k, cEnd(x, q, k)) + 1;
  use q == q2 ==> cE(x, q, k+1, cEnd(x, q, k)) <= cE(x, q, k2, cEnd(x, q, k));
  use q < q2 ==> cE(x, q, k+1, cEnd(x, q, k)) <= cE(x, q, nC(x, q), cEnd(x, q, k));
  use q < q2 ==> cE(x, q+1, 0, cEnd(x, q, k)) == cE(x, q, nC(x, q), cEnd(x, q, k));
  use q < q2 ==> cE(x, q+1, 0, cEnd(x, q, k)) <= cE(x, q2, 0, cEnd(x, q, k));
  use q < q2 ==> cE(x, q2, 0, cEnd(x, q, k)) <= cE(x, q2, k2, cEnd(x, q, k));
}
// pQ, pK: which candidate is the j-th node that ends at p
sym pQ(x int, p int, j int) int;
sym pK(x int, p int, j int) int;
axiom pInv(x int, q int, k int) {
  requires 0 <= q && q < rc(ps(x)) && 0 <= k && k < nC(x, q);
  ensures pQ(x, cEnd(x, q, k), cE(x, q, k, cEnd(x, q, k))) == q && pK(x, cEnd(x, q, k), cE(x, q, k, cEnd(x, q, k))) == k;
  export {cE(x, q, k, cEnd(x, q, k))};
  because "definition of pQ and pK as the inverse of (q,k) -> (end, place), which is injective by lemma cPlacesDiffer";
}
rec isCand(x int, p int, j int) bool =
  0 <= pQ(x, p, j) && pQ(x, p, j) < rc(ps(x)) && 0 <= pK(x, p, j) && pK(x, p, j) < nC(x, pQ(x, p, j))
  && cEnd(x, pQ(x, p, j), pK(x, p, j)) == p && cE(x, pQ(x, p, j), pK(x, p, j), p) == j;
lemma surjK(x int, q int, k int, p int, j int) [V] {
  requires 0 <= q && q < rc(ps(x)) && 0 <= k && k <= nC(x, q) && cE(x, q, 0, p) <= j && j < cE(x, q, k, p);
  ensures isCand(x, p, j);
  use 0 < k && j == cE(x, q, k-1, p) ==> cEnd(x, q, k-1) == p;
  use 0 < k && j == cE(x, q, k-1, p) ==> pQ(x, cEnd(x, q, k-1), cE(x, q, k-1, cEnd(x, q, k-1))) == q && pK(x, cEnd(x, q, k-1), cE(x, q, k-1, cEnd(x, q, k-1))) == k-1;
  induction k;
  export {cE(x, q, k, p), isCand(x, p, j)};
}
lemma surjQ(x int, q int, p int, j int) [V] {
  requires 0 <= q && q <= rc(ps(x)) && cE(x, 0, 0, p) <= j && j < cE(x, q, 0, p);
  ensures isCand(x, p, j);
  use 0 < q ==> cE(x, q, 0, p) == cE(x, q-1, nC(x, q-1), p);
  use 0 < q && j >= cE(x, q-1, 0, p) ==> isCand(x, p, j);
  induction q;
  export {cE(x, q, 0, p), isCand(x, p, j)};
}
lemma atCand(x int, p int, j int) [V] {
  requires 0 < p && p <= rc(ps(x)) && 0 <= j && j < nAt(x, p);
  ensures isCand(x, p, j);
  use cE(x, 0, 0, p) == 0;
  export {pQ(x, p, j)} {pK(x, p, j)};
}

// ---------- the nodes ----------
rec nStart(x int, p int, j int) int = if p <= 0 then 0 else if p == rc(ps(x))+1 then rc(ps(x)) else pQ(x, p, j);
rec nCls(x int, p int, j int) int = if p <= 0 || p == rc(ps(x))+1 then tok.DUMMY else cCls(x, pQ(x, p, j), pK(x, p, j));
rec nId(x int, p int, j int) int = if p <= 0 || p == rc(ps(x))+1 then tok.BosEosID else cId(x, pQ(x, p, j), pK(x, p, j));
rec inDict(x int, p int, j int) bool = nCls(x, p, j) == tok.KNOWN || nCls(x, p, j) == tok.UNKNOWN;
rec nL(x int, p int, j int) int = if inDict(x, p, j) then mL(pd(x), nCls(x, p, j), nId(x, p, j)) else 0;
rec nR(x int, p int, j int) int = if inDict(x, p, j) then mR(pd(x), nCls(x, p, j), nId(x, p, j)) else 0;
rec nW(x int, p int, j int) int = if inDict(x, p, j) then mW(pd(x), nCls(x, p, j), nId(x, p, j)) else 0;
rec nSurf(x int, p int, j int) string = if p <= 0 || p == rc(ps(x))+1 then "" else (ps(x))[bp(ps(x), nStart(x, p, j)):bp(ps(x), p)];
rec nodeAt(x int, p int, j int) bool = 0 <= p && p <= rc(ps(x))+1 && 0 <= j && j < nAt(x, p);

lemma nodeRange(x int, p int, j int) [V] {
  requires okD(x) && nodeAt(x, p, j) && 0 < p;
  ensures 0 <= nStart(x, p, j) && nStart(x, p, j) < p && nStart(x, p, j) <= rc(ps(x));
  ensures p <= rc(ps(x)) ==> 0 <= nId(x, p, j);
  ensures p <= rc(ps(x)) ==> rc(nSurf(x, p, j)) == p - nStart(x, p, j);
  ensures p <= rc(ps(x)) ==> nCls(x, p, j) == tok.USER || nCls(x, p, j) == tok.KNOWN || nCls(x, p, j) == tok.UNKNOWN;
  use p <= rc(ps(x)) ==> isCand(x, p, j);
  export {nStart(x, p, j)} {nSurf(x, p, j)} {nId(x, p, j)};
}
lemma oneBosEos(x int, p int) [V] {
  requires okD(x) && (p == 0 || p == rc(ps(x))+1);
  ensures nAt(x, p) == 1;
  use cE(x, 0, 0, p) == 1;
  use cE(x, 0, 0, p) <= nAt(x, p);
  use nAt(x, p) <= 1 || isCand(x, p, 1);
  use isCand(x, p, 1) ==> 1 <= cN(x, pQ(x, p, 1), pK(x, p, 1));
  export {nAt(x, p)};
}

// ---------- costs and best predecessors (C03) ----------
sym ideo(ch int) bool;   // unicode.In(ch, unicode.Ideographic)
rec kanji(t string) bool = t != "" && forall k {runeAt(t, k)} :: 0 <= k < rc(t) ==> ideo(runeAt(t, k));
rec penalty(t string) int = if rc(t) > 2 && kanji(t) then 3000*(rc(t)-2) else if rc(t) > 7 then 1700*(rc(t)-7) else 0;
// the cost of the step from node (p, j) to node (p2, j2); pen: search and extended mode
rec step(x int, pen bool, p int, j int, p2 int, j2 int) int =
  (if nCls(x, p, j) != tok.USER && nCls(x, p2, j2) != tok.USER then conn(pd(x), nR(x, p, j), nL(x, p2, j2)) else 0)
  + nW(x, p2, j2) + (if pen then penalty(nSurf(x, p, j)) else 0);
// the first cheapest among the first t nodes that end where (p, j) starts and are reachable from BOS; -1 if there is none
rec best(x int, pen bool, p int, j int, t int) int =
  if t <= 0 then -1
  else if nStart(x, p, j) > 0 && best(x, pen, nStart(x, p, j), t-1, nAt(x, nStart(x, nStart(x, p, j), t-1))) < 0 then best(x, pen, p, j, t-1)
  else if best(x, pen, p, j, t-1) < 0
       || cst(x, pen, nStart(x, p, j), t-1) + step(x, pen, nStart(x, p, j), t-1, p, j)
          < cst(x, pen, nStart(x, p, j), best(x, pen, p, j, t-1)) + step(x, pen, nStart(x, p, j), best(x, pen, p, j, t-1), p, j)
       then t-1 else best(x, pen, p, j, t-1);
macro pre(x int, pen bool, p int, j int) = best(x, pen, p, j, nAt(x, nStart(x, p, j)));
rec cst(x int, pen bool, p int, j int) int =
  if p <= 0 || pre(x, pen, p, j) < 0 then 0
  else cst(x, pen, nStart(x, p, j), pre(x, pen, p, j)) + step(x, pen, nStart(x, p, j), pre(x, pen, p, j), p, j);
macro reach(x int, pen bool, p int, j int) = p <= 0 || pre(x, pen, p, j) >= 0;

lemma bestNext(x int, pen bool, p int, j int, t int) [V] {
  requires 0 < t;
  ensures best(x, pen, p, j, t) ==
    (if nStart(x, p, j) > 0 && pre(x, pen, nStart(x, p, j), t-1) < 0 then best(x, pen, p, j, t-1)
     else if best(x, pen, p, j, t-1) < 0
       || cst(x, pen, nStart(x, p, j), t-1) + step(x, pen, nStart(x, p, j), t-1, p, j)
          < cst(x, pen, nStart(x, p, j), best(x, pen, p, j, t-1)) + step(x, pen, nStart(x, p, j), best(x, pen, p, j, t-1), p, j)
       then t-1 else best(x, pen, p, j, t-1));
}
lemma bestNone(x int, pen bool, p int, j int, t int) [V] {
  requires t <= 0;
  ensures best(x, pen, p, j, t) == -1;
}
lemma cstBos(x int, pen bool, j int) [V] {
  ensures cst(x, pen, 0, j) == 0;
}
lemma cstNext(x int, pen bool, p int, j int) [V] {
  requires 0 < p && 0 <= pre(x, pen, p, j);
  ensures cst(x, pen, p, j) == cst(x, pen, nStart(x, p, j), pre(x, pen, p, j)) + step(x, pen, nStart(x, p, j), pre(x, pen, p, j), p, j);
}
lemma bestRange(x int, pen bool, p int, j int, t int) [V] {
  ensures -1 <= best(x, pen, p, j, t) && (0 <= t ==> best(x, pen, p, j, t) < t);
  induction t;
  export {best(x, pen, p, j, t)};
}
lemma bestReach(x int, pen bool, p int, j int, t int) [V] {
  requires 0 <= best(x, pen, p, j, t);
  ensures reach(x, pen, nStart(x, p, j), best(x, pen, p, j, t));
  induction t;
  export {best(x, pen, p, j, t)};
}
lemma bestOpt(x int, pen bool, p int, j int, t int, i int) [V] {
  requires 0 <= i && i < t && reach(x, pen, nStart(x, p, j), i);
  ensures 0 <= best(x, pen, p, j, t);
  ensures cst(x, pen, nStart(x, p, j), best(x, pen, p, j, t)) + step(x, pen, nStart(x, p, j), best(x, pen, p, j, t), p, j)
       <= cst(x, pen, nStart(x, p, j), i) + step(x, pen, nStart(x, p, j), i, p, j);
  induction t;
  export {best(x, pen, p, j, t), cst(x, pen, nStart(x, p, j), i)};
}

lemma penaltyBound(t string) [V] {
  ensures 0 <= penalty(t) && penalty(t) <= 3000*rc(t);
  export {penalty(t)};
}
// costs fit: the code's 64-bit sums never wrap (inputs are shorter than 2^40 bytes)
lemma cstBound(x int, pen bool, p int, j int) [V] {
  requires okD(x) && nodeAt(x, p, j);
  ensures -65536*p <= cst(x, pen, p, j) && cst(x, pen, p, j) <= 65536*p + 3000*nStart(x, p, j);
  use 0 < p ==> nStart(x, p, j) < p && 0 <= nStart(x, p, j);
  use 0 < p && 0 <= pre(x, pen, p, j) ==> nodeAt(x, nStart(x, p, j), pre(x, pen, p, j));
  use 0 < p && 0 <= pre(x, pen, p, j) ==> -65536*nStart(x, p, j) <= cst(x, pen, nStart(x, p, j), pre(x, pen, p, j))
       && cst(x, pen, nStart(x, p, j), pre(x, pen, p, j)) <= 65536*nStart(x, p, j) + 3000*nStart(x, nStart(x, p, j), pre(x, pen, p, j));
  use 0 < p && 0 <= pre(x, pen, p, j) ==> 0 <= penalty(nSurf(x, nStart(x, p, j), pre(x, pen, p, j)))
      && penalty(nSurf(x, nStart(x, p, j), pre(x, pen, p, j))) <= 3000*(nStart(x, p, j) - nStart(x, nStart(x, p, j), pre(x, pen, p, j)));
  use 0 < p && 0 <= pre(x, pen, p, j) ==> -65536 <= step(x, pen, nStart(x, p, j), pre(x, pen, p, j), p, j);
  induction p;
  export {cst(x, pen, p, j)};
}
// every node that can be reached from BOS has a continuation that reaches EOS
lemma eosReached(x int, pen bool, p int, j int) [V] {
  requires okD(x) && nodeAt(x, p, j) && p <= rc(ps(x)) && reach(x, pen, p, j);
  ensures 0 <= pre(x, pen, rc(ps(x))+1, 0);
  use p == rc(ps(x)) ==> nStart(x, rc(ps(x))+1, 0) == p;
  use p < rc(ps(x)) ==> 1 <= nC(x, p);
  use p < rc(ps(x)) ==> nodeAt(x, cEnd(x, p, 0), cE(x, p, 0, cEnd(x, p, 0))) && p < cEnd(x, p, 0) && cEnd(x, p, 0) <= rc(ps(x));
  use p < rc(ps(x)) ==> nStart(x, cEnd(x, p, 0), cE(x, p, 0, cEnd(x, p, 0))) == p;
  use p == rc(ps(x)) ==> bestOpt(x, pen, rc(ps(x))+1, 0, nAt(x, p), j);
  use p < rc(ps(x)) ==> bestOpt(x, pen, cEnd(x, p, 0), cE(x, p, 0, cEnd(x, p, 0)), nAt(x, p), j);
  use p < rc(ps(x)) ==> 0 <= pre(x, pen, cEnd(x, p, 0), cE(x, p, 0, cEnd(x, p, 0)));
  use p < rc(ps(x)) ==> eosReached(x, pen, cEnd(x, p, 0), cE(x, p, 0, cEnd(x, p, 0)));
  induction rc(ps(x)) - p;
}
lemma eosReachable(x int, pen bool) [V] {
  requires okD(x);
  ensures 0 <= pre(x, pen, rc(ps(x))+1, 0);
  use nodeAt(x, 0, 0);
  use eosReached(x, pen, 0, 0);
  export {best(x, pen, rc(ps(x))+1, 0, nAt(x, nStart(x, rc(ps(x))+1, 0)))};
}
// C03: no segmentation is cheaper. A segmentation is a list of nodes (P[i], J[i]) from BOS on, each
// starting where the one before ends; pathCost is the sum of its steps.
rec pathCost(x int, pen bool, P []int, J []int, n int) int =
  if n <= 0 then 0 else pathCost(x, pen, P, J, n-1) + step(x, pen, P[n-1], J[n-1], P[n], J[n]);
lemma optimal(x int, pen bool, P []int, J []int, n int) [C03] {
  requires okD(x) && 0 < n && n < len(P) && len(P) == len(J) && P[0] == 0 && J[0] == 0;
  requires forall i {P[i]} {J[i]} :: 0 < i && i <= n ==> nodeAt(x, P[i], J[i]) && 0 < P[i] && nStart(x, P[i], J[i]) == P[i-1];
  ensures 0 <= pre(x, pen, P[n], J[n]);
  ensures cst(x, pen, P[n], J[n]) <= pathCost(x, pen, P, J, n);
  use 1 < n ==> optimal(x, pen, P, J, n-1);
  use reach(x, pen, P[n-1], J[n-1]);
  use nodeAt(x, P[n-1], J[n-1]);
  use bestOpt(x, pen, P[n], J[n], nAt(x, P[n-1]), J[n-1]);
  induction n;
  export {pathCost(x, pen, P, J, n)};
}
