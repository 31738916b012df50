// The code of tokenizer/lattice computes the mathematical lattice of 40_viterbi.gvc.
import utf8 "unicode/utf8"
import unicode "unicode"

extern func utf8.RuneCountInString(s)(n) {
  pure;
  ensures n == rc(s);
}
extern func utf8.DecodeRuneInString(s)(r, w) {
  pure;
  ensures len(s) == 0 ==> r == 65533 && w == 0;
  ensures len(s) > 0 ==> r == runeAt(s, 0) && w == bp(s, 1) && 1 <= w && w <= 4 && w <= len(s);
}
extern func utf8.DecodeLastRuneInString(s)(r, w) {
  pure;
  ensures len(s) == 0 ==> r == 65533 && w == 0;
  ensures len(s) > 0 ==> r == runeAt(s, rc(s)-1) && w == len(s) - bp(s, rc(s)-1) && 1 <= w && w <= 4 && w <= len(s);
}
extern func (dict.IndexTable).CommonPrefixSearchCallback(idx, input, callback)() {
  iter callback count pmN(idx, input) args pmId(idx, input, $k), pmLen(idx, input, $k);
}

// what a lattice in the pool looks like: empty, and its slices do not overlap
macro poolInv(la *lattice.Lattice) =
  la != nil && len(la.Output) == 0 && len(la.list) == 0
  && (forall i {la.list[i]} :: 0 <= i < cap(la.list) ==> len(la.list[i]) == 0);
macro apart(la *lattice.Lattice) =
  (forall i, j {la.list[i], la.list[j]} :: 0 <= i < cap(la.list) && 0 <= j < cap(la.list) && i != j && cap(la.list[i]) > 0 ==> base(la.list[i]) != base(la.list[j]))
  && (forall i {la.list[i]} :: 0 <= i < cap(la.list) && cap(la.list[i]) > 0 && cap(la.Output) > 0 ==> base(la.list[i]) != base(la.Output));
// every slice of the lattice exists
macro exist(la *lattice.Lattice) = forall i {la.list[i]} :: 0 <= i < cap(la.list) ==> base(la.list[i]) < next();
// every slice that can be written in place is one the lattice owned before or a new one
macro owned(la *lattice.Lattice) = forall i {la.list[i]} :: 0 <= i < cap(la.list) && cap(la.list[i]) > 0 ==> base(la.list[i]) >= old(next()) || i < old(cap(la.list)) && base(la.list[i]) == old(base(la.list[i])) && cap(la.list[i]) == old(cap(la.list[i]));
// the nodes in the lists exist and no node is listed twice
macro noDup(la *lattice.Lattice) =
  (forall p, j {la.list[p][j]} :: 0 <= p < len(la.list) && 0 <= j < len(la.list[p]) ==> la.list[p][j] != nil && allocated(la.list[p][j]))
  && (forall p, j, p2, j2 {la.list[p][j], la.list[p2][j2]} :: 0 <= p < len(la.list) && 0 <= j < len(la.list[p]) && 0 <= p2 < len(la.list) && 0 <= j2 < len(la.list[p2])
       && la.list[p][j] == la.list[p2][j2] ==> p == p2 && j == j2);

// the nodes in the lists were taken from the pool
macro held(la *lattice.Lattice) = forall p, j {la.list[p][j]} :: 0 <= p < len(la.list) && 0 <= j < len(la.list[p]) ==> mine(la.list[p][j]);
// the part of the list that is not in use
macro tailEmpty(la *lattice.Lattice) = forall i {la.list[i]} :: len(la.list) <= i < cap(la.list) ==> len(la.list[i]) == 0;

extern func (mem.Pool[lattice.Node]).Get(p)(r) {
  modifies "lattice.Node.*", "pool:lattice.Node" fresh;
  ensures r != nil && fresh(r);
  ensures [C05] mine(r);
}

// the nodes are new, and so is the list itself unless it is the one there was
macro newNodes(la *lattice.Lattice) = forall p, j {la.list[p][j]} :: 0 <= p < len(la.list) && 0 <= j < len(la.list[p]) ==> fresh(la.list[p][j]);
macro ownBase(la *lattice.Lattice) = base(la.list) >= old(next()) || base(la.list) == old(base(la.list)) && cap(la.list) == old(cap(la.list));

macro nodeIs(n *lattice.Node, id, position, start, class, surface) =
  n.ID == id && n.Position == position && n.Start == start && n.Class == class && n.Surface == surface;

func (*lattice.Lattice).addNode(la, pos, id, position, start, class, surface)() {
  props V;
  labels V;
  let p = pos + rc(surface);
  let n = len(la.list[pos + rc(surface)]);
  requires la != nil && 0 <= pos && p < len(la.list) && 0 <= pos + rc(surface);
  requires apart(la) && exist(la) && noDup(la);
  requires [C05] held(la);
  requires class == tok.KNOWN ==> 0 <= id && id < len(la.dic.Morphs);
  requires class == tok.UNKNOWN ==> 0 <= id && id < len(la.dic.UnkDict.Morphs);
  requires (class == tok.KNOWN || class == tok.UNKNOWN) ==> la.dic != nil;
  modifies [C09] "lattice.*", "pool:*", "mem:[]*lattice.Node", "mem:*lattice.Node";
  modifies "mem:[]*lattice.Node" if $r == ref(la.list, p);
  modifies "mem:*lattice.Node" if aid($r) == base(la.list[p]) && rix($r) == off(la.list[p]) + len(la.list[p]) && len(la.list[p]) < cap(la.list[p]);
  ensures len(la.list[p]) == n + 1;
  ensures forall i {la.list[p][i]} :: 0 <= i < n ==> la.list[p][i] == old(la.list[p][i]);
  ensures fresh(la.list[p][n]) && la.list[p][n] != nil && allocated(la.list[p][n]);
  ensures nodeIs(la.list[p][n], id, position, start, class, surface) && la.list[p][n].prev == nil && la.list[p][n].Cost == 0;
  ensures class == tok.KNOWN ==> la.list[p][n].Left == la.dic.Morphs[id].LeftID && la.list[p][n].Right == la.dic.Morphs[id].RightID && la.list[p][n].Weight == la.dic.Morphs[id].Weight;
  ensures class == tok.UNKNOWN ==> la.list[p][n].Left == la.dic.UnkDict.Morphs[id].LeftID && la.list[p][n].Right == la.dic.UnkDict.Morphs[id].RightID && la.list[p][n].Weight == la.dic.UnkDict.Morphs[id].Weight;
  ensures (class != tok.KNOWN && class != tok.UNKNOWN) ==> la.list[p][n].Left == 0 && la.list[p][n].Right == 0 && la.list[p][n].Weight == 0;
  ensures base(la.list[p]) == old(base(la.list[p])) && cap(la.list[p]) == old(cap(la.list[p])) || old(next()) <= base(la.list[p]);
  ensures apart(la);
  ensures exist(la);
  ensures forall p2 {la.list[p2]} :: 0 <= p2 < cap(la.list) && p2 != p ==> la.list[p2] == old(la.list[p2]);
  ensures forall p2, j {la.list[p2][j]} :: 0 <= p2 < len(la.list) && p2 != p && 0 <= j < len(la.list[p2]) ==> la.list[p2][j] == old(la.list[p2][j]);
  ensures noDup(la);
  ensures [C05] held(la);
}

// node number j of list p is the one of the mathematical lattice
macro nodeOK(n *lattice.Node, x, p, j) =
  nodeIs(n, nId(x, p, j), bp(ps(x), nStart(x, p, j)), nStart(x, p, j), nCls(x, p, j), nSurf(x, p, j))
  && n.Left == nL(x, p, j) && n.Right == nR(x, p, j) && n.Weight == nW(x, p, j);
// the lists hold the candidates of the characters before q and the first k of character q
macro lens(la *lattice.Lattice, x, q, k) =
  len(la.list) == rc(ps(x)) + 2
  && (forall p {la.list[p]} {cE(x, q, k, p)} :: 0 <= p <= rc(ps(x))+1 ==> len(la.list[p]) == cE(x, q, k, p));
macro unset(la *lattice.Lattice, x) =
  forall p, j {la.list[p][j]} :: 0 <= p <= rc(ps(x))+1 && 0 <= j < len(la.list[p]) ==> la.list[p][j].prev == nil && la.list[p][j].Cost == 0;
macro nodes(la *lattice.Lattice, x) =
  forall p, j {la.list[p][j]} :: 0 <= p <= rc(ps(x))+1 && 0 <= j < len(la.list[p]) ==> nodeOK(la.list[p][j], x, p, j);

// where a candidate of the user / system dictionary ends
lemma endUser(x int, q int, k int) [V] {
  requires okD(x) && 0 <= q && q < rc(ps(x)) && 0 <= k && k < nU(x, q);
  ensures cEnd(x, q, k) == q + rc((ps(x))[bp(ps(x), q):bp(ps(x), q) + uLen(pu(x), (ps(x))[bp(ps(x), q):len(ps(x))], k)]);
  ensures bp(ps(x), cEnd(x, q, k)) == bp(ps(x), q) + uLen(pu(x), (ps(x))[bp(ps(x), q):len(ps(x))], k) && k < nC(x, q);
  ensures cId(x, q, k) == uId(pu(x), (ps(x))[bp(ps(x), q):len(ps(x))], k) && cCls(x, q, k) == tok.USER;
}
lemma endKnown(x int, q int, k int) [V] {
  requires okD(x) && 0 <= q && q < rc(ps(x)) && nU(x, q) <= 0 && 0 <= k && k < nK(x, q);
  ensures cEnd(x, q, k) == q + rc((ps(x))[bp(ps(x), q):bp(ps(x), q) + kLen(pd(x), (ps(x))[bp(ps(x), q):len(ps(x))], k)]);
  ensures bp(ps(x), cEnd(x, q, k)) == bp(ps(x), q) + kLen(pd(x), (ps(x))[bp(ps(x), q):len(ps(x))], k) && k < nC(x, q);
  ensures cId(x, q, k) == kId(pd(x), (ps(x))[bp(ps(x), q):len(ps(x))], k) && cCls(x, q, k) == tok.KNOWN;
}
// the node of a candidate
lemma nodeOfCand(x int, q int, k int) [V] {
  requires okD(x) && 0 <= q && q < rc(ps(x)) && 0 <= k && k < nC(x, q);
  ensures 0 < cEnd(x, q, k) && cEnd(x, q, k) <= rc(ps(x));
  ensures nStart(x, cEnd(x, q, k), cE(x, q, k, cEnd(x, q, k))) == q;
  ensures nId(x, cEnd(x, q, k), cE(x, q, k, cEnd(x, q, k))) == cId(x, q, k);
  ensures nCls(x, cEnd(x, q, k), cE(x, q, k, cEnd(x, q, k))) == cCls(x, q, k);
  ensures nSurf(x, cEnd(x, q, k), cE(x, q, k, cEnd(x, q, k))) == (ps(x))[bp(ps(x), q):bp(ps(x), cEnd(x, q, k))];
  ensures nL(x, cEnd(x, q, k), cE(x, q, k, cEnd(x, q, k))) == (if cCls(x, q, k) == tok.USER then 0 else mL(pd(x), cCls(x, q, k), cId(x, q, k)));
  ensures nR(x, cEnd(x, q, k), cE(x, q, k, cEnd(x, q, k))) == (if cCls(x, q, k) == tok.USER then 0 else mR(pd(x), cCls(x, q, k), cId(x, q, k)));
  ensures nW(x, cEnd(x, q, k), cE(x, q, k, cEnd(x, q, k))) == (if cCls(x, q, k) == tok.USER then 0 else mW(pd(x), cCls(x, q, k), cId(x, q, k)));
}
macro dummyNode(x, p, s) = nStart(x, p, 0) == s && nId(x, p, 0) == tok.BosEosID && nCls(x, p, 0) == tok.DUMMY && nSurf(x, p, 0) == "" && nL(x, p, 0) == 0 && nR(x, p, 0) == 0 && nW(x, p, 0) == 0;
lemma nodeBosEos(x int) [V] {
  ensures dummyNode(x, 0, 0) && dummyNode(x, rc(ps(x))+1, rc(ps(x)));
}
lemma cZero(x int, p int) [V] {
  ensures cE(x, 0, 0, p) == (if p == 0 || p == rc(ps(x))+1 then 1 else 0);
}
// number of candidates of character q before the k-th unknown-word entry
rec unkAt(x int, q int, k int) int = nK(x, q) + (if two(x, q) then 2*k else k);

lemma unkCand(x int, q int, k int) [V] {
  requires okD(x) && 0 <= q && q < rc(ps(x)) && nU(x, q) <= 0 && asksUnk(x, q) && 0 <= k && k <= unkDup(pd(x), ccat(x, q));
  ensures 0 <= unkAt(x, q, k) && unkAt(x, q, k) < nC(x, q);
  ensures cCls(x, q, unkAt(x, q, k)) == tok.UNKNOWN && cId(x, q, unkAt(x, q, k)) == unkId(pd(x), ccat(x, q)) + k;
  ensures cEnd(x, q, unkAt(x, q, k)) == (if two(x, q) then q + runLen(x, q) - 1 else q + runLen(x, q));
  ensures unkAt(x, q, k+1) == (if two(x, q) then unkAt(x, q, k) + 2 else unkAt(x, q, k) + 1);
  ensures two(x, q) ==> unkAt(x, q, k) + 1 < nC(x, q) && cCls(x, q, unkAt(x, q, k)+1) == tok.UNKNOWN && cId(x, q, unkAt(x, q, k)+1) == unkId(pd(x), ccat(x, q)) + k
    && cEnd(x, q, unkAt(x, q, k)+1) == q + runLen(x, q);
}
// the last candidate
lemma unkLast(x int, q int) [V] {
  requires okD(x) && 0 <= q && q < rc(ps(x)) && nU(x, q) <= 0;
  ensures asksUnk(x, q) ==> nC(x, q) == unkAt(x, q, unkDup(pd(x), ccat(x, q)) + 1);
  ensures !asksUnk(x, q) ==> nC(x, q) == nK(x, q);
}

// ---------- C06: what the tables of well-formed dictionaries have room for ----------
macro connTable(d *dict.Dict) =
  0 < d.Connection.Row && 0 < d.Connection.Col
  && (forall r, c {conn(d, r, c)} :: conn(d, r, c) <= 32767 && 0 <= r < d.Connection.Row && 0 <= c < d.Connection.Col ==> 0 <= d.Connection.Row*c && d.Connection.Row*c + r < len(d.Connection.Vec))
  && (forall i {mR(d, tok.KNOWN, i)} :: 0 <= i < len(d.Morphs) ==> 0 <= mR(d, tok.KNOWN, i) < d.Connection.Row)
  && (forall i {mL(d, tok.KNOWN, i)} :: 0 <= i < len(d.Morphs) ==> 0 <= mL(d, tok.KNOWN, i) < d.Connection.Col)
  && (forall i {mR(d, tok.UNKNOWN, i)} :: 0 <= i < len(d.UnkDict.Morphs) ==> 0 <= mR(d, tok.UNKNOWN, i) < d.Connection.Row)
  && (forall i {mL(d, tok.UNKNOWN, i)} :: 0 <= i < len(d.UnkDict.Morphs) ==> 0 <= mL(d, tok.UNKNOWN, i) < d.Connection.Col);
macro tables(d *dict.Dict, u *dict.UserDict) =
  (forall t string, i {kId(d, t, i)} :: 0 <= i < kN(d, t) ==> kId(d, t, i) < len(d.POSTable.POSs) && (d.Contents != nil ==> kId(d, t, i) < len(d.Contents)))
  && dictWF(d)
  && (forall c {unkId(d, c)} :: 0 <= c <= 255 ==> unkId(d, c) + unkDup(d, c) < len(d.UnkDict.Contents))
  && (dom(d.UnkDict.ContentsMeta, dict.POSStartIndex) ==> 0 <= d.UnkDict.ContentsMeta[dict.POSStartIndex])
  && (dom(d.UnkDict.ContentsMeta, dict.POSHierarchy) ==> 0 <= d.UnkDict.ContentsMeta[dict.POSHierarchy])
  && (u != nil ==> forall t string, i {uId(u, t, i)} :: 0 <= i < uN(u, t) ==> uId(u, t, i) < len(u.Contents));
// the id of a node is one its tables have
lemma nodeTables(x int, d *dict.Dict, u *dict.UserDict, p int, j int) [C06] {
  requires okD(x) && pd(x) == d && pu(x) == u && sized(d) && tables(d, u) && nodeAt(x, p, j);
  ensures nCls(x, p, j) == tok.DUMMY || nCls(x, p, j) == tok.KNOWN || nCls(x, p, j) == tok.UNKNOWN || nCls(x, p, j) == tok.USER;
  ensures nCls(x, p, j) != tok.DUMMY ==> 0 <= nId(x, p, j);
  ensures nCls(x, p, j) == tok.KNOWN ==> nId(x, p, j) < len(d.Morphs) && nId(x, p, j) < len(d.POSTable.POSs) && (d.Contents != nil ==> nId(x, p, j) < len(d.Contents));
  ensures nCls(x, p, j) == tok.UNKNOWN ==> nId(x, p, j) < len(d.UnkDict.Morphs) && nId(x, p, j) < len(d.UnkDict.Contents);
  ensures nCls(x, p, j) == tok.USER ==> u != nil && nId(x, p, j) < len(u.Contents);
  use 0 < p && p <= rc(ps(x)) ==> isCand(x, p, j);
}
lemma nodeConn(x int, d *dict.Dict, u *dict.UserDict, p int, j int) [C06] {
  requires okD(x) && pd(x) == d && pu(x) == u && sized(d) && tables(d, u) && connTable(d) && nodeAt(x, p, j);
  ensures 0 <= nL(x, p, j) && nL(x, p, j) < d.Connection.Col && 0 <= nR(x, p, j) && nR(x, p, j) < d.Connection.Row;
  use nodeTables(x, d, u, p, j);
}
lemma connIndex(d *dict.Dict, r int, c int) [C06] {
  requires connTable(d) && conn(d, r, c) <= 32767 && 0 <= r && r < d.Connection.Row && 0 <= c && c < d.Connection.Col;
  ensures 0 <= d.Connection.Row*c && 0 <= d.Connection.Row*c + r && d.Connection.Row*c + r < len(d.Connection.Vec);
}

func (*lattice.Lattice).Build(la, inp)() {
  props V;
  labels V;
  let x = pb(la.dic, la.udic, inp);
  opaque nStart, nCls, nId, inDict, nL, nR, nW, nSurf, cE, cEnd, cN, cId, cCls, cEk, cEq, cPlace, nodeRange, oneBosEos, candLen, candSome, isCand, pInv, best, cst, penalty, kanji, atCand, surjQ, surjK, bestOpt, bestReach, bestRange, cstBound, penaltyBound;
  requires poolInv(la) && apart(la);
  requires la.dic != nil && named(la.dic) && sized(la.dic) && namedUser(la.udic) && okD(pb(la.dic, la.udic, inp));
  modifies "lattice.Lattice.Input", "lattice.Lattice.list" if $r == la;
  modifies [C01, C02, C03, C04, C06, C07, C16] "mem:[]*lattice.Node" if aid($r) == base(la.list);
  modifies [C05] "mem:[]*lattice.Node" if aid($r) == base(la.list) && cap(la.list) > 0;
  modifies "mem:*lattice.Node" if exists i {la.list[i]} :: 0 <= i < cap(la.list) && cap(la.list[i]) > 0 && aid($r) == base(la.list[i]);
  modifies [C09] "lattice.*", "pool:*", "mem:[]*lattice.Node", "mem:*lattice.Node";
  ensures la.Input == inp;
  ensures lens(la, x, rc(inp), 0) && nodes(la, x);
  ensures unset(la, x);
  ensures apart(la) && exist(la) && noDup(la) && tailEmpty(la);
  ensures [C05] held(la) && owned(la) && newNodes(la) && ownBase(la);
  loop 0 {
    head nodeBosEos(x);
    head forall p {cE(x, 0, 0, p)} :: cZero(x, p);
    invariant la.Input == inp && runePos == $k - 1 && 0 <= $k && $k <= rc(inp);
    invariant apart(la) && exist(la) && owned(la) && noDup(la) && tailEmpty(la);
    invariant [C05] held(la) && newNodes(la) && ownBase(la);
    invariant lens(la, x, $k, 0);
    invariant nodes(la, x);
    invariant unset(la, x);
    hint unkLast(x, $k-1);
    hint forall p {cE(x, $k, 0, p)} :: cNextQ(x, $k, p);
  }
  loop 1 {
    invariant la.Input == inp && (anyMatches <==> $k > 0);
    invariant apart(la) && exist(la) && owned(la) && noDup(la) && tailEmpty(la);
    invariant [C05] held(la) && newNodes(la) && ownBase(la);
    invariant lens(la, x, $k0, $k);
    invariant nodes(la, x);
    invariant unset(la, x);
    hint endUser(x, $k0, $k-1);
    hint nodeOfCand(x, $k0, $k-1);
    hint nodeOK(la.list[cEnd(x, $k0, $k-1)][cE(x, $k0, $k-1, cEnd(x, $k0, $k-1))], x, cEnd(x, $k0, $k-1), cE(x, $k0, $k-1, cEnd(x, $k0, $k-1)));
    hint forall p {cE(x, $k0, $k, p)} :: cNext(x, $k0, $k, p);
  }
  loop 2 {
    invariant la.Input == inp && (anyMatches <==> $k > 0);
    invariant apart(la) && exist(la) && owned(la) && noDup(la) && tailEmpty(la);
    invariant [C05] held(la) && newNodes(la) && ownBase(la);
    invariant lens(la, x, $k0, $k);
    invariant nodes(la, x);
    invariant unset(la, x);
    invariant nU(x, $k0) <= 0;
    hint endKnown(x, $k0, $k-1);
    hint nodeOfCand(x, $k0, $k-1);
    hint nodeOK(la.list[cEnd(x, $k0, $k-1)][cE(x, $k0, $k-1, cEnd(x, $k0, $k-1))], x, cEnd(x, $k0, $k-1), cE(x, $k0, $k-1, cEnd(x, $k0, $k-1)));
    hint forall p {cE(x, $k0, $k, p)} :: cNext(x, $k0, $k, p);
  }
  loop 3 {
    decreases len(inp) - i;
    invariant i == endPos && endPos == bp(inp, $k0 + unkWordLen) && unkWordLen == $k + 1 && unkWordLen < 1024 && $k0 + unkWordLen <= rc(inp);
    invariant run(x, class, $k0, unkWordLen) == run(x, class, $k0, 1);
  }
  loop 4 {
    invariant la.Input == inp && asksUnk(x, $k0) && nU(x, $k0) <= 0;
    invariant endPos == bp(inp, $k0 + runLen(x, $k0)) && prev == (if two(x, $k0) then bp(inp, $k0 + runLen(x, $k0) - 1) else bp(inp, $k0));
    invariant class == ccat(x, $k0);
    invariant id == unkId(la.dic, ccat(x, $k0)) && dup == unkDup(la.dic, ccat(x, $k0));
    decreases dup + 1 - $k;
    invariant $k <= dup + 1;
    invariant apart(la) && exist(la) && owned(la) && noDup(la) && tailEmpty(la);
    invariant [C05] held(la) && newNodes(la) && ownBase(la);
    invariant lens(la, x, $k0, unkAt(x, $k0, $k));
    invariant nodes(la, x);
    invariant unset(la, x);
    hint rc(inp[bp(inp, $k0):endPos]) == runLen(x, $k0) && (two(x, $k0) ==> rc(inp[bp(inp, $k0):prev]) == runLen(x, $k0) - 1);
    hint bp(inp, $k0) < prev <==> two(x, $k0);
    hint forall p {la.list[p]} :: 0 <= p <= rc(ps(x))+1 ==> len(la.list[p]) == cE(x, $k0, unkAt(x, $k0, $k-1), p) + (if p == $k0 + runLen(x, $k0) - 1 && two(x, $k0) then 1 else 0) + (if p == $k0 + runLen(x, $k0) then 1 else 0);
    hint unkCand(x, $k0, $k-1);
    hint nodeOfCand(x, $k0, unkAt(x, $k0, $k-1));
    hint two(x, $k0) ==> nodeOfCand(x, $k0, unkAt(x, $k0, $k-1)+1);
    hint forall p {cE(x, $k0, unkAt(x, $k0, $k-1)+1, p)} {cE(x, $k0, unkAt(x, $k0, $k), p)} :: cNext(x, $k0, unkAt(x, $k0, $k-1)+1, p);
    hint forall p {cE(x, $k0, unkAt(x, $k0, $k), p)} :: cNext(x, $k0, unkAt(x, $k0, $k), p);
    hint forall p {cE(x, $k0, unkAt(x, $k0, $k), p)} :: 0 <= p <= rc(ps(x))+1 ==> cE(x, $k0, unkAt(x, $k0, $k), p) == cE(x, $k0, unkAt(x, $k0, $k-1), p) + (if p == $k0 + runLen(x, $k0) - 1 && two(x, $k0) then 1 else 0) + (if p == $k0 + runLen(x, $k0) then 1 else 0);
    hint mL(pd(x), tok.UNKNOWN, id + $k-1) == la.dic.UnkDict.Morphs[id + $k-1].LeftID && mR(pd(x), tok.UNKNOWN, id + $k-1) == la.dic.UnkDict.Morphs[id + $k-1].RightID && mW(pd(x), tok.UNKNOWN, id + $k-1) == la.dic.UnkDict.Morphs[id + $k-1].Weight;
    hint nodeOK(la.list[cEnd(x, $k0, unkAt(x, $k0, $k-1))][cE(x, $k0, unkAt(x, $k0, $k-1), cEnd(x, $k0, unkAt(x, $k0, $k-1)))], x, cEnd(x, $k0, unkAt(x, $k0, $k-1)), cE(x, $k0, unkAt(x, $k0, $k-1), cEnd(x, $k0, unkAt(x, $k0, $k-1))));
    hint two(x, $k0) ==> nodeOK(la.list[cEnd(x, $k0, unkAt(x, $k0, $k-1)+1)][cE(x, $k0, unkAt(x, $k0, $k-1)+1, cEnd(x, $k0, unkAt(x, $k0, $k-1)+1))], x, cEnd(x, $k0, unkAt(x, $k0, $k-1)+1), cE(x, $k0, unkAt(x, $k0, $k-1)+1, cEnd(x, $k0, unkAt(x, $k0, $k-1)+1)));
  }
}
