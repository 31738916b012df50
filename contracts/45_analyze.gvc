// tokenizer/lattice New/Free and the entry points of package tokenizer.

// A lattice that is taken from the pool is nobody else's, like a new one; see the pool invariant in 41_lattice.gvc.
macro ownList(la *lattice.Lattice) = forall i {la.list[i]} :: 0 <= i < cap(la.list) && cap(la.list[i]) > 0 ==> fresh(la.list[i]);
extern func (mem.Pool[lattice.Lattice]).Get(p)(r) {
  modifies "lattice.Lattice.*", "mem:[]*lattice.Node", "mem:*lattice.Node", "pool:lattice.Lattice" fresh;
  ensures r != nil && fresh(r) && allocated(r);
  ensures poolInv(r) && apart(r) && exist(r);
  ensures [C05] mine(r) && ownList(r) && (cap(r.list) > 0 ==> fresh(r.list)) && (cap(r.Output) > 0 ==> fresh(r.Output));
}
// what is given back is read and written no more
extern func (mem.Pool[lattice.Lattice]).Put(p, x)() {
  requires [V] poolInv(x) && apart(x);
  requires [C05] mine(x);
  modifies "pool:lattice.Lattice", "lattice.Lattice.*" if $r == x;
  modifies [C01, C02, C03, C04, C06, C07, C09, C16] "mem:[]*lattice.Node", "mem:*lattice.Node";
  modifies [C05] "mem:[]*lattice.Node" if aid($r) == base(x.list) && cap(x.list) > 0;
  modifies [C05] "mem:*lattice.Node" if cap(x.Output) > 0 && aid($r) == base(x.Output) || exists i {x.list[i]} :: 0 <= i < cap(x.list) && cap(x.list[i]) > 0 && aid($r) == base(x.list[i]);
  ensures [C05] !mine(x);
}
extern func (mem.Pool[lattice.Node]).Put(p, x)() {
  requires [V] x != nil;
  requires [C05] mine(x);
  modifies "pool:lattice.Node", "lattice.Node.*" if $r == x;
  ensures [C05] !mine(x);
}
func lattice.New(d, u)(r) {
  props V;
  labels V;
  ensures r != nil && fresh(r) && poolInv(r) && apart(r) && exist(r) && r.dic == d && r.udic == u;
  ensures [C05] mine(r) && ownList(r) && (cap(r.list) > 0 ==> fresh(r.list)) && (cap(r.Output) > 0 ==> fresh(r.Output));
}
func (*lattice.Lattice).Free(la)() {
  props V;
  labels V;
  requires la != nil && apart(la) && exist(la) && noDup(la) && tailEmpty(la);
  requires [C05] mine(la) && held(la);
  modifies [C09] "lattice.Lattice.*", "pool:*";
  modifies "lattice.Lattice.*", "pool:lattice.Lattice" if $r == la;
  modifies [C01, C02, C03, C04, C06, C07, C09, C16] "pool:lattice.Node", "lattice.Node.*", "mem:[]*lattice.Node", "mem:*lattice.Node";
  modifies [C05] "pool:lattice.Node", "lattice.Node.*" if exists p, j {la.list[p][j]} :: 0 <= p < len(la.list) && 0 <= j < len(la.list[p]) && $r == la.list[p][j];
  modifies [C05] "mem:[]*lattice.Node" if aid($r) == base(la.list) && cap(la.list) > 0;
  modifies [C05] "mem:*lattice.Node" if cap(la.Output) > 0 && aid($r) == base(la.Output) || exists i {la.list[i]} :: 0 <= i < cap(la.list) && cap(la.list[i]) > 0 && aid($r) == base(la.list[i]);
  loop 0 {
    invariant la.list == old(la.list) && la.Output == old(la.Output);
    invariant forall i {la.list[i]} :: 0 <= i < cap(la.list) ==> la.list[i] == old(la.list[i]);
    invariant forall p, j {la.list[p][j]} :: 0 <= p < len(la.list) && 0 <= j < len(la.list[p]) ==> la.list[p][j] == old(la.list[p][j]);
  }
  loop 1 {
    invariant la.list == old(la.list) && len(la.Output) == 0 && base(la.Output) == old(base(la.Output)) && cap(la.Output) == old(cap(la.Output));
    invariant forall i {la.list[i]} :: 0 <= i < cap(la.list) ==> base(la.list[i]) == old(base(la.list[i])) && cap(la.list[i]) == old(cap(la.list[i])) && off(la.list[i]) == old(off(la.list[i]));
    invariant forall i {la.list[i]} :: 0 <= i < $k ==> len(la.list[i]) == 0;
    invariant forall i {la.list[i]} :: $k <= i < cap(la.list) ==> la.list[i] == old(la.list[i]);
    invariant forall p, j {la.list[p][j]} :: $k <= p < len(la.list) && 0 <= j < len(la.list[p]) ==> la.list[p][j] == old(la.list[p][j]);
    invariant [C05] mine(la) && forall p, j {la.list[p][j]} :: $k <= p < len(la.list) && 0 <= j < len(la.list[p]) ==> mine(la.list[p][j]);
  }
  loop 2 {
    invariant la.list == old(la.list) && len(la.Output) == 0 && base(la.Output) == old(base(la.Output)) && cap(la.Output) == old(cap(la.Output));
    invariant forall i {la.list[i]} :: 0 <= i < cap(la.list) ==> base(la.list[i]) == old(base(la.list[i])) && cap(la.list[i]) == old(cap(la.list[i])) && off(la.list[i]) == old(off(la.list[i]));
    invariant forall i {la.list[i]} :: 0 <= i < $k1 ==> len(la.list[i]) == 0;
    invariant forall i {la.list[i]} :: $k1 <= i < cap(la.list) ==> la.list[i] == old(la.list[i]);
    invariant forall p, j {la.list[p][j]} :: $k1 < p < len(la.list) && 0 <= j < len(la.list[p]) ==> la.list[p][j] == old(la.list[p][j]);
    invariant forall j {la.list[$k1][j]} :: $k <= j < len(la.list[$k1]) ==> la.list[$k1][j] == old(la.list[$k1][j]);
    invariant [C05] mine(la) && (forall p, j {la.list[p][j]} :: $k1 < p < len(la.list) && 0 <= j < len(la.list[p]) ==> mine(la.list[p][j]))
      && (forall j {la.list[$k1][j]} :: $k <= j < len(la.list[$k1]) ==> mine(la.list[$k1][j]));
  }
}

// ---------- the entry points ----------
macro modeOf(mode) = if mode == tok.Search then lattice.Search else if mode == tok.Extended then lattice.Extended else lattice.Normal;
// token number i of an analysis is output entry o
macro tokIs(t tok.Token, d *dict.Dict, u *dict.UserDict, x, m, i, o) =
  t.Index == i && t.ID == vId(x, m, o) && t.Class == vCls(x, m, o) && t.Start == vS(x, m, o) && t.End == vE(x, m, o)
  && t.Position == bp(ps(x), vS(x, m, o)) && t.dict == d && t.udict == u
  && t.Surface == (if o == 0 then "EOS" else if o == vN(x, m)-1 then "BOS" else vSurf(x, m, o));
macro wfTok(t, input) = t.dict != nil && named(t.dict) && sized(t.dict) && namedUser(t.userDict) && okD(pb(t.dict, t.userDict, input));
macro analysis(t tok.Tokenizer, r []tok.Token, x, m) =
  len(r) == vN(x, m) - (if t.omitBosEos then 2 else 0)
  && forall i {r[i]} :: 0 <= i < len(r) ==> tokIs(r[i], t.dict, t.userDict, x, m, i, vN(x, m) - 1 - i - (if t.omitBosEos then 1 else 0));


// a node that posFeature can describe
macro nodeWF(t *lattice.Node, d *dict.Dict, u *dict.UserDict) =
  (t.Class == tok.KNOWN ==> d != nil && 0 <= t.ID < len(d.POSTable.POSs) && dictWF(d))
  && (t.Class == tok.UNKNOWN ==> d != nil && 0 <= t.ID < len(d.UnkDict.Contents)
       && (dom(d.UnkDict.ContentsMeta, dict.POSStartIndex) ==> 0 <= d.UnkDict.ContentsMeta[dict.POSStartIndex])
       && (dom(d.UnkDict.ContentsMeta, dict.POSHierarchy) ==> 0 <= d.UnkDict.ContentsMeta[dict.POSHierarchy]))
  && (t.Class == tok.USER ==> u != nil && 0 <= t.ID < len(u.Contents));
// the graph goes to the writer; the lattice is only read
extern func fmt.Fprintln(w, a)(n, err) {
}
extern func fmt.Fprintf(w, format, a)(n, err) {
}
func lattice.posFeature(d, u, t)(r) {
  props V;
  labels V;
  requires [C06] t != nil;
  requires [C06] nodeWF(t, d, u);
  loop 0 {
    invariant [V, C09] cap(ret) > 0 ==> fresh(ret);
  }
  loop 1 {
    decreases end - i;
    invariant [C06] start <= i && i <= end && end <= len(feature) && 0 <= start;
    invariant [V, C09] cap(ret) > 0 ==> fresh(ret);
  }
}
macro edgeOK(e, d *dict.Dict) = e.from != nil && e.to != nil && 0 <= e.from.Right < d.Connection.Row && 0 <= e.to.Left < d.Connection.Col;
func (*lattice.Lattice).Dot(la, w)() {
  props V;
  labels V;
  let x = pb(la.dic, la.udic, la.Input);
  opaque nStart, nCls, nId, inDict, nL, nR, nW, nSurf, cE, cEnd, cN, cId, cCls, cEk, cEq, cPlace, nodeRange, oneBosEos, candLen, candSome, isCand, pInv, unkAt, best, cst, penalty, kanji, atCand, surjQ, surjK, bestOpt, bestReach, bestRange, cstBound, penaltyBound;
  requires [C06] la != nil && la.dic != nil && named(la.dic) && sized(la.dic) && okD(x) && connTable(la.dic) && tables(la.dic, la.udic);
  requires [C06] lens(la, x, rc(la.Input), 0) && nodes(la, x) && noDup(la);
  loop 0 {
  }
  loop 1 {
    decreases size - i;
    invariant [C06] i == $k + 1 && size == len(la.list) && i <= size;
    invariant [C06] forall k {edges[k]} :: 0 <= k < len(edges) ==> edgeOK(edges[k], la.dic);
    invariant [V, C09] fresh(edges);
  }
  loop 2 {
    head [C06] nodeRange(x, i, $k);
    invariant [C06] forall k {edges[k]} :: 0 <= k < len(edges) ==> edgeOK(edges[k], la.dic);
    invariant [V, C09] fresh(edges);
  }
  loop 3 {
    head [C06] nodeConn(x, la.dic, la.udic, i, $k2);
    head [C06] nodeConn(x, la.dic, la.udic, nStart(x, i, $k2), $k);
    invariant [C06] forall k {edges[k]} :: 0 <= k < len(edges) ==> edgeOK(edges[k], la.dic);
    invariant [V, C09] fresh(edges);
  }
  loop 4 {
    invariant [C06] forall k {edges[k]} :: 0 <= k < len(edges) ==> edgeOK(edges[k], la.dic);
  }
  loop 5 {
    head [C06] nodeTables(x, la.dic, la.udic, $k4, $k);
    invariant [C06] forall k {edges[k]} :: 0 <= k < len(edges) ==> edgeOK(edges[k], la.dic);
  }
  loop 6 {
    head [C06] connIndex(la.dic, edges[$k].from.Right, edges[$k].to.Left);
    invariant [C06] forall k {edges[k]} :: 0 <= k < len(edges) ==> edgeOK(edges[k], la.dic);
  }
}

// what is said directly about a token list (see properties.jsonl)
macro lossless(r []tok.Token, input) = catSurf(r, len(r)) == input && forall n {r[n]} {idx(n)} :: idx(n) && 0 <= n < len(r) ==> r[n].Position == len(catSurf(r, n));
macro framed(r []tok.Token, input, omit) =
  forall i {r[i]} {idx(i)} :: idx(i) && 0 <= i < len(r) ==>
    r[i].Index == i && r[i].Start == rc(input[0:r[i].Position])
    && (r[i].ID == tok.BosEosID <==> !omit && (i == 0 || i == len(r)-1))
    && (r[i].ID != tok.BosEosID ==> r[i].End == r[i].Start + rc(r[i].Surface) && r[i].Surface != "")
    && (r[i].ID == tok.BosEosID ==> r[i].Class == tok.DUMMY && r[i].End == r[i].Start && r[i].Start == (if i == 0 then 0 else rc(input)) && r[i].Position == (if i == 0 then 0 else len(input)) && r[i].Surface == (if i == 0 then "BOS" else "EOS"));

func (tok.Tokenizer).Analyze(t, input, mode)(r) {
  props V, C09;
  labels V;
  elsewhere C15 C06;
  let x = pb(t.dict, t.userDict, input);
  let m = modeOf(mode);
  let om = if t.omitBosEos then 1 else 0;
  opaque nStart, nCls, nId, inDict, nL, nR, nW, nSurf, cE, cEnd, cN, cId, cCls, cEk, cEq, cPlace, nodeRange, oneBosEos, candLen, candSome, isCand, pInv, unkAt, best, cst, penalty, kanji, atCand, surjQ, surjK, bestOpt, bestReach, bestRange, cstBound, penaltyBound, chP, chJ, chainLen, oC, oI, vI, vS, vE, vId, vCls, oW, vN;
  requires [V, C15] wfTok(t, input);
  requires [C06, C15] connTable(t.dict) && tables(t.dict, t.userDict);
  modifies [C01, C02, C03, C04, C06, C07, C09, C15, C16] "pool:*", "lattice.*", "mem:[]*lattice.Node", "mem:*lattice.Node";
  ensures [V, C09, C15] fresh(r) && r != nil;
  ensures analysis(t, r, x, m);
  hint [C06] forall i {r[i]} :: 0 <= i < len(r) ==> entryTables(x, t.dict, t.userDict, m, vN(x, m) - 1 - i - om);
  ensures [C06, C15] forall i {r[i]} :: 0 <= i < len(r) ==> tokWF(r[i]);
  hint [C01] catAll(r, x, m, om);
  hint [C01] forall n {r[n]} {idx(n)} :: 0 <= n < len(r) ==> catAt(r, x, m, om, n);
  ensures [C01] lossless(r, input);
  hint [C02] vEnds(x, m);
  hint [C02] forall i {r[i]} {idx(i)} :: 0 <= i < len(r) ==> entryOffsets(x, m, entryOf(x, m, om, i)) && vSpan(x, m, entryOf(x, m, om, i));
  ensures [C02] (!t.omitBosEos ==> 2 <= len(r)) && framed(r, input, t.omitBosEos);
  loop 0 {
    head vEnds(x, m);
    head vSpan(x, m, size - 1 - $k);
    invariant [V, C09] fresh(tokens) && tokens != nil;
    invariant size == len(la.Output) && $k <= size;
    invariant (!t.omitBosEos ==> len(tokens) == $k) && (t.omitBosEos && $k == 0 ==> len(tokens) == 0) && (t.omitBosEos && 0 < $k && $k < size ==> len(tokens) == $k - 1) && (t.omitBosEos && $k == size ==> len(tokens) == size - 2);
    invariant forall i {tokens[i]} :: 0 <= i < len(tokens) ==> tokIs(tokens[i], t.dict, t.userDict, x, m, i, vN(x, m) - 1 - i - om);
  }
}

func (tok.Tokenizer).AnalyzeGraph(t, w, input, mode)(r) {
  props V, C09;
  labels V;
  let x = pb(t.dict, t.userDict, input);
  let m = modeOf(mode);
  let om = if t.omitBosEos then 1 else 0;
  opaque nStart, nCls, nId, inDict, nL, nR, nW, nSurf, cE, cEnd, cN, cId, cCls, cEk, cEq, cPlace, nodeRange, oneBosEos, candLen, candSome, isCand, pInv, unkAt, best, cst, penalty, kanji, atCand, surjQ, surjK, bestOpt, bestReach, bestRange, cstBound, penaltyBound, chP, chJ, chainLen, oC, oI, vI, vS, vE, vId, vCls, oW, vN;
  requires wfTok(t, input);
  requires [C06] connTable(t.dict) && tables(t.dict, t.userDict);
  modifies [C01, C02, C03, C04, C06, C07, C09, C16] "pool:*", "lattice.*", "mem:[]*lattice.Node", "mem:*lattice.Node";
  ensures [V, C09] fresh(r) && r != nil;
  ensures analysis(t, r, x, m);
  hint [C06] forall i {r[i]} :: 0 <= i < len(r) ==> entryTables(x, t.dict, t.userDict, m, vN(x, m) - 1 - i - om);
  ensures [C06] forall i {r[i]} :: 0 <= i < len(r) ==> tokWF(r[i]);
  hint [C01] catAll(r, x, m, om);
  hint [C01] forall n {r[n]} {idx(n)} :: 0 <= n < len(r) ==> catAt(r, x, m, om, n);
  ensures [C01] lossless(r, input);
  hint [C02] vEnds(x, m);
  hint [C02] forall i {r[i]} {idx(i)} :: 0 <= i < len(r) ==> entryOffsets(x, m, entryOf(x, m, om, i)) && vSpan(x, m, entryOf(x, m, om, i));
  ensures [C02] (!t.omitBosEos ==> 2 <= len(r)) && framed(r, input, t.omitBosEos);
  loop 0 {
    head vEnds(x, m);
    head vSpan(x, m, size - 1 - $k);
    invariant [V, C09] fresh(tokens) && tokens != nil;
    invariant size == len(la.Output) && $k <= size;
    invariant (!t.omitBosEos ==> len(tokens) == $k) && (t.omitBosEos && $k == 0 ==> len(tokens) == 0) && (t.omitBosEos && 0 < $k && $k < size ==> len(tokens) == $k - 1) && (t.omitBosEos && $k == size ==> len(tokens) == size - 2);
    invariant forall i {tokens[i]} :: 0 <= i < len(tokens) ==> tokIs(tokens[i], t.dict, t.userDict, x, m, i, vN(x, m) - 1 - i - om);
  }
}

func (tok.Tokenizer).Tokenize(t, input)(r) {
  props V, C09;
  labels V;
  requires wfTok(t, input);
  requires [C06] connTable(t.dict) && tables(t.dict, t.userDict);
  modifies [C01, C02, C03, C04, C06, C07, C09, C16] "pool:*", "lattice.*", "mem:[]*lattice.Node", "mem:*lattice.Node";
  ensures [V, C09] fresh(r) && r != nil;
  ensures analysis(t, r, pb(t.dict, t.userDict, input), lattice.Normal);
  ensures [C06] forall i {r[i]} :: 0 <= i < len(r) ==> tokWF(r[i]);
  ensures [C01] lossless(r, input);
  ensures [C02] (!t.omitBosEos ==> 2 <= len(r)) && framed(r, input, t.omitBosEos);
}

func (tok.Tokenizer).Dot(t, w, input)(r) {
  props V, C09;
  labels V;
  requires wfTok(t, input);
  requires [C06] connTable(t.dict) && tables(t.dict, t.userDict);
  modifies [C01, C02, C03, C04, C06, C07, C09, C16] "pool:*", "lattice.*", "mem:[]*lattice.Node", "mem:*lattice.Node";
  ensures [V, C09] fresh(r) && r != nil;
  ensures analysis(t, r, pb(t.dict, t.userDict, input), lattice.Normal);
  ensures [C06] forall i {r[i]} :: 0 <= i < len(r) ==> tokWF(r[i]);
  ensures [C01] lossless(r, input);
  ensures [C02] (!t.omitBosEos ==> 2 <= len(r)) && framed(r, input, t.omitBosEos);
}

func (tok.Tokenizer).Wakati(t, input)(r) {
  props V, C09;
  labels V;
  requires wfTok(t, input);
  requires [C06] connTable(t.dict) && tables(t.dict, t.userDict);
  modifies [C01, C02, C03, C04, C06, C07, C09, C16] "pool:*", "lattice.*", "mem:[]*lattice.Node", "mem:*lattice.Node";
  ensures [V, C09] fresh(r) && r != nil;
  let x = pb(t.dict, t.userDict, input);
  opaque chP, chJ, chainLen, oC, oI, vI, vS, vE, vId, vCls, oW, vN, cE, cEnd, best, cst, nStart, nCls, nId, nSurf, nodeRange, atCand, surjQ, surjK, cEk, cEq;
  ensures len(r) == vN(x, lattice.Normal) - 2;
  ensures forall i {r[i]} :: 0 <= i < len(r) ==> r[i] == vSurf(x, lattice.Normal, vN(x, lattice.Normal) - 2 - i) && r[i] != "";
  loop 0 {
    head vEnds(x, lattice.Normal);
    head vSpan(x, lattice.Normal, vN(x, lattice.Normal) - 1 - $k - (if t.omitBosEos then 1 else 0));
    invariant [V, C09] fresh(ret) && ret != nil;
    invariant $k <= len(ts);
    invariant (t.omitBosEos ==> len(ret) == $k) && (!t.omitBosEos && $k == 0 ==> len(ret) == 0) && (!t.omitBosEos && 0 < $k && $k < len(ts) ==> len(ret) == $k - 1) && (!t.omitBosEos && $k == len(ts) ==> len(ret) == len(ts) - 2);
    invariant forall i {ret[i]} :: 0 <= i < len(ret) ==> ret[i] == vSurf(x, lattice.Normal, vN(x, lattice.Normal) - 2 - i) && ret[i] != "";
  }
}
