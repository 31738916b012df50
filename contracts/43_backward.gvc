// The path that Backward reads off the lattice, and the list of output nodes it makes of it.
// x: the problem, m: the mode. The path is listed from EOS (i = 0) back to BOS (i = chN-1).
rec chP(x int, m int, i int) int = if i <= 0 then rc(ps(x))+1 else nStart(x, chP(x, m, i-1), chJ(x, m, i-1));
rec chJ(x int, m int, i int) int = if i <= 0 then 0 else pre(x, m != lattice.Normal, chP(x, m, i-1), chJ(x, m, i-1));
rec chainLen(x int, pen bool, p int, j int) int = if p <= 0 then 1 else 1 + chainLen(x, pen, nStart(x, p, j), pre(x, pen, p, j));
rec chN(x int, m int) int = chainLen(x, m != lattice.Normal, rc(ps(x))+1, 0);
rec chainAt(x int, m int, i int) bool =
  nodeAt(x, chP(x, m, i), chJ(x, m, i)) && (chP(x, m, i) > 0 ==> pre(x, m != lattice.Normal, chP(x, m, i), chJ(x, m, i)) >= 0)
  && chainLen(x, m != lattice.Normal, chP(x, m, i), chJ(x, m, i)) == chN(x, m) - i;

lemma chainNext(x int, m int, i int) [V] {
  requires 0 <= i;
  ensures chP(x, m, i+1) == nStart(x, chP(x, m, i), chJ(x, m, i)) && chJ(x, m, i+1) == pre(x, m != lattice.Normal, chP(x, m, i), chJ(x, m, i));
}
lemma chainStart(x int, m int) [V] {
  ensures chP(x, m, 0) == rc(ps(x))+1 && chJ(x, m, 0) == 0;
}
lemma chainPos(x int, pen bool, p int, j int) [V] {
  requires okD(x) && nodeAt(x, p, j) && (p > 0 ==> pre(x, pen, p, j) >= 0);
  ensures 1 <= chainLen(x, pen, p, j) && chainLen(x, pen, p, j) <= p + 1 && (p > 0 ==> 2 <= chainLen(x, pen, p, j));
  use p > 0 ==> nodeRange(x, p, j);
  use p > 0 ==> bestRange(x, pen, p, j, nAt(x, nStart(x, p, j)));
  use p > 0 ==> bestReach(x, pen, p, j, nAt(x, nStart(x, p, j)));
  use p > 0 ==> chainPos(x, pen, nStart(x, p, j), pre(x, pen, p, j));
  induction p;
}
lemma chain(x int, m int, i int) [V] {
  requires okD(x) && 0 <= i && i < chN(x, m);
  ensures chainAt(x, m, i);
  ensures 0 <= chP(x, m, i) && chP(x, m, i) <= rc(ps(x))+1;
  ensures chP(x, m, i) > 0 <==> i + 1 < chN(x, m);
  ensures i == 0 <==> chP(x, m, i) == rc(ps(x))+1;
  ensures i > 0 ==> chP(x, m, i) < chP(x, m, i-1);
  use i == 0 ==> chainStart(x, m);
  use i == 0 ==> eosReachable(x, m != lattice.Normal);
  use i == 0 ==> nodeAt(x, rc(ps(x))+1, 0);
  use i > 0 ==> chain(x, m, i-1);
  use i > 0 ==> chainNext(x, m, i-1);
  use i > 0 ==> chP(x, m, i-1) > 0;
  use i > 0 ==> nodeRange(x, chP(x, m, i-1), chJ(x, m, i-1));
  use i > 0 ==> bestRange(x, m != lattice.Normal, chP(x, m, i-1), chJ(x, m, i-1), nAt(x, nStart(x, chP(x, m, i-1), chJ(x, m, i-1))));
  use i > 0 ==> bestReach(x, m != lattice.Normal, chP(x, m, i-1), chJ(x, m, i-1), nAt(x, nStart(x, chP(x, m, i-1), chJ(x, m, i-1))));
  use chainPos(x, m != lattice.Normal, chP(x, m, i), chJ(x, m, i));
  induction i;
}
lemma chainBos(x int, m int) [V] {
  requires okD(x);
  ensures 2 <= chN(x, m) && chP(x, m, chN(x, m)-1) == 0 && chJ(x, m, chN(x, m)-1) == 0;
  use nodeAt(x, rc(ps(x))+1, 0);
  use eosReachable(x, m != lattice.Normal);
  use chainPos(x, m != lattice.Normal, rc(ps(x))+1, 0);
  use chain(x, m, chN(x, m)-1);
  use oneBosEos(x, 0);
}

// the output: node i of the path gives oW(i) entries, the first of them number oC(i)
rec splitAt(x int, m int, i int) bool = m == lattice.Extended && nCls(x, chP(x, m, i), chJ(x, m, i)) == tok.UNKNOWN;
rec oW(x int, m int, i int) int = if splitAt(x, m, i) then chP(x, m, i) - nStart(x, chP(x, m, i), chJ(x, m, i)) else 1;
rec oC(x int, m int, i int) int = if i <= 0 then 0 else oC(x, m, i-1) + oW(x, m, i-1);
rec oI(x int, m int, o int, a int) int = if o < oC(x, m, a+1) || a + 1 >= chN(x, m) then a else oI(x, m, o, a+1);
rec vN(x int, m int) int = oC(x, m, chN(x, m));
rec vI(x int, m int, o int) int = oI(x, m, o, 0);
// entry o of the output: id, class, first character, end
rec vId(x int, m int, o int) int = nId(x, chP(x, m, vI(x, m, o)), chJ(x, m, vI(x, m, o)));
rec vCls(x int, m int, o int) int = if splitAt(x, m, vI(x, m, o)) then tok.DUMMY else nCls(x, chP(x, m, vI(x, m, o)), chJ(x, m, vI(x, m, o)));
rec vS(x int, m int, o int) int =
  if splitAt(x, m, vI(x, m, o)) then chP(x, m, vI(x, m, o)) - 1 - (o - oC(x, m, vI(x, m, o)))
  else nStart(x, chP(x, m, vI(x, m, o)), chJ(x, m, vI(x, m, o)));
rec vE(x int, m int, o int) int =
  if splitAt(x, m, vI(x, m, o)) then vS(x, m, o) + 1
  else if chP(x, m, vI(x, m, o)) == rc(ps(x))+1 then rc(ps(x)) else chP(x, m, vI(x, m, o));
macro vSurf(x, m, o) = (ps(x))[bp(ps(x), vS(x, m, o)):bp(ps(x), vE(x, m, o))];

lemma oNext(x int, m int, i int) [V] {
  requires 0 <= i;
  ensures oC(x, m, i+1) == oC(x, m, i) + oW(x, m, i);
}
lemma oZero(x int, m int) [V] {
  ensures oC(x, m, 0) == 0;
}
lemma oWpos(x int, m int, i int) [V] {
  requires okD(x) && 0 <= i && i < chN(x, m);
  ensures 1 <= oW(x, m, i);
  ensures splitAt(x, m, i) ==> 0 < chP(x, m, i) && chP(x, m, i) <= rc(ps(x));
  use chain(x, m, i);
  use chP(x, m, i) > 0 ==> nodeRange(x, chP(x, m, i), chJ(x, m, i));
}
lemma oMono(x int, m int, i int, i2 int) [V] {
  requires okD(x) && 0 <= i && i <= i2 && i2 <= chN(x, m);
  ensures oC(x, m, i) + i2 - i <= oC(x, m, i2) && 0 <= oC(x, m, i);
  use i < i2 ==> oWpos(x, m, i2-1);
  use i < i2 ==> oNext(x, m, i2-1);
  use i < i2 ==> oMono(x, m, i, i2-1);
  use i == i2 && 0 < i ==> oMono(x, m, i-1, i2-1);
  use i == i2 && 0 < i ==> oNext(x, m, i-1);
  use i == i2 && 0 < i ==> oWpos(x, m, i-1);
  induction i2;
}
lemma oInv(x int, m int, o int, i int, a int) [V] {
  requires okD(x) && 0 <= a && a <= i && i < chN(x, m) && oC(x, m, i) <= o && o < oC(x, m, i+1);
  ensures oI(x, m, o, a) == i;
  use a < i ==> oMono(x, m, a+1, i);
  use a < i ==> oInv(x, m, o, i, a+1);
  induction i - a;
}
lemma vOf(x int, m int, i int, t int) [V] {
  requires okD(x) && 0 <= i && i < chN(x, m) && 0 <= t && t < oW(x, m, i);
  ensures vI(x, m, oC(x, m, i) + t) == i;
  ensures 0 <= oC(x, m, i) + t && oC(x, m, i) + t < vN(x, m);
  use oNext(x, m, i);
  use oMono(x, m, i, i);
  use oMono(x, m, i+1, chN(x, m));
  use oInv(x, m, oC(x, m, i) + t, i, 0);
}

macro outOK(n *lattice.Node, x, m, o) =
  n.ID == vId(x, m, o) && n.Class == vCls(x, m, o) && n.Start == vS(x, m, o) && n.Position == bp(ps(x), vS(x, m, o)) && n.Surface == vSurf(x, m, o);
// an unsplit node of the path
lemma vWhole(x int, m int, i int) [V] {
  requires okD(x) && 0 <= i && i < chN(x, m) && !splitAt(x, m, i);
  ensures oW(x, m, i) == 1 && vI(x, m, oC(x, m, i)) == i && oC(x, m, i+1) == oC(x, m, i) + 1;
  ensures vId(x, m, oC(x, m, i)) == nId(x, chP(x, m, i), chJ(x, m, i)) && vCls(x, m, oC(x, m, i)) == nCls(x, chP(x, m, i), chJ(x, m, i));
  ensures vS(x, m, oC(x, m, i)) == nStart(x, chP(x, m, i), chJ(x, m, i));
  ensures vSurf(x, m, oC(x, m, i)) == nSurf(x, chP(x, m, i), chJ(x, m, i));
  use oNext(x, m, i);
  use vOf(x, m, i, 0);
  use chain(x, m, i);
}
// entry t of a node of the path that is split into characters
lemma vSplit(x int, m int, i int, t int) [V] {
  requires okD(x) && 0 <= i && i < chN(x, m) && splitAt(x, m, i) && 0 <= t && t < oW(x, m, i);
  ensures oW(x, m, i) == rc(nSurf(x, chP(x, m, i), chJ(x, m, i))) && vI(x, m, oC(x, m, i) + t) == i && oC(x, m, i+1) == oC(x, m, i) + oW(x, m, i);
  ensures vId(x, m, oC(x, m, i) + t) == nId(x, chP(x, m, i), chJ(x, m, i)) && vCls(x, m, oC(x, m, i) + t) == tok.DUMMY;
  ensures vS(x, m, oC(x, m, i) + t) == nStart(x, chP(x, m, i), chJ(x, m, i)) + oW(x, m, i) - 1 - t;
  ensures bp(ps(x), vS(x, m, oC(x, m, i) + t)) == bp(ps(x), nStart(x, chP(x, m, i), chJ(x, m, i))) + bp(nSurf(x, chP(x, m, i), chJ(x, m, i)), oW(x, m, i) - 1 - t);
  ensures vSurf(x, m, oC(x, m, i) + t) == (nSurf(x, chP(x, m, i), chJ(x, m, i)))[bp(nSurf(x, chP(x, m, i), chJ(x, m, i)), oW(x, m, i) - 1 - t):bp(nSurf(x, chP(x, m, i), chJ(x, m, i)), oW(x, m, i) - t)];
  use oNext(x, m, i);
  use vOf(x, m, i, t);
  use chain(x, m, i);
  use oWpos(x, m, i);
  use nodeRange(x, chP(x, m, i), chJ(x, m, i));
  use nSurf(x, chP(x, m, i), chJ(x, m, i)) == (ps(x))[bp(ps(x), nStart(x, chP(x, m, i), chJ(x, m, i))):bp(ps(x), chP(x, m, i))];
  use bp(nSurf(x, chP(x, m, i), chJ(x, m, i)), oW(x, m, i) - 1 - t) == bp(ps(x), nStart(x, chP(x, m, i), chJ(x, m, i)) + oW(x, m, i) - 1 - t) - bp(ps(x), nStart(x, chP(x, m, i), chJ(x, m, i)));
  use bp(nSurf(x, chP(x, m, i), chJ(x, m, i)), oW(x, m, i) - t) == bp(ps(x), nStart(x, chP(x, m, i), chJ(x, m, i)) + oW(x, m, i) - t) - bp(ps(x), nStart(x, chP(x, m, i), chJ(x, m, i)));
}

// the characters of the unknown word p
macro charsOK(stack []*lattice.Node, p *lattice.Node, n) =
  forall t {stack[t]} :: 0 <= t < n ==> fresh(stack[t]) && stack[t] != nil && stack[t].ID == p.ID && stack[t].Start == p.Start + t && stack[t].Class == tok.DUMMY
    && stack[t].Surface == (p.Surface)[bp(p.Surface, t):bp(p.Surface, t+1)] && stack[t].Position == p.Position + bp(p.Surface, t);
func (*lattice.Lattice).Backward(la, m)() {
  props V;
  labels V;
  let x = pb(la.dic, la.udic, la.Input);
  opaque nStart, nCls, nId, inDict, nL, nR, nW, nSurf, cE, cEnd, cN, best, cst, penalty, kanji, atCand, surjQ, surjK, bestOpt, bestReach, chP, chJ, chainLen, oC, oI, vI, vS, vE, vId, vCls, oW;
  requires la != nil && okD(x) && len(la.Output) == 0;
  requires lens(la, x, rc(la.Input), 0) && nodes(la, x) && noDup(la) && apart(la) && exist(la);
  requires allSettled(la, x, m != lattice.Normal, rc(ps(x))+2, 0) && bosOK(la);
  modifies [C09] "lattice.*", "mem:*lattice.Node";
  modifies "lattice.Lattice.Output" if $r == la;
  modifies "mem:*lattice.Node" if cap(la.Output) > 0 && aid($r) == base(la.Output);
  modifies "lattice.Node.*" fresh;
  ensures len(la.Output) == vN(x, m);
  ensures forall o {la.Output[o]} :: 0 <= o < len(la.Output) ==> la.Output[o] != nil && outOK(la.Output[o], x, m, o);
  ensures apart(la) && noDup(la);
  ensures [C05] cap(la.Output) > 0 ==> fresh(la.Output) || base(la.Output) == old(base(la.Output)) && old(cap(la.Output)) > 0;
  loop 0 {
    head chainStart(x, m);
    head chainBos(x, m);
    head chain(x, m, $k);
    head chainNext(x, m, $k);
    head oZero(x, m);
    head oWpos(x, m, $k);
    head vWhole(x, m, $k);
    decreases chN(x, m) - $k;
    invariant 0 <= $k && $k <= chN(x, m) && (p == nil <==> $k == chN(x, m));
    invariant p != nil ==> p == old(la.list[chP(x, m, $k)][chJ(x, m, $k)]);
    invariant len(la.Output) == oC(x, m, $k) && 0 <= oC(x, m, $k);
    invariant cap(la.Output) > 0 ==> base(la.Output) >= old(next()) || base(la.Output) == old(base(la.Output)) && old(cap(la.Output)) > 0;
    invariant forall o {la.Output[o]} :: 0 <= o < len(la.Output) ==> la.Output[o] != nil && outOK(la.Output[o], x, m, o);
  }
  loop 1 {
    invariant forall o {la.Output[o]} :: 0 <= o < oC(x, m, $k0) ==> la.Output[o] != nil && outOK(la.Output[o], x, m, o);
    invariant i == $k && len(stack) == $k && cap(stack) == runeLen && off(stack) == 0;
    invariant charsOK(stack, p, $k) && base(stack) >= old(next()) && base(stack) != base(la.Output);
  }
  loop 2 {
    head vSplit(x, m, $k0, $k);
    head vSplit(x, m, $k0, 0);
    decreases runeLen - $k;
    invariant $k <= len(stack) && len(stack) == runeLen && base(stack) != base(la.Output);
    invariant charsOK(stack, p, runeLen);
    invariant len(la.Output) == oC(x, m, $k0) + $k;
    invariant cap(la.Output) > 0 ==> base(la.Output) >= old(next()) || base(la.Output) == old(base(la.Output)) && old(cap(la.Output)) > 0;
    invariant forall o {la.Output[o]} :: 0 <= o < len(la.Output) ==> la.Output[o] != nil && outOK(la.Output[o], x, m, o);
  }
}
