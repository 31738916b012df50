// The list of words that an analysis returns, and what holds of it (C01, C02, C07).
// Output entries are listed from EOS (o = 0) to BOS (o = vN-1).
lemma oCover(x int, m int, o int, a int) [V] {
  requires okD(x) && 0 <= a && a < chN(x, m) && oC(x, m, a) <= o && o < vN(x, m);
  ensures a <= oI(x, m, o, a) && oI(x, m, o, a) < chN(x, m) && oC(x, m, oI(x, m, o, a)) <= o && o < oC(x, m, oI(x, m, o, a)+1);
  use a + 1 < chN(x, m) && o >= oC(x, m, a+1) ==> oCover(x, m, o, a+1);
  use a + 1 >= chN(x, m) ==> oC(x, m, a+1) == vN(x, m);
  induction chN(x, m) - a;
}
lemma vWhere(x int, m int, o int) [V] {
  requires okD(x) && 0 <= o && o < vN(x, m);
  ensures 0 <= vI(x, m, o) && vI(x, m, o) < chN(x, m) && oC(x, m, vI(x, m, o)) <= o && o < oC(x, m, vI(x, m, o)) + oW(x, m, vI(x, m, o));
  use chainBos(x, m);
  use oZero(x, m);
  use oCover(x, m, o, 0);
  use oNext(x, m, vI(x, m, o));
}
lemma vEnds(x int, m int) [V] {
  requires okD(x);
  ensures 2 <= vN(x, m) && vI(x, m, 0) == 0 && vI(x, m, vN(x, m)-1) == chN(x, m)-1;
  ensures vS(x, m, 0) == rc(ps(x)) && vE(x, m, 0) == rc(ps(x)) && vId(x, m, 0) == tok.BosEosID && vCls(x, m, 0) == tok.DUMMY;
  ensures vS(x, m, vN(x, m)-1) == 0 && vE(x, m, vN(x, m)-1) == 0 && vId(x, m, vN(x, m)-1) == tok.BosEosID && vCls(x, m, vN(x, m)-1) == tok.DUMMY;
  ensures !splitAt(x, m, 0) && !splitAt(x, m, chN(x, m)-1) && oC(x, m, chN(x, m)-1) == vN(x, m)-1 && oC(x, m, 0) == 0 && oC(x, m, 1) == 1;
  use chainStart(x, m);
  use chainBos(x, m);
  use nCls(x, 0, 0) == tok.DUMMY && nCls(x, rc(ps(x))+1, 0) == tok.DUMMY;
  use nId(x, 0, 0) == tok.BosEosID && nId(x, rc(ps(x))+1, 0) == tok.BosEosID;
  use nStart(x, 0, 0) == 0 && nStart(x, rc(ps(x))+1, 0) == rc(ps(x));
  use oZero(x, m);
  use vWhole(x, m, 0);
  use vWhole(x, m, chN(x, m)-1);
  use oMono(x, m, 0, chN(x, m));
}
lemma vWord(x int, m int, o int) [V] {
  requires okD(x) && 0 < o && o < vN(x, m)-1;
  ensures 0 < vI(x, m, o) && vI(x, m, o) < chN(x, m)-1;
  ensures 0 <= vS(x, m, o) && vS(x, m, o) < vE(x, m, o) && vE(x, m, o) <= rc(ps(x)) && 0 <= vId(x, m, o);
  ensures splitAt(x, m, vI(x, m, o)) ==> vCls(x, m, o) == tok.DUMMY && vE(x, m, o) == vS(x, m, o) + 1 && m == lattice.Extended;
  ensures !splitAt(x, m, vI(x, m, o)) ==> vCls(x, m, o) == tok.KNOWN || vCls(x, m, o) == tok.UNKNOWN && m != lattice.Extended || vCls(x, m, o) == tok.USER;
  use vEnds(x, m);
  use vWhere(x, m, o);
  use vWhere(x, m, 0);
  use oNext(x, m, 0);
  use vI(x, m, o) == 0 ==> o < 1;
  use vI(x, m, o) == chN(x, m)-1 ==> oC(x, m, vI(x, m, o)) == vN(x, m)-1;
  use chain(x, m, vI(x, m, o));
  use nodeRange(x, chP(x, m, vI(x, m, o)), chJ(x, m, vI(x, m, o)));
}
// each entry starts where the next one (the word before it) ends
lemma vNext(x int, m int, o int) [V] {
  requires okD(x) && 0 <= o && o < vN(x, m)-1;
  ensures vE(x, m, o+1) == vS(x, m, o);
  use vWhere(x, m, o);
  use vWhere(x, m, o+1);
  use oNext(x, m, vI(x, m, o));
  use chain(x, m, vI(x, m, o));
  use chainNext(x, m, vI(x, m, o));
  use o + 1 < oC(x, m, vI(x, m, o)+1) ==> vOf(x, m, vI(x, m, o), o + 1 - oC(x, m, vI(x, m, o)));
  use vI(x, m, o)+1 < chN(x, m) ==> chain(x, m, vI(x, m, o)+1);
  use vI(x, m, o)+1 < chN(x, m) ==> oWpos(x, m, vI(x, m, o)+1);
  use vI(x, m, o)+1 < chN(x, m) && o + 1 == oC(x, m, vI(x, m, o)+1) ==> vOf(x, m, vI(x, m, o)+1, 0);
  use vI(x, m, o)+1 < chN(x, m) && o + 1 == oC(x, m, vI(x, m, o)+1) ==> vI(x, m, o+1) == vI(x, m, o)+1;
}
lemma vSpan(x int, m int, o int) [V] {
  requires okD(x) && 0 <= o && o < vN(x, m);
  ensures 0 <= vS(x, m, o) && vS(x, m, o) <= vE(x, m, o) && vE(x, m, o) <= rc(ps(x));
  ensures rc(vSurf(x, m, o)) == vE(x, m, o) - vS(x, m, o) && len(vSurf(x, m, o)) == bp(ps(x), vE(x, m, o)) - bp(ps(x), vS(x, m, o));
  ensures vId(x, m, o) == tok.BosEosID <==> o == 0 || o == vN(x, m)-1;
  ensures o == 0 || o == vN(x, m)-1 ==> vSurf(x, m, o) == "" && vCls(x, m, o) == tok.DUMMY;
  ensures 0 < o && o < vN(x, m)-1 ==> vSurf(x, m, o) != "" && (m != lattice.Extended ==> vCls(x, m, o) != tok.DUMMY);
  use vEnds(x, m);
  use 0 < o && o < vN(x, m)-1 ==> vWord(x, m, o);
}
// C06: the id of an entry is one the tables of its class have
lemma entryTables(x int, d *dict.Dict, u *dict.UserDict, m int, o int) [C06] {
  requires okD(x) && pd(x) == d && pu(x) == u && sized(d) && tables(d, u) && 0 <= o && o < vN(x, m);
  ensures vCls(x, m, o) == tok.KNOWN ==> 0 <= vId(x, m, o) && vId(x, m, o) < len(d.POSTable.POSs) && (d.Contents != nil ==> vId(x, m, o) < len(d.Contents));
  ensures vCls(x, m, o) == tok.UNKNOWN ==> 0 <= vId(x, m, o) && vId(x, m, o) < len(d.UnkDict.Contents);
  ensures vCls(x, m, o) == tok.USER ==> u != nil && 0 <= vId(x, m, o) && vId(x, m, o) < len(u.Contents);
  use vWhere(x, m, o);
  use chain(x, m, vI(x, m, o));
  use nodeTables(x, d, u, chP(x, m, vI(x, m, o)), chJ(x, m, vI(x, m, o)));
}
