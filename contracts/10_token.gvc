// tokenizer/token.go

macro kPOS(t tok.Token) = t.dict.POSTable.POSs[t.ID];
macro kCon(t tok.Token) = t.dict.Contents[t.ID];
macro uCon(t tok.Token) = t.dict.UnkDict.Contents[t.ID];
macro xCon(t tok.Token) = t.udict.Contents[t.ID];

// the feature list of a token
macro featLen(t tok.Token) =
  if t.Class == tok.KNOWN then len(kPOS(t)) + (if t.dict.Contents != nil then len(kCon(t)) else 0)
  else if t.Class == tok.UNKNOWN then len(uCon(t))
  else if t.Class == tok.USER then 3
  else 0;
macro featAt(t tok.Token, i int) =
  if t.Class == tok.KNOWN then
    (if i < len(kPOS(t)) then t.dict.POSTable.NameList[kPOS(t)[i]] else kCon(t)[i-len(kPOS(t))])
  else if t.Class == tok.UNKNOWN then uCon(t)[i]
  else if i == 0 then xCon(t).Pos
  else if i == 1 then joined(xCon(t).Tokens, "/")
  else joined(xCon(t).Yomi, "/");

// the part-of-speech list of a token
macro uStart(t tok.Token) = if dom(t.dict.UnkDict.ContentsMeta, dict.POSStartIndex) then t.dict.UnkDict.ContentsMeta[dict.POSStartIndex] else 0;
macro uEnd(t tok.Token) = if dom(t.dict.UnkDict.ContentsMeta, dict.POSHierarchy) then uStart(t) + t.dict.UnkDict.ContentsMeta[dict.POSHierarchy] else 1;
macro uPosOk(t tok.Token) = uStart(t) < uEnd(t) && uEnd(t) <= len(uCon(t));
macro posLen(t tok.Token) =
  if t.Class == tok.KNOWN then len(kPOS(t))
  else if t.Class == tok.UNKNOWN then (if uPosOk(t) then uEnd(t) - uStart(t) else 0)
  else if t.Class == tok.USER then 1
  else 0;
macro posAt(t tok.Token, i int) =
  if t.Class == tok.KNOWN then t.dict.POSTable.NameList[kPOS(t)[i]]
  else if t.Class == tok.UNKNOWN then uCon(t)[uStart(t)+i]
  else xCon(t).Pos;

macro sameStrings(a []string, n int, b []string, m int) = n == m && forall i {a[i]} {b[i]} {idx(i)} :: idx(i) && 0 <= i < n ==> a[i] == b[i];

// what every token of an analysis with a well-formed dictionary satisfies (see C06)
macro dictWF(d *dict.Dict) =
  (forall i, j {d.POSTable.POSs[i][j]} :: 0 <= i < len(d.POSTable.POSs) && 0 <= j < len(d.POSTable.POSs[i]) ==> d.POSTable.POSs[i][j] < len(d.POSTable.NameList));
macro tokWF(t tok.Token) =
  (t.Class == tok.KNOWN ==> t.dict != nil && 0 <= t.ID < len(t.dict.POSTable.POSs) && dictWF(t.dict) && (t.dict.Contents != nil ==> t.ID < len(t.dict.Contents)))
  && (t.Class == tok.UNKNOWN ==> t.dict != nil && 0 <= t.ID < len(t.dict.UnkDict.Contents)
       && (dom(t.dict.UnkDict.ContentsMeta, dict.POSStartIndex) ==> 0 <= t.dict.UnkDict.ContentsMeta[dict.POSStartIndex])
       && (dom(t.dict.UnkDict.ContentsMeta, dict.POSHierarchy) ==> 0 <= t.dict.UnkDict.ContentsMeta[dict.POSHierarchy]))
  && (t.Class == tok.USER ==> t.udict != nil && 0 <= t.ID < len(t.udict.Contents));

func (tok.Token).Features(t)(r) {
  props C06, C08, C09;
  requires [C06] tokWF(t);
  ensures len(r) == featLen(t);
  ensures forall i {r[i]} {idx(i)} :: 0 <= i < len(r) ==> r[i] == featAt(t, i);
  ensures [C15, C19] r == nil <==> !(t.Class == tok.KNOWN || t.Class == tok.UNKNOWN || t.Class == tok.USER);
  ensures [C09] r == nil || fresh(r);
  loop 0 {
    invariant len(features) == $k;
    invariant fresh(features);
    invariant forall i {features[i]} :: 0 <= i < $k ==> features[i] == t.dict.POSTable.NameList[kPOS(t)[i]];
  }
  loop 1 {
    invariant len(features) == len(uCon(t));
    invariant forall i {features[i]} :: 0 <= i < $k ==> features[i] == uCon(t)[i];
  }
}

func (tok.Token).FeatureAt(t, i)(r, ok) {
  props C06, C08;
  requires [C06, C08, C12, C15, C19] tokWF(t);
  ensures [C08, C12, C15, C19] ok <==> 0 <= i < featLen(t);
  ensures [C08, C12, C15, C19] ok ==> r == featAt(t, i);
  ensures [C08, C12, C15, C19] !ok ==> r == "";
}

func (tok.Token).POS(t)(r) {
  props C06, C08, C09;
  requires [C06] tokWF(t);
  ensures len(r) == posLen(t);
  ensures forall i {r[i]} {idx(i)} :: 0 <= i < len(r) ==> r[i] == posAt(t, i);
  ensures [C09] r == nil || fresh(r);
  loop 0 {
    invariant len(ret) == $k;
    invariant fresh(ret);
    invariant forall i {ret[i]} :: 0 <= i < $k ==> ret[i] == t.dict.POSTable.NameList[kPOS(t)[i]];
  }
  loop 1 {
    invariant len(ret) == $k;
    invariant fresh(ret);
    invariant $k <= uEnd(t) - uStart(t);
    invariant forall i {ret[i]} :: 0 <= i < $k ==> ret[i] == uCon(t)[uStart(t)+i];
    decreases uEnd(t) - uStart(t) - $k;
  }
}

func (tok.Token).UserExtra(t)(r) {
  props C06, C08, C09;
  requires [C06] tokWF(t);
  ensures [C08] r == nil <==> t.Class != tok.USER;
  ensures [C08] r != nil ==> sameStrings(r.Tokens, len(r.Tokens), xCon(t).Tokens, len(xCon(t).Tokens));
  ensures [C08] r != nil ==> sameStrings(r.Readings, len(r.Readings), xCon(t).Yomi, len(xCon(t).Yomi));
  ensures [C09] r != nil ==> fresh(r) && fresh(r.Tokens) && fresh(r.Readings) && base(r.Tokens) != base(r.Readings);
}

func tok.EqualFeatures(lhs, rhs)(r) {
  props C06, C18;
  ensures r <==> sameStrings(lhs, len(lhs), rhs, len(rhs));
  loop 0 {
    invariant len(lhs) == len(rhs) && $k <= len(lhs);
    invariant forall j {lhs[j]} {rhs[j]} :: 0 <= j < $k ==> lhs[j] == rhs[j];
    decreases len(lhs) - $k;
  }
}

func (tok.Token).EqualFeatures(t, tt)(r) {
  props C06, C18;
  requires [C06] tokWF(t) && tokWF(tt);
  ensures [C18] r <==> featLen(t) == featLen(tt) && forall i {idx(i)} :: idx(i) && 0 <= i < featLen(t) ==> featAt(t, i) == featAt(tt, i);
}
func (tok.Token).EqualPOS(t, tt)(r) {
  props C06, C18;
  requires [C06] tokWF(t) && tokWF(tt);
  ensures [C18] r <==> posLen(t) == posLen(tt) && forall i {idx(i)} :: idx(i) && 0 <= i < posLen(t) ==> posAt(t, i) == posAt(tt, i);
}
func (tok.Token).Equal(t, v)(r) {
  props C18;
  ensures [C18] r <==> t.ID == v.ID && t.Class == v.Class && t.Surface == v.Surface;
}

// features the dictionary declares an index for
macro hasMeta(t tok.Token, key string) =
  (t.Class == tok.KNOWN && dom(t.dict.ContentsMeta, key)) || (t.Class == tok.UNKNOWN && dom(t.dict.UnkDict.ContentsMeta, key));
macro metaIdx(t tok.Token, key string) = if t.Class == tok.KNOWN then t.dict.ContentsMeta[key] else t.dict.UnkDict.ContentsMeta[key];
macro picked(t tok.Token, key string, r string, ok bool) =
  (ok <==> hasMeta(t, key) && 0 <= metaIdx(t, key) < featLen(t)) && (ok ==> r == featAt(t, metaIdx(t, key))) && (!ok ==> r == "");
macro metaWF(t tok.Token) = tokWF(t) && ((t.Class == tok.KNOWN || t.Class == tok.UNKNOWN) ==> t.dict != nil);

func (tok.Token).InflectionalType(t)(r, ok) {
  props C06, C08;
  requires [C06, C08] tokWF(t);
  ensures [C08] picked(t, dict.InflectionalType, r, ok);
}
func (tok.Token).InflectionalForm(t)(r, ok) {
  props C06, C08;
  requires [C06, C08] tokWF(t);
  ensures [C08] picked(t, dict.InflectionalForm, r, ok);
}
func (tok.Token).BaseForm(t)(r, ok) {
  props C06, C08;
  requires [C06, C08, C12, C15, C19] tokWF(t);
  ensures [C08, C12, C15, C19] picked(t, dict.BaseFormIndex, r, ok);
}
func (tok.Token).Reading(t)(r, ok) {
  props C06, C08;
  requires [C06, C08, C15, C19] tokWF(t);
  ensures [C08, C15, C19] picked(t, dict.ReadingIndex, r, ok);
}
func (tok.Token).Pronunciation(t)(r, ok) {
  props C06, C08;
  requires [C06, C08, C15, C19] tokWF(t);
  ensures [C08, C15, C19] picked(t, dict.PronunciationIndex, r, ok);
}
macro className(c int) = if c == tok.DUMMY then "DUMMY" else if c == tok.KNOWN then "KNOWN" else if c == tok.UNKNOWN then "UNKNOWN" else if c == tok.USER then "USER" else "";
func (tok.TokenClass).String(c)(r) {
  props C06, C19;
  ensures [C15, C19] r == className(c);
}

macro pickedOr(t tok.Token, key string, r string) =
  if hasMeta(t, key) && 0 <= metaIdx(t, key) < featLen(t) then r == featAt(t, metaIdx(t, key)) else r == "";

func tok.NewTokenData(t)(r) {
  props C06, C15, C19;
  quiet;
  requires [C06, C15, C19] tokWF(t);
  ensures [C15, C19] r.ID == t.ID && r.Start == t.Start && r.End == t.End && r.Surface == t.Surface;
  ensures [C15, C19] r.Class == className(t.Class);
  ensures [C15, C19] r.POS != nil && len(r.POS) == posLen(t);
  ensures [C15, C19] forall i {r.POS[i]} {idx(i)} :: 0 <= i < posLen(t) ==> r.POS[i] == posAt(t, i);
  ensures [C15, C19] r.Features != nil && len(r.Features) == featLen(t);
  ensures [C15, C19] forall i {r.Features[i]} {idx(i)} :: 0 <= i < featLen(t) ==> r.Features[i] == featAt(t, i);
  ensures [C15, C19] pickedOr(t, dict.BaseFormIndex, r.BaseForm);
  ensures [C15, C19] pickedOr(t, dict.ReadingIndex, r.Reading);
  ensures [C15, C19] pickedOr(t, dict.PronunciationIndex, r.Pronunciation);
}
