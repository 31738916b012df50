// cmd/tokenize, cmd/server (C15)
import bufio "bufio"
import bytes "bytes"
import json "encoding/json"
import http "net/http"
import io "io"

// ---------- output ----------
// ghost out: what has reached Stdout (or the client of a request); ghost outPend: what buffered writers to Stdout still hold
sym wDest(b *bufio.Writer) io.Writer;
extern func bufio.NewWriter(w)(b) {
  modifies "next";
  ensures b != nil && fresh(b) && wDest(b) == w;
}
macro buffered(b, x string) =
  (wDest(b) == cmdTok.Stdout ==> ghost("outPend") == old(ghost("outPend")) + x) && (wDest(b) != cmdTok.Stdout ==> ghost("outPend") == old(ghost("outPend")));
extern func (*bufio.Writer).WriteString(b, s)(n, err) {
  modifies "ghost:outPend";
  ensures buffered(b, s);
}
extern func (*bufio.Writer).Write(b, p)(n, err) {
  modifies "ghost:outPend";
  ensures buffered(b, bstr(p));
}
extern func (*bufio.Writer).WriteByte(b, c)(err) {
  modifies "ghost:outPend";
  ensures c == '\n' ==> buffered(b, "\n");
  ensures c == '\t' ==> buffered(b, "\t");
  ensures c == ',' ==> buffered(b, ",");
}
extern func (*bufio.Writer).WriteRune(b, c)(n, err) {
  modifies "ghost:outPend";
  ensures c == '\n' ==> buffered(b, "\n");
  ensures c == '\t' ==> buffered(b, "\t");
  ensures c == ',' ==> buffered(b, ",");
}
extern func (*bufio.Writer).Flush(b)(err) {
  modifies "ghost:outPend", "ghost:out";
  ensures wDest(b) == cmdTok.Stdout ==> ghost("out") == old(ghost("out")) + old(ghost("outPend")) && ghost("outPend") == "";
  ensures wDest(b) != cmdTok.Stdout ==> ghost("out") == old(ghost("out")) && ghost("outPend") == old(ghost("outPend"));
}

// ---------- plain output ----------
// the first n features of a token
rec featJ(t tok.Token, n int, sep string) string = if n <= 0 then "" else if n == 1 then featAt(t, 0) else featJ(t, n-1, sep) + sep + featAt(t, n-1);
lemma featJoin(r []string, t tok.Token, n int, sep string) [C15] {
  requires forall i {idx(i)} :: idx(i) && 0 <= i < n ==> r[i] == old(featAt(t, i));
  ensures joinUpTo(r, n, sep) == old(featJ(t, n, sep));
  use 0 < n ==> idx(n-1) && idx(0);
  use 0 < n ==> featJoin(r, t, n-1, sep);
  induction n;
}
macro line(t tok.Token) = if t.ID == tok.BosEosID then "" else t.Surface + ((if t.Class == tok.DUMMY then "" else "\t" + featJ(t, featLen(t), ",")) + "\n");
rec plain(ts []tok.Token, n int) string = if n <= 0 then "" else plain(ts, n-1) + line(ts[n-1]);
lemma plainNext(ts []tok.Token, n int) [C15] {
  ensures old(plain(ts, 0)) == "";
  ensures 0 < n ==> old(plain(ts, n)) == old(plain(ts, n-1)) + old(line(ts[n-1]));
}
func cmdTok.printTokens(tokens)() {
  props C15;
  opaque plain, featJ;
  requires ghost("outPend") == "";
  ensures ghost("outPend") == "" && ghost("out") == old(ghost("out") + (plain(tokens, len(tokens)) + "EOS\n"));
  hint plainNext(tokens, 0);
  after "Features" forall i {idx(i)} :: idx(i) && 0 <= i < len($r) ==> $r[i] == old(featAt($t, i));
  after "Features" featJoin($r, $t, len($r), ",");
  loop 0 {
    head plainNext(tokens, $k+1);
    head plainNext(tokens, 0);
    invariant ghost("out") == old(ghost("out"));
    invariant ghost("outPend") == old(plain(tokens, $k));
  }
}

// ---------- JSON ----------
// the JSON text of a token's data, a function of the values of its fields
sym jsonTok(id int, start int, end int, surface string, class string, pos int, base string, reading string, pron string, features int) string;
rec vecOf(s []string, n int) int = if n <= 0 then vnil() else vsnoc(vecOf(s, n-1), s[n-1]);
rec featV(t tok.Token, n int) int = if n <= 0 then vnil() else vsnoc(featV(t, n-1), featAt(t, n-1));
macro tokField(t, key string) = if hasMeta(t, key) && 0 <= metaIdx(t, key) < featLen(t) then featAt(t, metaIdx(t, key)) else "";
macro dataJSON(d) = jsonTok(d.ID, d.Start, d.End, d.Surface, d.Class, vecOf(d.POS, len(d.POS)), d.BaseForm, d.Reading, d.Pronunciation, vecOf(d.Features, len(d.Features)));
macro tokJSON(t) = jsonTok(t.ID, t.Start, t.End, t.Surface, className(t.Class), posV(t, posLen(t)), tokField(t, dict.BaseFormIndex), tokField(t, dict.ReadingIndex), tokField(t, dict.PronunciationIndex), featV(t, featLen(t)));
// what is printed for the first n tokens: one text for each but BOS and EOS
rec jv(ts []tok.Token, n int) int = if n <= 0 then vnil() else if ts[n-1].ID == tok.BosEosID then jv(ts, n-1) else vsnoc(jv(ts, n-1), tokJSON(ts[n-1]));
lemma jvNext(ts []tok.Token, n int) [C15] {
  ensures old(jv(ts, 0)) == vnil();
  ensures 0 < n ==> old(jv(ts, n)) == (if old(ts[n-1].ID) == tok.BosEosID then old(jv(ts, n-1)) else vsnoc(old(jv(ts, n-1)), old(tokJSON(ts[n-1]))));
}
lemma vecPOS(r []string, t tok.Token, n int) [C15] {
  requires forall i {idx(i)} :: idx(i) && 0 <= i < n ==> r[i] == old(posAt(t, i));
  ensures vecOf(r, n) == old(posV(t, n));
  use 0 < n ==> idx(n-1);
  use 0 < n ==> vecPOS(r, t, n-1);
  induction n;
}
lemma vecFeat(r []string, t tok.Token, n int) [C15] {
  requires forall i {idx(i)} :: idx(i) && 0 <= i < n ==> r[i] == old(featAt(t, i));
  ensures vecOf(r, n) == old(featV(t, n));
  use 0 < n ==> idx(n-1);
  use 0 < n ==> vecFeat(r, t, n-1);
  induction n;
}
// elements of a vector with a separator
rec vJoin(v int, n int, sep string) string = if n <= 0 then "" else if n == 1 then vat(v, 0) else vJoin(v, n-1, sep) + sep + vat(v, n-1);
rec bJoin(a [][]byte, n int, sep string) string = if n <= 0 then "" else if n == 1 then bstr(a[0]) else bJoin(a, n-1, sep) + sep + bstr(a[n-1]);
lemma bJoinVec(a [][]byte, v int, n int, sep string) [C15] {
  requires forall i {idx(i)} :: idx(i) && 0 <= i < n ==> bstr(a[i]) == vat(v, i);
  ensures bJoin(a, n, sep) == vJoin(v, n, sep);
  use 0 < n ==> idx(n-1) && idx(0);
  use 0 < n ==> bJoinVec(a, v, n-1, sep);
  induction n;
}
extern func bytes.Join(s, sep)(r) {
  modifies "next";
  modifies "mem:uint8" fresh;
  ensures bstr(r) == bJoin(s, len(s), bstr(sep));
}
// the JSON text of the response body of the server
sym jsonResp(status bool, none bool, tokens int) string;
rec tdV(ds []tok.TokenData, n int) int = if n <= 0 then vnil() else vsnoc(tdV(ds, n-1), dataJSON(ds[n-1]));
// encoding such data cannot fail
extern func json.Marshal(v)(b, err) {
  modifies "next";
  modifies "mem:uint8" fresh;
  ensures b != nil && fresh(b);
  ensures dyn(v, "cmd_server.TokenizerResponseBody", err == nil && bstr(b) == old(jsonResp($dyn.Status, $dyn.Tokens == nil, tdV($dyn.Tokens, len($dyn.Tokens)))));
  ensures dyn(v, "tokenizer.TokenData", err == nil && bstr(b) == old(dataJSON($dyn)));
}
macro jsonOut(ts) = (if 0 < len(ts) then "[\n" else "") + (vJoin(jv(ts, len(ts)), vlen(jv(ts, len(ts))), ",\n") + (if 0 < len(ts) then "\n]\n" else ""));
func cmdTok.printTokensJSON(tokens)(err) {
  props C15;
  requires forall i {tokens[i]} :: 0 <= i < len(tokens) ==> tokWF(tokens[i]);
  opaque jv, posV, featV, vecOf, vJoin, bJoin;
  requires ghost("outPend") == "";
  ensures err == nil;
  ensures ghost("outPend") == "" && ghost("out") == old(ghost("out") + jsonOut(tokens));
  after "NewTokenData" forall i {idx(i)} :: idx(i) && 0 <= i < len($r.POS) ==> $r.POS[i] == old(posAt($t, i));
  after "NewTokenData" forall i {idx(i)} :: idx(i) && 0 <= i < len($r.Features) ==> $r.Features[i] == old(featAt($t, i));
  after "NewTokenData" vecPOS($r.POS, $t, len($r.POS));
  after "NewTokenData" vecFeat($r.Features, $t, len($r.Features));
  after "NewTokenData" dataJSON($r) == old(tokJSON($t));
  after "Join" forall i {idx(i)} :: idx(i) && 0 <= i < len(array) ==> bstr(array[i]) == vat(old(jv(tokens, len(tokens))), i);
  after "Join" bJoinVec(array, old(jv(tokens, len(tokens))), len(array), ",\n");
  after "Join" bstr($sep) == ",\n";
  after "Join" bstr($r) == vJoin(old(jv(tokens, len(tokens))), vlen(old(jv(tokens, len(tokens)))), ",\n");
  loop 0 {
    head jvNext(tokens, $k+1);
    head jvNext(tokens, 0);
    invariant ghost("out") == old(ghost("out"));
    invariant ghost("outPend") == (if 0 < len(tokens) then "[\n" else "");
    invariant len(array) == vlen(old(jv(tokens, $k)));
    invariant forall i {idx(i)} :: idx(i) && 0 <= i < len(array) ==> bstr(array[i]) == vat(old(jv(tokens, $k)), i);
    invariant cap(array) > 0 ==> fresh(array);
    invariant forall i {array[i]} :: 0 <= i < len(array) ==> fresh(array[i]);
  }
}

// ---------- HTTP ----------
// what a request holds: the n-th value decoded from its body, with the fields that are not mentioned left as they were
sym decSrc(d *json.Decoder) io.Reader;
sym reqOK(src io.Reader, n int) bool;
sym reqSentence(src io.Reader, n int, was string) string;
sym reqMode(src io.Reader, n int, was string) string;
extern func json.NewDecoder(r)(d) {
  modifies "next";
  ensures d != nil && fresh(d) && decSrc(d) == r;
}
extern func (*json.Decoder).Decode(d, v)(err) {
  modifies "cmd_server.TokenizerRequestBody.Input", "cmd_server.TokenizerRequestBody.Mode", "ghost:reads";
  ensures ghost("reads") == old(ghost("reads")) + 1;
  ensures (err == nil) == reqOK(decSrc(d), old(ghost("reads")));
  ensures dyn(v, "*cmd_server.TokenizerRequestBody", err == nil ==> $dyn.Input == reqSentence(decSrc(d), old(ghost("reads")), old($dyn.Input)) && $dyn.Mode == reqMode(decSrc(d), old(ghost("reads")), old($dyn.Mode)));
}
// ghost outResp: what was written to the client
extern func (http.ResponseWriter).Header(w)(h) {}
extern func (http.ResponseWriter).Write(w, b)(n, err) {
  modifies "ghost:outResp";
  ensures ghost("outResp") == old(ghost("outResp")) + bstr(b);
}
extern func (http.ResponseWriter).WriteHeader(w, c)() {
  modifies "ghost:status";
  ensures ghost("status") == c;
}
extern func (http.Header).Set(h, k, v)() {
  modifies "mapdom:string:[]string*", "mapval:string:[]string*", "next";
}
extern func http.Error(w, msg, c)() {
  modifies "ghost:outResp", "ghost:status", "mapdom:string:[]string*", "mapval:string:[]string*", "next";
}
extern func fmt.Sprintf(format, args)(s) {}
macro reqModeOf(m string) = if m == "Search" then tok.Search else if m == "Extended" then tok.Extended else tok.Normal;
lemma tdVec(ds []tok.TokenData, ts []tok.Token, k int) [C15] {
  requires forall i {idx(i)} :: idx(i) && 0 <= i < vlen(jv(ts, k)) ==> dataJSON(ds[i]) == vat(jv(ts, k), i);
  ensures tdV(ds, vlen(jv(ts, k))) == jv(ts, k);
  use 0 < vlen(jv(ts, k)) ==> idx(vlen(jv(ts, k)) - 1);
  use 0 < k ==> tdVec(ds, ts, k-1);
  induction k;
}
lemma jvStep(ts []tok.Token, n int) [C15] {
  ensures jv(ts, 0) == vnil();
  ensures 0 < n ==> jv(ts, n) == (if ts[n-1].ID == tok.BosEosID then jv(ts, n-1) else vsnoc(jv(ts, n-1), tokJSON(ts[n-1])));
}
lemma vecPOSnow(r []string, t tok.Token, n int) [C15] {
  requires forall i {idx(i)} :: idx(i) && 0 <= i < n ==> r[i] == posAt(t, i);
  ensures vecOf(r, n) == posV(t, n);
  use 0 < n ==> idx(n-1);
  use 0 < n ==> vecPOSnow(r, t, n-1);
  induction n;
}
lemma vecFeatNow(r []string, t tok.Token, n int) [C15] {
  requires forall i {idx(i)} :: idx(i) && 0 <= i < n ==> r[i] == featAt(t, i);
  ensures vecOf(r, n) == featV(t, n);
  use 0 < n ==> idx(n-1);
  use 0 < n ==> vecFeatNow(r, t, n-1);
  induction n;
}
func (*cmdSrv.TokenizeHandler).ServeHTTP(h, w, r)() {
  props C15;
  opaque jv, posV, featV, vecOf, tdV;
  let src = r.Body;
  let sentence = reqSentence(src, 0, "");
  let mode = reqModeOf(reqMode(src, 0, ""));
  requires h.tokenizer != nil && wfTok(h.tokenizer, reqSentence(r.Body, 0, "")) && connTable(h.tokenizer.dict) && tables(h.tokenizer.dict, h.tokenizer.userDict);
  requires ghost("reads") == 0 && ghost("status") == 0 && ghost("analyses") == 0;
  modifies "cmd_server.TokenizerRequestBody.*", "mapdom:string:[]string*", "mapval:string:[]string*", "pool:*", "lattice.*", "mem:[]*lattice.Node", "mem:*lattice.Node";
  ensures reqOK(src, 0) && sentence == "" ==> ghost("outResp") == old(ghost("outResp")) + "{\"status\":true,\"tokens\":[]}";
  ensures reqOK(src, 0) && sentence != "" ==> ghost("analyses") == 1 && ghost("outSentence") == sentence && ghost("mode") == mode;
  ensures reqOK(src, 0) && sentence != "" ==> ghost("outResp") == old(ghost("outResp")) + jsonResp(true, false, ghost("vec")) || (vlen(ghost("vec")) == 0 && ghost("outResp") == old(ghost("outResp")) + jsonResp(true, true, ghost("vec")));
  ensures reqOK(src, 0) ==> ghost("status") == 0 || ghost("status") == 200;
  after "Analyze" $t.dict == old(h.tokenizer.dict) && $t.userDict == old(h.tokenizer.userDict) && $t.omitBosEos == old(h.tokenizer.omitBosEos);
  after "Analyze" set outSentence = $input;
  after "Analyze" set mode = $mode;
  after "Analyze" set analyses = ghost("analyses") + 1;
  after "Analyze" set vec = jv($r, len($r));
  after "NewTokenData" vecPOSnow($r.POS, $t, len($r.POS));
  after "NewTokenData" vecFeatNow($r.Features, $t, len($r.Features));
  after "NewTokenData" dataJSON($r) == tokJSON($t);
  after "Marshal" tdVec(tokenData, tokens, len(tokens));
  loop 0 {
    head jvStep(tokens, $k+1);
    head jvStep(tokens, 0);
    invariant len(tokenData) == vlen(jv(tokens, $k));
    invariant forall i {idx(i)} :: idx(i) && 0 <= i < len(tokenData) ==> dataJSON(tokenData[i]) == vat(jv(tokens, $k), i);
    invariant cap(tokenData) > 0 ==> fresh(tokenData);
    invariant (tokenData == nil) == (vlen(jv(tokens, $k)) == 0);
  }
}
