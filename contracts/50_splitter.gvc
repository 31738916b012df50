// filter/sentence_splitter.go (C13, C14)

sym isSp(r int) bool;           // unicode.IsSpace
sym full(s string) bool;        // utf8.FullRune
extern func unicode.IsSpace(r)(b) {
  pure;
  ensures b <==> isSp(r);
}
extern func utf8.FullRune(p)(b) {
  pure;
  ensures b <==> full(bstr(p));
}
extern func utf8.DecodeRune(p)(r, w) {
  pure;
  ensures len(p) == 0 ==> r == 65533 && w == 0;
  ensures len(p) > 0 ==> r == runeAt(bstr(p), 0) && w == bp(bstr(p), 1) && 1 <= w && w <= 4 && w <= len(p);
}

// ---------- C13: what is kept of a text ----------
// the first k characters of t, without white space if sk
rec keep(sk bool, t string, k int) string =
  if k <= 0 then "" else if sk && isSp(runeAt(t, k-1)) then keep(sk, t, k-1) else keep(sk, t, k-1) + t[bp(t, k-1):bp(t, k)];
lemma keepNone(sk bool, t string, k int) [C13, C14] {
  requires k <= 0;
  ensures keep(sk, t, k) == "";
}
lemma keepNext(sk bool, t string, k int) [C13, C14] {
  requires 0 < k;
  ensures keep(sk, t, k) == (if sk && isSp(runeAt(t, k-1)) then keep(sk, t, k-1) else keep(sk, t, k-1) + t[bp(t, k-1):bp(t, k)]);
}
// without skipping, everything is kept
lemma keepAll(t string, k int) [C13, C14] {
  requires 0 <= k && k <= rc(t);
  ensures keep(false, t, k) == t[0:bp(t, k)];
  use 0 < k ==> keepAll(t, k-1);
  use 0 < k ==> bp(t, k-1) <= bp(t, k);
  induction k;
}
lemma keepMore(sk bool, t string, i int, j int) [C13, C14] {
  requires 0 <= i && i <= j && j <= rc(t);
  ensures len(keep(sk, t, i)) <= len(keep(sk, t, j));
  use i < j ==> keepMore(sk, t, i, j-1);
  use i < j ==> bp(t, j-1) <= bp(t, j);
  induction j;
}
// a part of a text
lemma keepPart(sk bool, t string, a int, e int, m int) [C13, C14] {
  requires 0 <= a && a <= e && e <= rc(t) && 0 <= m && m <= e - a;
  ensures keep(sk, t, a + m) == keep(sk, t, a) + keep(sk, t[bp(t, a):bp(t, e)], m);
  use 0 < m ==> keepPart(sk, t, a, e, m-1);
  use 0 < m ==> runeAt(t[bp(t, a):bp(t, e)], m-1) == runeAt(t, a+m-1);
  use 0 < m ==> bp(t[bp(t, a):bp(t, e)], m-1) == bp(t, a+m-1) - bp(t, a) && bp(t[bp(t, a):bp(t, e)], m) == bp(t, a+m) - bp(t, a);
  use 0 < m ==> keepNext(sk, t, a+m);
  use 0 < m ==> keepNext(sk, t[bp(t, a):bp(t, e)], m);
  induction m;
}

func (filter.SentenceSplitter).compact(s, b)(c) {
  props C13, C14;
  let S = bstr(b);
  modifies "mem:uint8" if aid($r) == base(b) && off(b) <= rix($r) && rix($r) < off(b) + len(b);
  ensures base(c) == base(b) && off(c) == off(b) && len(c) <= len(b) && (c == nil <==> b == nil);
  hint !s.SkipWhiteSpace ==> keepAll(old(bstr(b)), rc(old(bstr(b))));
  ensures bstr(c) == keep(s.SkipWhiteSpace, old(bstr(b)), rc(old(bstr(b))));
  loop 0 {
    decreases len(b) - p;
    invariant 0 <= p && p <= len(b) && 0 <= end && end <= p;
    invariant isB(old(bstr(b)), p) && bstr(b[p:len(b)]) == old(bstr(b))[p:len(b)];
    hint (old(bstr(b))[p-size:len(b)])[size:len(b)-p+size] == old(bstr(b))[p:len(b)];
    hint end <= p && off(b) + end <= off(b[p:len(b)]);
    hint bstr(b[p:len(b)]) == old(bstr(b))[p:len(b)];
    hint bstr(b[0:end]) == (bstr(b))[0:end];
    hint !isSp(r) ==> bstr(b[0:end-size]) == (bstr(b))[0:end-size] && bstr(b[end-size:end]) == (bstr(b))[end-size:end];
    hint !isSp(r) ==> bstr(b[0:end]) == bstr(b[0:end-size]) + bstr(b[end-size:end]);
    hint !isSp(r) ==> bstr(b[end-size:end]) == (old(bstr(b)))[p-size:p];
    hint !isSp(r) ==> bstr(b[0:end-size]) == keep(true, old(bstr(b)), ridx(old(bstr(b)), p) - 1);
    hint isSp(r) ==> bstr(b[0:end]) == keep(true, old(bstr(b)), ridx(old(bstr(b)), p) - 1);
    hint bp(old(bstr(b)), ridx(old(bstr(b)), p) - 1) == p - size && runeAt(old(bstr(b)), ridx(old(bstr(b)), p) - 1) == r;
    invariant s.SkipWhiteSpace && bstr(b[0:end]) == keep(true, old(bstr(b)), ridx(old(bstr(b)), p));
  }
}

// ---------- C14: where a sentence ends ----------
rec inSet(l []rune, r int) bool = exists j {l[j]} :: 0 <= j < len(l) && l[j] == r;
func (filter.SentenceSplitter).isDelim(s, r)(b) {
  props C13, C14;
  pure;
  ensures b <==> inSet(s.Delim, r);
  loop 0 {
    invariant forall j {s.Delim[j]} :: 0 <= j < $k ==> s.Delim[j] != r;
  }
}
func (filter.SentenceSplitter).isFollower(s, r)(b) {
  props C13, C14;
  pure;
  ensures b <==> inSet(s.Follower, r);
  loop 0 {
    invariant forall j {s.Follower[j]} :: 0 <= j < $k ==> s.Follower[j] != r;
  }
}
macro wsp(s, t, i) = s.SkipWhiteSpace && isSp(runeAt(t, i));
// where the sentence starts: leading white space is skipped
rec lead(sk bool, t string, i int) int = if i >= rc(t) || !(sk && isSp(runeAt(t, i))) then i else lead(sk, t, i+1);
// the number of characters of the sentence before i
rec kept(sk bool, t string, a int, i int) int = if i <= a then 0 else kept(sk, t, a, i-1) + (if sk && isSp(runeAt(t, i-1)) then 0 else 1);
// character i is the second of two line feeds, both from lo on
rec lf2(s filter.SentenceSplitter, t string, lo int, i int) bool = s.DoubleLineFeedSplit && lo < i && runeAt(t, i) == '\n' && runeAt(t, i-1) == '\n';
// the sentence that starts at a ends at character i
rec stop(s filter.SentenceSplitter, t string, a int, i int) bool =
  inSet(s.Delim, runeAt(t, i)) || lf2(s, t, a, i) || (!(s.SkipWhiteSpace && isSp(runeAt(t, i))) && kept(s.SkipWhiteSpace, t, a, i+1) >= s.MaxRuneLen);
// ... and nothing that follows belongs to it
rec hard(s filter.SentenceSplitter, t string, a int, i int) bool =
  lf2(s, t, a, i) || s.SkipWhiteSpace && isSp(runeAt(t, i)) && inSet(s.Delim, runeAt(t, i));
// the first such end from i on
rec stopFrom(s filter.SentenceSplitter, t string, a int, i int) int = if i >= rc(t) || stop(s, t, a, i) then i else stopFrom(s, t, a, i+1);
// delimiters, followers and skipped white space from j on; e: the first character after the end
rec ext(s filter.SentenceSplitter, t string, e int, j int) int =
  if j >= rc(t) then j
  else if s.SkipWhiteSpace && isSp(runeAt(t, j)) then (if lf2(s, t, e, j) then j+1 else ext(s, t, e, j+1))
  else if inSet(s.Delim, runeAt(t, j)) || inSet(s.Follower, runeAt(t, j)) then ext(s, t, e, j+1)
  else j;
macro first(s, t) = lead(s.SkipWhiteSpace, t, 0);
macro stopAt(s, t) = stopFrom(s, t, first(s, t), first(s, t));
// the number of characters that a call on the whole rest t of the text uses up
macro sentence(s, t) =
  if stopAt(s, t) >= rc(t) then rc(t)
  else if hard(s, t, first(s, t), stopAt(s, t)) then stopAt(s, t) + 1
  else ext(s, t, stopAt(s, t) + 1, stopAt(s, t) + 1);
// the end does not depend on the characters that follow it
macro sentEnd(s, t) =
  hard(s, t, first(s, t), stopAt(s, t))
  || s.SkipWhiteSpace && isSp(runeAt(t, sentence(s, t) - 1)) && stopAt(s, t) + 1 < sentence(s, t) && lf2(s, t, stopAt(s, t) + 1, sentence(s, t) - 1);

lemma leadNext(sk bool, t string, i int) [C13, C14] {
  ensures lead(sk, t, i) == (if i >= rc(t) || !(sk && isSp(runeAt(t, i))) then i else lead(sk, t, i+1));
}
lemma stopNext(s filter.SentenceSplitter, t string, a int, i int) [C13, C14] {
  ensures stopFrom(s, t, a, i) == (if i >= rc(t) || stop(s, t, a, i) then i else stopFrom(s, t, a, i+1));
}
lemma extNext(s filter.SentenceSplitter, t string, e int, j int) [C13, C14] {
  ensures ext(s, t, e, j) == (
    if j >= rc(t) then j
    else if s.SkipWhiteSpace && isSp(runeAt(t, j)) then (if lf2(s, t, e, j) then j+1 else ext(s, t, e, j+1))
    else if inSet(s.Delim, runeAt(t, j)) || inSet(s.Follower, runeAt(t, j)) then ext(s, t, e, j+1)
    else j);
}
lemma keptNext(sk bool, t string, a int, i int) [C13, C14] {
  ensures kept(sk, t, a, a) == 0;
  ensures a < i ==> kept(sk, t, a, i) == kept(sk, t, a, i-1) + (if sk && isSp(runeAt(t, i-1)) then 0 else 1);
}

// ---------- texts handed over in pieces ----------
axiom fullStable(s string, t string) {
  requires 0 < len(s) && len(s) <= len(t) && s == t[0:len(s)] && full(s);
  ensures runeAt(t, 0) == runeAt(s, 0) && bp(t, 1) == bp(s, 1);
  because "utf8.FullRune: a full encoding decodes to the same character whatever follows";
}
// d: the beginning of the text t that has been read; its first n characters are completely there
macro piece(d, t, n) = len(d) <= len(t) && d == t[0:len(d)] && 0 <= n && n <= rc(d) && (forall k {bp(d, k)} :: 0 <= k < n ==> full(d[bp(d, k):len(d)]));
lemma pieceAt(d string, t string, n int, i int) [C13, C14] {
  requires piece(d, t, n);
  requires 0 <= i && i <= n;
  ensures i <= rc(t) && bp(t, i) == bp(d, i);
  ensures i < n ==> i < rc(t) && runeAt(t, i) == runeAt(d, i) && bp(t, i+1) == bp(d, i+1);
  use 0 < i ==> pieceAt(d, t, n, i-1);
  use i < n ==> 0 < len(d[bp(d, i):len(d)]) && bp(d, i) < len(d);
  use i < n ==> t[bp(d, i):len(t)][0:len(d)-bp(d, i)] == d[bp(d, i):len(d)];
  use i < n ==> fullStable(d[bp(d, i):len(d)], t[bp(d, i):len(t)]);
  use i < n ==> runeAt(d[bp(d, i):len(d)], 0) == runeAt(d, i) && bp(d[bp(d, i):len(d)], 1) == bp(d, i+1) - bp(d, i);
  use i < n ==> runeAt(t[bp(t, i):len(t)], 0) == runeAt(t, i) && bp(t[bp(t, i):len(t)], 1) == bp(t, i+1) - bp(t, i);
  induction i;
}
lemma keepPiece(sk bool, d string, t string, n int, i int) [C13] {
  requires piece(d, t, n);
  requires 0 <= i && i <= n;
  ensures keep(sk, t, i) == keep(sk, d, i);
  use 0 < i ==> keepPiece(sk, d, t, n, i-1);
  use 0 < i ==> pieceAt(d, t, n, i-1);
  use 0 < i ==> t[bp(t, i-1):bp(t, i)] == d[bp(d, i-1):bp(d, i)];
  induction i;
}
// C13 for a whole text: each call adds what it returns to what has been returned before
lemma scanMore(sk bool, t string, q int, e int, adv int) [C13] {
  requires isB(t, q) && 0 <= q && q <= e && e <= len(t);
  requires isB(t[q:e], adv) && 0 <= adv && adv <= e - q;
  requires e == len(t) || (forall k {bp(t[q:e], k)} :: 0 <= k < ridx(t[q:e], adv) ==> full((t[q:e])[bp(t[q:e], k):len(t[q:e])]));
  ensures isB(t, q + adv);
  ensures keep(sk, t, ridx(t, q + adv)) == keep(sk, t, ridx(t, q)) + keep(sk, t[q:e], ridx(t[q:e], adv));
  use t[q:e] == (t[q:len(t)])[0:e-q];
  use e < len(t) ==> piece(t[q:e], t[q:len(t)], ridx(t[q:e], adv));
  use e < len(t) ==> pieceAt(t[q:e], t[q:len(t)], ridx(t[q:e], adv), ridx(t[q:e], adv));
  use e < len(t) ==> keepPiece(sk, t[q:e], t[q:len(t)], ridx(t[q:e], adv), ridx(t[q:e], adv));
  use bp(t[q:len(t)], ridx(t[q:e], adv)) == adv && ridx(t[q:e], adv) <= rc(t[q:len(t)]);
  use rc(t[q:len(t)]) == rc(t) - ridx(t, q);
  use keepPart(sk, t, ridx(t, q), rc(t), ridx(t[q:e], adv));
  use bp(t, ridx(t, q) + ridx(t[q:e], adv)) == q + adv;
}
// C14 for a text in pieces: the end found in a piece is the end in the whole rest of the text
lemma leadGe(sk bool, t string, i int) [C14] {
  requires 0 <= i && i <= rc(t);
  ensures i <= lead(sk, t, i) && lead(sk, t, i) <= rc(t);
  use leadNext(sk, t, i);
  use i < rc(t) ==> leadGe(sk, t, i+1);
  induction rc(t) - i;
}
lemma stopGe(s filter.SentenceSplitter, t string, a int, i int) [C14] {
  requires 0 <= i && i <= rc(t);
  ensures i <= stopFrom(s, t, a, i) && stopFrom(s, t, a, i) <= rc(t);
  use stopNext(s, t, a, i);
  use i < rc(t) ==> stopGe(s, t, a, i+1);
  induction rc(t) - i;
}
lemma leadPiece(sk bool, d string, t string, n int, i int) [C14] {
  requires piece(d, t, n) && 0 <= i && i <= n && lead(sk, d, i) < n;
  ensures lead(sk, t, i) == lead(sk, d, i) && i <= lead(sk, d, i);
  use leadGe(sk, d, i);
  use leadNext(sk, d, i);
  use leadNext(sk, t, i);
  use pieceAt(d, t, n, i);
  use i < n && sk && isSp(runeAt(d, i)) ==> leadPiece(sk, d, t, n, i+1);
  induction n - i;
}
lemma keptPiece(sk bool, d string, t string, n int, a int, i int) [C14] {
  requires piece(d, t, n) && 0 <= a && i <= n;
  ensures kept(sk, t, a, i) == kept(sk, d, a, i);
  use a < i ==> keptPiece(sk, d, t, n, a, i-1);
  use 0 < i ==> pieceAt(d, t, n, i-1);
  induction if i < a then 0 else i - a;
}
lemma stopPiece(s filter.SentenceSplitter, d string, t string, n int, a int, i int) [C14] {
  requires piece(d, t, n) && 0 <= a && a <= i && i < n;
  ensures stop(s, t, a, i) <==> stop(s, d, a, i);
  ensures hard(s, t, a, i) <==> hard(s, d, a, i);
  use pieceAt(d, t, n, i);
  use 0 < i ==> pieceAt(d, t, n, i-1);
  use keptPiece(s.SkipWhiteSpace, d, t, n, a, i+1);
}
lemma stopFromPiece(s filter.SentenceSplitter, d string, t string, n int, a int, i int) [C14] {
  requires piece(d, t, n) && 0 <= a && a <= i && i <= n && stopFrom(s, d, a, i) < n;
  ensures stopFrom(s, t, a, i) == stopFrom(s, d, a, i) && i <= stopFrom(s, d, a, i);
  use stopGe(s, d, a, i);
  use stopNext(s, d, a, i);
  use stopNext(s, t, a, i);
  use pieceAt(d, t, n, i);
  use i < n ==> stopPiece(s, d, t, n, a, i);
  use i < n && !stop(s, d, a, i) ==> stopFromPiece(s, d, t, n, a, i+1);
  induction n - i;
}
lemma extGe(s filter.SentenceSplitter, t string, e int, j int) [C14] {
  requires 0 <= j && j <= rc(t);
  ensures j <= ext(s, t, e, j) && ext(s, t, e, j) <= rc(t);
  use extNext(s, t, e, j);
  use j < rc(t) ==> extGe(s, t, e, j+1);
  induction rc(t) - j;
}
macro lfEnd(s, d, e, x) = s.SkipWhiteSpace && isSp(runeAt(d, x-1)) && e < x && lf2(s, d, e, x-1);
lemma extPiece(s filter.SentenceSplitter, d string, t string, n int, e int, j int) [C14] {
  requires piece(d, t, n) && 0 <= e && e <= j && j <= n;
  requires ext(s, d, e, j) < n || ext(s, d, e, j) == n && j < n && lfEnd(s, d, e, n);
  ensures ext(s, t, e, j) == ext(s, d, e, j);
  use extNext(s, d, e, j);
  use extNext(s, t, e, j);
  use extGe(s, d, e, j);
  use j < n ==> extGe(s, d, e, j+1);
  use pieceAt(d, t, n, j);
  use 0 < j ==> pieceAt(d, t, n, j-1);
  use j < n && ext(s, d, e, j) == ext(s, d, e, j+1) && j < ext(s, d, e, j) && !(s.SkipWhiteSpace && isSp(runeAt(d, j)) && lf2(s, d, e, j)) ==> extPiece(s, d, t, n, e, j+1);
  induction n - j;
}
lemma splitPiece(s filter.SentenceSplitter, d string, t string, n int) [C14] {
  requires piece(d, t, n) && stopAt(s, d) < rc(d);
  requires n == sentence(s, d) && sentEnd(s, d) || n == sentence(s, d) + 1;
  ensures sentence(s, t) == sentence(s, d);
  use leadGe(s.SkipWhiteSpace, d, 0);
  use stopGe(s, d, first(s, d), first(s, d));
  use extGe(s, d, stopAt(s, d) + 1, stopAt(s, d) + 1);
  use leadPiece(s.SkipWhiteSpace, d, t, n, 0);
  use stopFromPiece(s, d, t, n, first(s, d), first(s, d));
  use pieceAt(d, t, n, stopAt(s, d));
  use stopPiece(s, d, t, n, first(s, d), stopAt(s, d));
  use !hard(s, d, first(s, d), stopAt(s, d)) ==> extPiece(s, d, t, n, stopAt(s, d) + 1, stopAt(s, d) + 1);
}

func (filter.SentenceSplitter).ScanSentences(s, data, atEOF)(advance, token, err) {
  props C13, C14;
  opaque keep, lead, kept, stopFrom, ext, inSet;
  let S = old(bstr(data));
  let sk = s.SkipWhiteSpace;
  let a = first(s, S);
  modifies "mem:uint8" if aid($r) == base(data) && off(data) <= rix($r) && rix($r) < off(data) + len(data);
  ensures err == nil && 0 <= advance && advance <= len(data) && isB(S, advance);
  // nothing is lost, nothing is altered that is still to come
  ensures bstr(token) == keep(sk, S, ridx(S, advance));
  ensures bstr(data[advance:len(data)]) == S[advance:len(S)];
  ensures token != nil ==> 0 < len(token) && 0 < advance;
  ensures token == nil && atEOF ==> advance == len(data);
  ensures !atEOF ==> forall i {bp(S, i)} :: 0 <= i < ridx(S, advance) ==> full(S[bp(S, i):len(S)]);
  // where it ends
  ensures [C14] token != nil ==> advance == bp(S, sentence(s, S));
  ensures [C14] token == nil && atEOF ==> first(s, S) >= rc(S);
  ensures [C14] !atEOF && token != nil ==> stopAt(s, S) < rc(S);
  ensures [C14] !atEOF && token != nil ==> sentEnd(s, S) || advance < len(data) && full(S[advance:len(S)]) || advance == len(data) && old(data[advance-1]) == '\n';
  hint keepNone(sk, S, 0);
  hint 0 <= rc(S) && bstr(token) == bstr(token) && (token == nil ==> len(bstr(token)) == 0);
  hint [C14] leadNext(sk, S, 0);
  hint bstr(data[advance:len(data)]) == old(bstr(data[advance:len(data)]));
  hint old(bstr(data[advance:len(data)])) == S[advance:len(S)];
  after "(filter.SentenceSplitter).compact" old(bstr($b)) == S[bp(S, a):bp(S, a) + len($b)];
  after "(filter.SentenceSplitter).compact" rc(old(bstr($b))) == ridx(S, bp(S, a) + len($b)) - a;
  after "(filter.SentenceSplitter).compact" keepPart(sk, S, a, ridx(S, bp(S, a) + len($b)), ridx(S, bp(S, a) + len($b)) - a);
  after "(filter.SentenceSplitter).compact" bstr($c) == keep(sk, S, ridx(S, bp(S, a) + len($b)));
  loop 0 {
    decreases len(data) - p;
    head leadNext(sk, S, $k);
    head keepNone(sk, S, 0);
    head keepNext(sk, S, $k+1);
    head stopNext(s, S, a, $k);
    head keptNext(sk, S, a, $k+1);
    head keptNext(sk, S, a, $k);
    invariant 0 <= $k && $k <= rc(S) && p == bp(S, $k) && isB(S, p);
    invariant same("mem:uint8") && bstr(data[p:len(data)]) == S[p:len(S)];
    invariant head ==> start == p && end == p && rcount == 0 && !nn && a == lead(sk, S, $k) && keep(sk, S, $k) == "";
    invariant 0 <= start && start <= p && isB(S, start) && (!head ==> 0 <= a);
    invariant !head ==> a < $k && start == bp(S, a) && keep(sk, S, a) == "";
    invariant !head ==> rcount == kept(sk, S, a, $k);
    invariant !head ==> (nn <==> s.DoubleLineFeedSplit && runeAt(S, $k-1) == '\n');
    invariant [C14] !head ==> stopAt(s, S) == stopFrom(s, S, a, $k);
    invariant !head ==> isB(S, end) && start < end && end <= p;
    invariant !head ==> keep(sk, S, ridx(S, end)) == keep(sk, S, $k) && 0 < len(keep(sk, S, $k));
    invariant !atEOF ==> forall i {bp(S, i)} :: 0 <= i < $k ==> full(S[bp(S, i):len(S)]);
  }
  loop 1 {
    decreases len(data) - p;
    head keepNext(sk, S, ridx(S, p)+1);
    head [C14] extNext(s, S, stopAt(s, S)+1, ridx(S, p));
    invariant 0 <= p && p <= len(data) && isB(S, p);
    invariant same("mem:uint8") && bstr(data[p:len(data)]) == S[p:len(S)];
    invariant 0 <= a && a < ridx(S, p) && start == bp(S, a) && keep(sk, S, a) == "";
    invariant isB(S, end) && start < end && end <= p;
    invariant keep(sk, S, ridx(S, end)) == keep(sk, S, ridx(S, p)) && 0 < len(keep(sk, S, ridx(S, p)));
    invariant [C14] nn <==> stopAt(s, S)+1 < ridx(S, p) && s.DoubleLineFeedSplit && sk && isSp(runeAt(S, ridx(S, p)-1)) && runeAt(S, ridx(S, p)-1) == '\n';
    invariant [C14] a <= stopAt(s, S) && stopAt(s, S) < ridx(S, p) && !hard(s, S, a, stopAt(s, S));
    invariant [C14] ext(s, S, stopAt(s, S)+1, stopAt(s, S)+1) == ext(s, S, stopAt(s, S)+1, ridx(S, p));
    invariant !atEOF ==> forall i {bp(S, i)} :: 0 <= i < ridx(S, p) ==> full(S[bp(S, i):len(S)]);
  }
}

// the splitter of the package
func filter.ScanSentences(data, atEOF)(advance, token, err) {
  props C13, C14;
  let S = old(bstr(data));
  let sk = filter.defaultSplitter.SkipWhiteSpace;
  requires filter.defaultSplitter != nil;
  modifies "mem:uint8" if aid($r) == base(data) && off(data) <= rix($r) && rix($r) < off(data) + len(data);
  ensures err == nil && 0 <= advance && advance <= len(data) && isB(S, advance);
  ensures bstr(token) == keep(sk, S, ridx(S, advance));
  ensures bstr(data[advance:len(data)]) == S[advance:len(S)];
  ensures token != nil ==> 0 < len(token) && 0 < advance;
  ensures token == nil && atEOF ==> advance == len(data);
  ensures !atEOF ==> forall i {bp(S, i)} :: 0 <= i < ridx(S, advance) ==> full(S[bp(S, i):len(S)]);
}
