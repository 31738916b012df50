// tokenizer.New, the options and the command line selectors (C17)
import ipadict "github.com/ikawaha/kagome-dict/ipa"
import unidict "github.com/ikawaha/kagome-dict/uni"
import cmdTok "github.com/ikawaha/kagome/v2/cmd/tokenize"
import cmdLat "github.com/ikawaha/kagome/v2/cmd/lattice"
import cmdSrv "github.com/ikawaha/kagome/v2/cmd/server"

// An option is an unknown function: its n-th call in the program returns optErr(f, n) and takes
// the tokenizer from a state s to optState(f, n, s).
sym optErr(f fn, n int) error;
sym optState(f fn, n int, s int) int;
sym pack(d *dict.Dict, u *dict.UserDict, omit bool) int;
rec stateAfter(opts []tok.Option, n0 int, k int, s int) int =
  if k <= 0 then s else optState(opts[k-1], n0 + k - 1, stateAfter(opts, n0, k-1, s));
macro packed(t *tok.Tokenizer) = pack(t.dict, t.userDict, t.omitBosEos);

extern func dyn("tokenizer.Option")(f, n, t)(err) {
  modifies "tokenizer.Tokenizer.dict", "tokenizer.Tokenizer.userDict", "tokenizer.Tokenizer.omitBosEos" if $r == addr(t);
  ensures err == optErr(f, n);
  ensures packed(t) == optState(f, n, old(packed(t)));
}
extern func fmt.Errorf(format, a)(r) {
  pure;
  ensures r != nil;
}

func tok.New(d, opts)(r, err) {
  props C06, C17;
  requires [C06] forall i {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil;
  ensures [C17] err == nil <==> d != nil && forall i {opts[i]} :: 0 <= i < len(opts) ==> optErr(opts[i], old(ghost("ncalls")) + i) == nil;
  ensures [C17] err == nil ==> r != nil && fresh(r) && packed(r) == stateAfter(opts, old(ghost("ncalls")), len(opts), pack(d, nil, false));
  ensures [C17] err != nil ==> r == nil;
  ensures [C17] d == nil ==> err != nil;
  loop 0 {
    invariant ghost("ncalls") == old(ghost("ncalls")) + $k;
    invariant t != nil && fresh(t);
    invariant packed(t) == stateAfter(opts, old(ghost("ncalls")), $k, pack(d, nil, false));
    invariant forall i {opts[i]} :: 0 <= i < $k ==> optErr(opts[i], old(ghost("ncalls")) + i) == nil;
  }
}

func tok.Nop()(r) {
  props C17;
  ensures [C17] r != nil;
  yields r(t)(err) { ensures [C17] err == nil; }
}
func tok.UserDict(d)(r) {
  props C17;
  ensures [C17] r != nil;
  yields r(t)(err) {
    requires t != nil;
    modifies "tokenizer.Tokenizer.userDict" if $r == addr(t) && d != nil;
    ensures [C17] err == nil <==> d != nil;
    ensures [C17] d != nil ==> t.userDict == d;
  }
}
func tok.OmitBosEos()(r) {
  props C17;
  ensures [C17] r != nil;
  yields r(t)(err) {
    requires t != nil;
    modifies "tokenizer.Tokenizer.omitBosEos" if $r == addr(t);
    ensures [C17] err == nil && t.omitBosEos;
  }
}

// ---------- selectors ----------
sym theIPA() *dict.Dict;
sym theUni() *dict.Dict;
sym theIPAShrink() *dict.Dict;
sym theUniShrink() *dict.Dict;
sym dictFile(path string) *dict.Dict;
sym dictFileErr(path string) error;
sym shrinkFile(path string) *dict.Dict;
sym shrinkFileErr(path string) error;
extern func ipadict.Dict()(r) { pure; ensures r == theIPA() && r != nil; }
extern func ipadict.DictShrink()(r) { pure; ensures r == theIPAShrink() && r != nil; }
extern func unidict.Dict()(r) { pure; ensures r == theUni() && r != nil; }
extern func unidict.DictShrink()(r) { pure; ensures r == theUniShrink() && r != nil; }
extern func dict.LoadDictFile(path)(r, err) { pure; ensures r == dictFile(path) && err == dictFileErr(path); }
extern func dict.LoadShrink(path)(r, err) { pure; ensures r == shrinkFile(path) && err == shrinkFileErr(path); }

macro modeNamed(s string) = if s == "search" then tok.Search else if s == "extended" then tok.Extended else tok.Normal;
func cmdTok.selectMode(mode)(r) { props C06, C17; ensures [C17, C15] r == modeNamed(mode); }
func cmdLat.selectMode(mode)(r) { props C06, C17; ensures [C17, C15] r == modeNamed(mode); }
macro dictNamed(name string, r *dict.Dict, err error) =
  (name == "ipa" ==> r == theIPA() && err == nil) && (name == "uni" ==> r == theUni() && err == nil)
  && (name != "ipa" && name != "uni" ==> r == nil && err != nil);
func cmdLat.selectDict(name)(r, err) { props C06, C17; ensures [C17] dictNamed(name, r, err); }
func cmdSrv.selectDict(name)(r, err) { props C06, C17; ensures [C17] dictNamed(name, r, err); }
func cmdTok.selectDict(path, sysdict, shrink)(r, err) {
  props C06, C17;
  ensures [C17] path != "" && shrink ==> r == shrinkFile(path) && err == shrinkFileErr(path);
  ensures [C17] path != "" && !shrink ==> r == dictFile(path) && err == dictFileErr(path);
  ensures [C17] path == "" && !shrink ==> dictNamed(sysdict, r, err);
  ensures [C17] path == "" && shrink ==> (sysdict == "ipa" ==> r == theIPAShrink() && err == nil) && (sysdict == "uni" ==> r == theUniShrink() && err == nil)
     && (sysdict != "ipa" && sysdict != "uni" ==> r == nil && err != nil);
}
