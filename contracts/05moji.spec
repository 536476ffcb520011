// Display characters.

// wt: the width used for each character: assigned, else the library's
define NN(s) = nn(s) && when("C10", clns(s))

ghostvar wt (Array Int Int)

ginvariant moji.widthCache != nil

define TP() = comp("H:moji.Tab.pos")
assumption [C10] the width table of the library and the widths assigned by the user give control characters no width
define WT() = when("C10", forall(r, "Int", imp(ctl(r), wt(r) == 0), wt(r))) && forall(r, "Int", wt(r) == ite(sel(mapdom(moji.widthCache), r), sel(mapval(moji.widthCache), r), rw(r)), sel(mapdom(moji.widthCache), r))

// the functions of splitting with the abilities of the terminal
define SWID(s, k, w, c) = swid(moji.ZeroWidthJoinSequenceOk, moji.VariationSequenceOk, moji.ModifierSequenceOk, moji.SurrogatePairOk, moji.AmbiguousIsWide, \
  ref(unicode.Variation_Selector), ref(unicode.Me), wt, s, k, w, c)
define SCNT(s, k, w, c) = scnt(moji.ZeroWidthJoinSequenceOk, moji.VariationSequenceOk, moji.ModifierSequenceOk, moji.SurrogatePairOk, moji.AmbiguousIsWide, \
  ref(unicode.Variation_Selector), ref(unicode.Me), wt, s, k, w, c)
define RKIND(r) = rkind(moji.VariationSequenceOk, moji.SurrogatePairOk, moji.AmbiguousIsWide, ref(unicode.Variation_Selector), ref(unicode.Me), wt, r)
define RWID(r, c) = rwid(moji.VariationSequenceOk, moji.SurrogatePairOk, moji.AmbiguousIsWide, ref(unicode.Variation_Selector), ref(unicode.Me), wt, r, c)

value moji.GetZWJSWidth(w1, w2) (w) pure nonnil
  ensures w == zwf(w1, w2)
  why the width function for joined sequences is a setting; it is any function of the two widths

value moji.runeWidth(r) (w) pure nonnil
  ensures w == rw(r)
  why the width table of the library; any function of the character

iface moji.Moji.Width(m) (w) root
  requires wfm(m) && WT()
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures [*,C09] w == mw(TP(), wt, m)

define SPECIAL(m) = istype(m, "*moji.Tab") || istype(m, "moji._CtrlCodePoint") || istype(m, "moji._EscCodePoint")

iface moji.Moji.WriteTo(m, out) (n, err) root
  requires wfm(m) && out != nil
  modifies Out(out)
  ensures [*,C02] Out(out) == cat(old(Out(out)), bytes(m))
  ensures [C10] imp(cln(m) && !SPECIAL(m), ncc(bytes(m)))
  ensures err == nil

iface moji.Moji.PrintTo(m, out) root
  requires wfm(m) && out != nil && WT()
  requires [C10] cln(m)
  modifies Out(out), mapof(moji.widthCache)
  ensures WT()
  ensures [C08,C09,C10,C18] Out(out) == cat(old(Out(out)), pr(TP(), wt, m))
  // what is not printed as it is takes one column per byte
  ensures [C09] imp(SPECIAL(m), len(pr(TP(), wt, m)) == mw(TP(), wt, m))
  ensures [C10] imp(SPECIAL(m), all(i, 0, len(pr(TP(), wt, m)), 32 <= sat(pr(TP(), wt, m), i) && sat(pr(TP(), wt, m), i) <= 126))
  ensures [C10] imp(!SPECIAL(m), ncc(bytes(m)))

func moji.writeRune(w, r) (n, err)
  requires w != nil
  modifies Out(w)
  ensures Out(w) == cat(old(Out(w)), enc(r))
  ensures err == nil

func moji.saveCursorAfterN(w, n)
  requires w != nil
  modifies Out(w)
  ensures [C08,C09,C10,C18] Out(w) == cat(old(Out(w)), esc7(n))
  loop [C08,C09,C10,C18] i:int => 0 <= i && i <= max(n, 0) && Out(w) == cat(entry(Out(w)), rep(32, i))
  loop [C08,C09,C10,C18] i:int => 0 <= i && i <= max(n, 0) && Out(w) == cat(entry(Out(w)), rep(8, i))

func moji.lenEscaped(c) (w)
  ensures w == lenesc(c)
  loop a:int, b:int => a + lenesc(b) == lenesc(c) + 3

func moji.getWidth(r) (w)
  requires WT()
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures w == wt(r)

func moji.SetCharWidth(c, width) root
  requires WT()
  requires [C10] imp(ctl(c), width == 0)
  modifies mapof(moji.widthCache)
  ghost wt(c) := width
  ensures WT()
  ensures [*,C09] wt(c) == width
  ensures [*,C09] forall(r, "Int", imp(r != c, wt(r) == old(wt(r))), wt(r))

func moji.ResetCharWidth() root
  modifies moji.widthCache
  ghost wt := rwtab
  ensures WT()
  ensures [*,C09] wt == rwtab

func moji.rune2moji(ch, pos) (m)
  requires WT() && ch >= 0
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures wfm(m)
  ensures bytes(m) == enc(ch)
  ensures [C09,C14] mw(TP(), wt, m) == RWID(ch, pos) && mkd(m) == RKIND(ch)
  ensures [C10] cln(m)

func moji.StringToMoji(s) (mojis) root
  requires WT()
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures NN(seq(mojis))
  ensures isfresh(base(mojis))
  ensures [C09] sumw(TP(), wt, seq(mojis)) == SWID(s, 0, 0, 0)
  ensures [C09] len(mojis) == SCNT(s, 0, 0, 0)
  ensures [C10] clns(seq(mojis))
  ensures [@text,*,C02] flat(seq(mojis)) == norm(old(s))
  loop WT()
  loop last:moji.Moji, mojis:slice => imp(last != nil, len(mojis) > 0 && mojis[len(mojis)-1] == last && wfm(last))
  loop mojis:slice => NN(seq(mojis)) && isfresh(base(mojis))
  loop mojis:slice, t:str => cat(flat(seq(mojis)), norm(t)) == norm(s)
  loop last:moji.Moji, mojis:slice => imp(last != nil, seq(mojis) == cat(take(seq(mojis), len(mojis)-1), unit(last)))
  loop [C09] last:moji.Moji, mojis:slice, pos:int => sumw(TP(), wt, seq(mojis)) == pos + mwl(TP(), wt, last)
  loop [C09] last:moji.Moji, t:str, pos:int => SWID(t, mkd(last), mwl(TP(), wt, last), pos) == SWID(s, 0, 0, 0)
  loop [C09] last:moji.Moji, t:str, pos:int, mojis:slice => len(mojis) + SCNT(t, mkd(last), mwl(TP(), wt, last), pos) == SCNT(s, 0, 0, 0)
  loop [C10] mojis:slice => clns(seq(mojis))
  loop [C10] last:moji.Moji => imp(last != nil, cln(last))

func moji.MojiWidthAndCountInString(s) (width, count) root
  requires WT()
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures [C09,C14] width == SWID(s, 0, 0, 0)
  ensures [C09] count == SCNT(s, 0, 0, 0)
  loop [C09,C14] last:moji.Moji, lw:moji.WidthT => lw == mwl(TP(), wt, last)
  loop [C09,C14] last:moji.Moji, t:str, w:moji.WidthT => SWID(t, mkd(last), mwl(TP(), wt, last), w - mwl(TP(), wt, last)) == SWID(s, 0, 0, 0)
  loop [C09] last:moji.Moji, t:str, w:moji.WidthT, n:int => n + SCNT(t, mkd(last), mwl(TP(), wt, last), w - mwl(TP(), wt, last)) == SCNT(s, 0, 0, 0)
  loop WT()
  loop last:moji.Moji => imp(last != nil, wfm(last))

func moji.MojiToRune(m) (r, ok)
  ensures ok == hasr(m) || !wfm(m)
  ensures imp(ok, r == mrune(m))

func moji.IsSpaceMoji(m) (ok)
  requires wfm(m)
  ensures ok == spacem(m)

// the code point a key starts with
define FIRST(k) = ite(len(k) == 0, 65533, drune(k))

func moji.AreZeroWidthJoin(s) (ok)
  ensures ok == (moji.ZeroWidthJoinSequenceOk && FIRST(s) == 8205)

func moji.AreVariationSelectorLike(s) (ok)
  ensures ok == (moji.VariationSequenceOk && (uis(ref(unicode.Variation_Selector), FIRST(s)) || uis(ref(unicode.Me), FIRST(s))))

func moji.AreEmojiModifier(s) (ok)
  ensures ok == (moji.ModifierSequenceOk && 127995 <= FIRST(s) && FIRST(s) <= 127999)
