// The prompt.

func readline.cutEscapeSequenceAndOldLine(s) (r) root
  ensures [C14] r == pvis(s)
  loop b:slice => isfresh(base(b))
  loop b:slice => len(b) >= 0
  loop [C14] b:slice, i:int => 0 <= i && i <= len(s) && seq(b) == pacc(s, i)
  loop [C14] e:bool, i:int => e == pesc(s, i)
  loop [C14] e:bool, i:int => e == ptit(s, i)

// the column behind the prompt
define COL(E) = ite(E.PromptWriter == nil, 2, SWID(pvis(prompt), 0, 0, 0))

func readline.(*Editor).callPromptWriter(E) (n, err)
  requires E != nil && E.Out != nil && WT()
  modifies Out(E.Out), prompt, mapof(moji.widthCache)
  ensures WT()
  ensures [C14] n == COL(E)

func readline.(*Buffer).RepaintAll(B) root
  requires okB(B)
  modifies PAINT(B), B.topColumn, prompt
  modifies [C17] flushed
  ensures okB(B)
  requires [C07] SUFOFF(B)
  ensures [C07] SUF(B)
  ensures [C14] B.topColumn == COL(B.Editor)

func readline.GetStringWidth(s) (w) root
  requires WT()
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures [C09] w == SWID(s, 0, 0, 0)

func readline.MojiCountInString(s) (n) root
  requires WT()
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures [C09] n == SCNT(s, 0, 0, 0)

func readline.SetCharWidth(c, width) root
  requires WT()
  requires [C10] imp(ctl(c), width == 0)
  modifies mapof(moji.widthCache), wt
  ensures WT()
  ensures [C09] wt(c) == width
  ensures [C09] forall(r, "Int", imp(r != c, wt(r) == old(wt(r))), wt(r))

func readline.ResetCharWidth() root
  modifies moji.widthCache, wt
  ensures WT()
  ensures [C09] wt == rwtab

func readline.StringToMoji(s) (mojis) root
  requires WT()
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures NN(seq(mojis))
  ensures isfresh(base(mojis))
  ensures [C09] sumw(TP(), wt, seq(mojis)) == SWID(s, 0, 0, 0)
  ensures [C09] len(mojis) == SCNT(s, 0, 0, 0)
  ensures [*,C02] flat(seq(mojis)) == norm(s)
