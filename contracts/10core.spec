// Line buffer: slices, insertion, deletion, views.

// hist(b): the texts of the line that undo can still reach, oldest first,
// the current text last
ghostvar hist (Array Int Seq.L)
ghostinit readline.Buffer hist := unit(nil_M)

// the last answer of the terminal
ghostvar lastkey Str
ghostvar lasterr Iface
// number of questions to the terminal
ghostvar nkeys Int
// the search text typed so far, whether something was typed or erased, and
// whether older or newer matches were asked for
ghostvar stext Str
ghostvar styped Bool
ghostvar stepped Bool
define TTY() = mod(lastkey, lasterr, nkeys, stext, styped, stepped)

define STARTS(s, p) = len(p) <= len(s) && take(s, len(p)) == p
define M(s) = seq(s, Moji)
define H(B) = hist(ref(B))

// ---- invariants ----

define okE(E) = E != nil && E.Out != nil && E.History != nil && E.Coloring != nil && E.Tty != nil && E.Predictor != nil && WT()
// the line without cursor and view
define okL(B) = B != nil && okE(B.Editor) && NN(M(B.Buffer)) && NN(seq(B.suffix))
define okC(B) = 0 <= B.ViewStart && B.ViewStart <= B.Cursor && B.Cursor <= len(B.Buffer)
define okB(B) = okL(B) && okC(B)

// nothing is predicted, or the prediction was computed for the text in the line
define SUFOFF(B) = imp(B.PredictColor[0] == "", len(B.suffix) == 0)
define SUF(B) = SUFOFF(B) && (len(B.suffix) == 0 || ptext == flat(M(B.Buffer)) && flat(seq(B.suffix)) == norm(panswer))

// one undo step u leads from text b back to text a
define stepOK(u, a, b) = 0 <= u.pos && 0 <= u.del && u.pos + u.del <= len(b) \
  && cat(take(b, u.pos), M(u.text), drop(b, u.pos + u.del)) == a && NN(M(u.text))
define stepOwn(u, s) = allocated(u) && 0 < ref(u) && allocated(base(u.text)) && 0 <= base(u.text) && (base(u.text) != base(s) || len(u.text) == 0)
define UREF(B, i) = idx_R(seq(B.undoes), i)
define U(B, i) = ptr(UREF(B, i), "readline._Undo")
define chain(B) = len(H(B)) == len(B.undoes) + 1 \
  && idx_L(H(B), len(B.undoes)) == M(B.Buffer) \
  && all(i, 0, len(B.undoes), stepOK(U(B, i), idx_L(H(B), i), idx_L(H(B), i+1)) && stepOwn(U(B, i), B.Buffer), UREF(B, i)) \
  && all(i, 0, len(B.undoes), all(j, 0, i, UREF(B, j) < UREF(B, i), UREF(B, j)), UREF(B, i))

define keepU(B) = base(B.undoes) == old(base(B.undoes)) || isfresh(base(B.undoes))

// what a repaint may write
define PAINT(B) = mod(B.suffix, Out(B.Out), comp("E:readline.Cell.color", base(B.Buffer)), comp("E:readline.Cell.position", base(B.Buffer)), \
  comp("H:moji.Tab.pos"), mapof(moji.widthCache), comp("H:coloring.VimBatch.bits"), ptext, panswer)
// what an edit may write
define EDIT(B) = mod(B.Buffer, elems(B.Buffer), B.undoes, elems(B.undoes), objects("readline._Undo"))

// ---- the world outside ----

iface readline.IHistory.Len(h) (n) trusted pure
  ensures n == hlen(h) && n >= 0
  why the history does not change while a line is edited

iface readline.IHistory.At(h, i) (s) trusted pure
  requires 0 <= i && i < hlen(h)
  ensures s == hat(h, i)
  why the history does not change while a line is edited

iface readline.Coloring.Init(c) (cs) trusted
  requires c != nil
  modifies comp("H:coloring.VimBatch.bits")
  why a colouring only changes its own state

iface readline.Coloring.Next(c, r) (cs) trusted
  requires c != nil
  modifies comp("H:coloring.VimBatch.bits")
  why a colouring only changes its own state

iface readline.ITty.GetKey(t) (key, err) trusted
  requires t != nil
  modifies TTY()
  ensures nkeys == old(nkeys) + 1
  ensures [C06] stext == snext(old(stext), key, FIRST(key)) && styped == (old(styped) || key == "\b" || key == "\x7F" || !ctl(FIRST(key)))
  ensures [C06] stepped == (old(stepped) || key == "\x12" || key == "\x13")
  ensures key == lastkey && err == lasterr
  why reading a key does not touch the line

// the last question to the predictor and its answer
ghostvar ptext Str
ghostvar panswer Str

value readline.Editor.Predictor(B) (s)
  requires okL(B)
  modifies ptext, panswer
  ensures [C07] s == panswer && ptext == flat(M(B.Buffer))
  why a predictor only computes a string from the line

// the text of the prompt
ghostvar prompt Str

value readline.Editor.PromptWriter(w) (n, err)
  modifies Out(w), prompt
  ensures Out(w) == cat(old(Out(w)), prompt)
  why a prompt writer only writes to the writer it is given

extern error.Error(e) (s) pure
  why an error only describes itself

// ---- slices ----

func readline.sliceInsert(slice, at, elements)
  requires 0 <= at && at <= len(slice)
  requires base(elements) != base(slice) || len(elements) == 0
  modifies elems(slice)
  ensures len(result) == len(slice) + len(elements)
  ensures M(result) == cat(take(old(M(slice)), at), old(M(elements)), drop(old(M(slice)), at))
  ensures base(result) == base(slice) || isfresh(base(result))

func readline.sliceDelete(slice, at, n)
  requires 0 <= at && 0 <= n && at + n <= len(slice)
  modifies elems(slice)
  ensures len(result) == len(slice) - n
  ensures M(result) == cat(take(old(M(slice)), at), drop(old(M(slice)), at + n))
  ensures base(result) == base(slice)

func readline.copyCells(m)
  ensures len(result) == len(m)
  ensures M(result) == M(m)
  ensures isfresh(base(result)) || len(m) == 0 && base(result) == 0

func readline.mojis2cells(mojis) (cells)
  ensures len(cells) == len(mojis)
  ensures M(cells) == seq(mojis)
  ensures isfresh(base(cells))
  loop c:slice, k:int => len(c) == k && M(c) == take(seq(mojis), k)
  loop c:slice => isfresh(base(c))

func readline.cell2string(m) (s)
  requires NN(M(m))
  ensures s == flat(M(m))
  loop b:builder, k:int => 0 <= k && k <= len(m) && Out(b) == flat(take(M(m), k))

// ---- the line ----

func readline.(_Range).Width(s) (w)
  requires NN(M(s)) && WT()
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures w == sumw(TP(), wt, M(s))
  loop WT()
  loop w:int, k:int => 0 <= k && k <= len(s) && w == sumw(TP(), wt, take(M(s), k))

func readline.(*Buffer).GetWidthBetween(B, from, to) (w)
  requires B != nil && 0 <= from && from <= to && to <= len(B.Buffer) && NN(M(B.Buffer)) && WT()
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures w == sumw(TP(), wt, sub(M(B.Buffer), from, to))

func readline.(*Buffer).SubString(B, start, end) (s) root
  requires B != nil && 0 <= start && start <= end && end <= len(B.Buffer) && NN(M(B.Buffer))
  ensures [*,C02] s == flat(sub(M(B.Buffer), start, end))

func readline.(Buffer).String(B) (s) root
  requires NN(M(B.Buffer))
  ensures [*,C02] s == flat(M(B.Buffer))

func readline.predictByHistory(B) (s) root
  requires okL(B)
  ensures [C07] s == "" && all(i, 0, hlen(B.History), !STARTS(hat(B.History, i), flat(M(B.Buffer))), hat(B.History, i)) \
    || some(i, 0, hlen(B.History), STARTS(hat(B.History, i), flat(M(B.Buffer))) && hat(B.History, i) == cat(flat(M(B.Buffer)), s) \
      && all(j, i + 1, hlen(B.History), !STARTS(hat(B.History, j), flat(M(B.Buffer))), hat(B.History, j)), hat(B.History, i))
  loop [C07] i:int => i < hlen(B.History) && all(j, i + 1, hlen(B.History), !STARTS(hat(B.History, j), flat(M(B.Buffer))), hat(B.History, j))

func readline.(*Buffer).updateSuffix(B)
  requires okL(B)
  requires [C07] SUFOFF(B)
  modifies B.suffix, mapof(moji.widthCache)
  modifies ptext, panswer
  ensures okL(B)
  ensures [C07] SUF(B)

func readline.(*Buffer).getView(B) (v, w)
  requires okL(B) && 0 <= B.ViewStart && B.ViewStart <= len(B.Buffer)
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures base(v) == base(B.Buffer) && off(v) == off(B.Buffer) + B.ViewStart && cap(v) == cap(B.Buffer) - B.ViewStart
  ensures len(v) <= len(B.Buffer) - B.ViewStart
  loop WT()

func readline.(*Buffer).getView2(B) (all, before, w)
  requires okB(B)
  modifies mapof(moji.widthCache)
  ensures WT()
  ensures base(all) == base(B.Buffer) && off(all) == off(B.Buffer) + B.ViewStart && len(all) <= len(B.Buffer) - B.ViewStart
  ensures base(before) == base(B.Buffer) && off(before) == off(B.Buffer) + B.ViewStart && len(before) == B.Cursor - B.ViewStart

func readline.(*Buffer).insert(B, csrPos, insStr)
  requires okL(B) && 0 <= csrPos && csrPos <= len(B.Buffer) && NN(M(insStr))
  requires base(insStr) != base(B.Buffer) || len(insStr) == 0
  requires [C01,C04,C10] chain(B)
  modifies EDIT(B)
  ghost [C01,C04,C10] hist(ref(B)) := cat(H(B), unit(M(B.Buffer)))
  ensures M(B.Buffer) == cat(take(old(M(B.Buffer)), csrPos), old(M(insStr)), drop(old(M(B.Buffer)), csrPos))
  ensures len(B.Buffer) == old(len(B.Buffer)) + len(insStr)
  ensures base(B.Buffer) == old(base(B.Buffer)) || isfresh(base(B.Buffer))
  ensures NN(M(B.Buffer))
  ensures [C01,C04,C10] H(B) == cat(old(H(B)), unit(M(B.Buffer)))
  ensures [C01,C04,C10] len(B.undoes) > 0 && len(U(B, len(B.undoes) - 1).text) == 0
  ensures [C01,C04,C10] chain(B)
  ensures keepU(B)

func readline.(*Buffer).insertString(B, pos, s) (r)
  requires okL(B) && 0 <= pos && pos <= len(B.Buffer)
  requires [C01,C04,C10] chain(B)
  modifies EDIT(B), mapof(moji.widthCache)
  modifies [C01,C04,C10] hist(ref(B))
  ensures okL(B)
  ensures M(B.Buffer) == cat(take(old(M(B.Buffer)), pos), M(r), drop(old(M(B.Buffer)), pos))
  ensures NN(M(r))
  ensures [*,C02] flat(M(r)) == norm(s)
  ensures len(B.Buffer) == old(len(B.Buffer)) + len(r)
  ensures base(B.Buffer) == old(base(B.Buffer)) || isfresh(base(B.Buffer))
  ensures [C01,C04,C10] H(B) == cat(old(H(B)), unit(M(B.Buffer)))
  ensures [C01,C04,C10] len(B.undoes) > 0 && len(U(B, len(B.undoes) - 1).text) == 0
  ensures [C01,C04,C10] chain(B)
  ensures keepU(B)

func readline.(*Buffer).Delete(B, pos, n) (w)
  requires okL(B) && 0 <= pos
  requires [C01,C04,C10] chain(B)
  modifies EDIT(B), mapof(moji.widthCache)
  ghost [C01,C04,C10] hist(ref(B)) := ite(n > 0 && pos + n <= old(len(B.Buffer)), cat(H(B), unit(M(B.Buffer))), H(B))
  ensures okL(B)
  ensures imp(n > 0 && pos + n <= old(len(B.Buffer)), M(B.Buffer) == cat(take(old(M(B.Buffer)), pos), drop(old(M(B.Buffer)), pos + n)) && len(B.Buffer) == old(len(B.Buffer)) - n)
  ensures imp(!(n > 0 && pos + n <= old(len(B.Buffer))), M(B.Buffer) == old(M(B.Buffer)) && len(B.Buffer) == old(len(B.Buffer)))
  ensures base(B.Buffer) == old(base(B.Buffer))
  ensures [C01,C04,C10] H(B) == ite(n > 0 && pos + n <= old(len(B.Buffer)), cat(old(H(B)), unit(M(B.Buffer))), old(H(B)))
  ensures [C01,C04,C10] chain(B)
  ensures keepU(B)

func readline.(*Buffer).ResetViewStart(B)
  requires okL(B) && 0 <= B.Cursor && B.Cursor <= len(B.Buffer)
  modifies B.ViewStart, mapof(moji.widthCache)
  ensures WT()
  ensures 0 <= B.ViewStart && B.ViewStart <= B.Cursor
  loop WT()
  loop 0 <= B.ViewStart && B.ViewStart <= B.Cursor

func readline.(*Buffer).CurrentWordTop(B) (top)
  requires okL(B) && 0 <= B.Cursor && B.Cursor <= len(B.Buffer)
  ensures 0 <= top && top <= B.Cursor
  ensures [C03,C15] top == wordtop(readline.Delimiters, M(B.Buffer), B.Cursor)
  loop t:int => -1 <= t && t <= B.Cursor
  loop [C03,C15] t:int, k:int => t == wtop(readline.Delimiters, M(B.Buffer), k)
  loop [C03,C15] q:int32, k:int => q == qst(readline.Delimiters, M(B.Buffer), k)

func readline.(*Buffer).joinUndo(B)
  requires okL(B)
  // the last step is an insertion
  requires [C01,C04,C10] imp(len(B.undoes) > 0, len(U(B, len(B.undoes) - 1).text) == 0)
  requires [C01,C04,C10] chain(B)
  modifies B.undoes, objects("readline._Undo")
  ghost [C01,C04,C10] hist(ref(B)) := ite(len(B.undoes) < old(len(B.undoes)), cat(take(H(B), len(B.undoes)), unit(M(B.Buffer))), H(B))
  ensures [C01,C04,C10] chain(B)
  ensures keepU(B)
  ensures [C01,C04,C10] H(B) == old(H(B)) || len(old(H(B))) > 2 && H(B) == cat(take(old(H(B)), len(old(H(B))) - 2), unit(M(B.Buffer)))

// ---- drawing ----

func readline.(ColorSequence).WriteTo(c, w) (n, err) root bv=C13 unroll=8
  requires w != nil
  requires [C13] COLORS(c)
  ensures [C13] Out(w) == cat(old(Out(w)), WRITTEN(c))
  modifies Out(w)
  ensures err == nil

func readline.(*Buffer).refreshColor(B) (cs)
  requires okL(B) && 0 <= B.Cursor && B.Cursor <= len(B.Buffer)
  modifies comp("E:readline.Cell.color", base(B.Buffer)), comp("E:readline.Cell.position", base(B.Buffer))
  modifies comp("H:moji.Tab.pos"), mapof(moji.widthCache), comp("H:coloring.VimBatch.bits")
  ensures WT()
  loop WT()

func readline.(*Buffer).puts(B, s) (r)
  requires okL(B) && 0 <= B.Cursor && B.Cursor <= len(B.Buffer) && NN(M(s))
  modifies Out(B.Out), comp("E:readline.Cell.color", base(B.Buffer)), comp("E:readline.Cell.position", base(B.Buffer))
  modifies comp("H:moji.Tab.pos"), mapof(moji.widthCache), comp("H:coloring.VimBatch.bits")
  ensures WT()
  loop WT()

func readline.(*Buffer).repaintWithoutUpdateSuffix(B)
  requires okB(B)
  modifies PAINT(B)
  ensures WT()
  ensures [C07] ptext == old(ptext) && panswer == old(panswer)
  ensures base(B.suffix) == old(base(B.suffix)) && len(B.suffix) == old(len(B.suffix)) && off(B.suffix) == old(off(B.suffix))
  loop WT()

func readline.(*Buffer).repaint(B)
  requires okB(B)
  requires [C07] SUFOFF(B)
  modifies PAINT(B)
  ensures okB(B)
  ensures [C07] SUF(B)

func readline.(*Buffer).ReplaceAndRepaint(B, pos, str)
  requires okL(B) && 0 <= pos && pos <= B.Cursor && B.Cursor <= len(B.Buffer)
  requires [C01,C04,C10] chain(B)
  modifies EDIT(B), PAINT(B), B.ViewStart, B.Cursor
  modifies [C01,C04,C10] hist(ref(B))
  ensures okB(B)
  requires [C07] SUFOFF(B)
  ensures [C07] SUF(B)
  ensures M(B.Buffer) == cat(take(old(M(B.Buffer)), pos), sub(M(B.Buffer), pos, B.Cursor), drop(old(M(B.Buffer)), old(B.Cursor)))
  ensures pos <= B.Cursor && flat(sub(M(B.Buffer), pos, B.Cursor)) == norm(str)
  ensures base(B.Buffer) == old(base(B.Buffer)) || isfresh(base(B.Buffer))
  ensures [C01,C04,C10] chain(B)
  ensures [C01,C04,C10] len(H(B)) >= len(old(H(B))) && take(H(B), len(old(H(B))) - 1) == take(old(H(B)), len(old(H(B))) - 1)
  ensures [C01,C04,C10] idx_L(H(B), 0) == idx_L(old(H(B)), 0)
  ensures keepU(B)

func readline.(*Buffer).InsertString(B, pos, s) (n) root
  requires okL(B) && 0 <= pos && pos <= len(B.Buffer)
  requires [C01,C04,C10] chain(B)
  modifies EDIT(B), mapof(moji.widthCache)
  modifies [C01,C04,C10] hist(ref(B))
  ensures okL(B)
  ensures len(B.Buffer) == old(len(B.Buffer)) + n && n >= 0
  ensures [*,C02,C03] M(B.Buffer) == cat(take(old(M(B.Buffer)), pos), sub(M(B.Buffer), pos, pos + n), drop(old(M(B.Buffer)), pos))
  ensures [*,C02,C03] flat(sub(M(B.Buffer), pos, pos + n)) == norm(s)
  ensures [C01,C04,C10] H(B) == cat(old(H(B)), unit(M(B.Buffer)))
  ensures [C01,C04,C10] chain(B)
  ensures base(B.Buffer) == old(base(B.Buffer)) || isfresh(base(B.Buffer))
  ensures keepU(B)
  ensures [C01,C04,C10] len(B.undoes) > 0 && len(U(B, len(B.undoes) - 1).text) == 0
