// Editing commands.

// the text is o without [i, j)
define CUT(n, o, i, j) = n == cat(take(o, i), drop(o, j))
// the text is o with [i, j) replaced by the characters of a string; they end at k
define PUT(n, o, i, j, k, s) = i <= k && n == cat(take(o, i), sub(n, i, k), drop(o, j)) && flat(sub(n, i, k)) == norm(s)
// one step was added to what undo can reach
define GREW(B) = H(B) == cat(old(H(B)), unit(M(B.Buffer)))
define KEPT(B) = len(H(B)) >= len(old(H(B))) && take(H(B), len(old(H(B))) - 1) == take(old(H(B)), len(old(H(B))) - 1) && idx_L(H(B), 0) == idx_L(old(H(B)), 0)
// the undo history that belongs to the present line
define NOW(B) = ite(len(H(B)) == len(B.undoes) + 1 && idx_L(H(B), len(B.undoes)) == M(B.Buffer), H(B), cat(take(H(B), len(B.undoes)), unit(M(B.Buffer))))
define MOVE(B) = mod(PAINT(B), B.ViewStart, B.Cursor)

// ---- movements ----

func readline.cmdAcceptLine(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  ensures [C03,C17] rc == 1

func readline.cmdInterrupt(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies this.Buffer, this.Cursor, this.ViewStart, this.undoes
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] rc != 0 || SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C03,C07,C17] len(this.Buffer) == 0 && M(this.Buffer) == nil_M && rc == 3

func readline.cmdBeginningOfLine(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  modifies MOVE(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C03,C17] this.Cursor == 0 && rc == 0

func readline.cmdBackwardChar(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  modifies MOVE(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C03,C17] this.Cursor == max(old(this.Cursor) - 1, 0) && rc == 0

func readline.cmdEndOfLine(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  modifies MOVE(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures this.Cursor == len(this.Buffer)
  ensures [C03,C17] rc == 0
  loop WT()

func readline.cmdForwardChar(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this)
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] KEPT(this)
  ensures [C03] imp(old(this.Cursor) < len(old(this.Buffer)), M(this.Buffer) == old(M(this.Buffer)) && this.Cursor == old(this.Cursor) + 1)
  ensures [C03] imp(old(this.Cursor) >= len(old(this.Buffer)) && len(old(this.suffix)) == 0, M(this.Buffer) == old(M(this.Buffer)) && this.Cursor == old(this.Cursor))
  ensures [C07] imp(old(this.Cursor) >= len(old(this.Buffer)) && len(old(this.suffix)) == 0, M(this.Buffer) == old(M(this.Buffer)))
  ensures [C07] imp(old(this.Cursor) >= len(old(this.Buffer)) && len(old(this.suffix)) > 0, old(ptext == flat(M(this.Buffer))) && PUT(M(this.Buffer), old(M(this.Buffer)), old(this.Cursor), old(this.Cursor), this.Cursor, norm(old(panswer))))
  ensures [C07] imp(old(this.Cursor) < len(old(this.Buffer)), M(this.Buffer) == old(M(this.Buffer)))
  ensures [C03] imp(old(this.Cursor) >= len(old(this.Buffer)) && len(old(this.suffix)) > 0, PUT(M(this.Buffer), old(M(this.Buffer)), old(this.Cursor), old(this.Cursor), this.Cursor, flat(old(seq(this.suffix)))))
  ensures [C03,C17] rc == 0
  loop b:builder, k:int => 0 <= k && k <= len(this.suffix) && Out(b) == flat(take(seq(this.suffix), k))

func readline.cmdBackwardWord(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  modifies MOVE(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C03] this.Cursor == bns(M(this.Buffer), bsk(M(this.Buffer), old(this.Cursor)))
  ensures [C03,C17] rc == 0
  loop [C03] p:int => bsk(M(this.Buffer), p) == bsk(M(this.Buffer), this.Cursor)
  loop [C03] p:int => bns(M(this.Buffer), p) == bns(M(this.Buffer), bsk(M(this.Buffer), this.Cursor))

func readline.cmdForwardWord(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  modifies MOVE(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C03] this.Cursor == fsk(M(this.Buffer), fns(M(this.Buffer), old(this.Cursor)))
  ensures [C03,C17] rc == 0
  loop p:int => this.Cursor <= p
  loop p:int => p <= len(this.Buffer)
  loop [C03] p:int => fns(M(this.Buffer), p) == fns(M(this.Buffer), this.Cursor)
  loop [C03] p:int => fsk(M(this.Buffer), p) == fsk(M(this.Buffer), fns(M(this.Buffer), this.Cursor))

func readline.cmdClearScreen(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  modifies MOVE(this), this.topColumn, prompt
  modifies [C17] flushed
  ensures [C14] this.topColumn == COL(this.Editor)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C03] this.Cursor == old(this.Cursor)
  ensures [C03,C17] rc == 0

func readline.cmdRepaintOnNewline(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  modifies MOVE(this), this.topColumn, prompt
  modifies [C17] flushed
  ensures [C14] this.topColumn == COL(this.Editor)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C03] this.Cursor == old(this.Cursor)
  ensures [C03,C17] rc == 0

// ---- deletions ----

func readline.cmdBackwardDeleteChar(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this)
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C01,C04,C10] imp(old(this.Cursor) > 0, GREW(this)) && imp(old(this.Cursor) == 0, H(this) == old(H(this)))
  ensures imp(old(this.Cursor) > 0, CUT(M(this.Buffer), old(M(this.Buffer)), old(this.Cursor) - 1, old(this.Cursor)) && this.Cursor == old(this.Cursor) - 1)
  ensures imp(old(this.Cursor) == 0, M(this.Buffer) == old(M(this.Buffer)) && this.Cursor == 0)
  ensures base(this.Buffer) == old(base(this.Buffer)) || isfresh(base(this.Buffer))
  ensures keepU(this)
  ensures [C03,C17] rc == 0

func readline.cmdDeleteChar(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this)
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] imp(old(this.Cursor) < old(len(this.Buffer)), GREW(this)) && imp(old(this.Cursor) >= old(len(this.Buffer)), H(this) == old(H(this)))
  ensures [C03] imp(old(this.Cursor) < old(len(this.Buffer)), CUT(M(this.Buffer), old(M(this.Buffer)), old(this.Cursor), old(this.Cursor) + 1))
  ensures [C03] imp(old(this.Cursor) >= old(len(this.Buffer)), M(this.Buffer) == old(M(this.Buffer)))
  ensures [C03] this.Cursor == old(this.Cursor)
  ensures [C03,C17] rc == 0

func readline.cmdDeleteOrAbort(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this)
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] H(this) == old(H(this)) || GREW(this)
  ensures [C03] imp(old(this.Cursor) < old(len(this.Buffer)), CUT(M(this.Buffer), old(M(this.Buffer)), old(this.Cursor), old(this.Cursor) + 1))
  ensures [C03] imp(old(this.Cursor) >= old(len(this.Buffer)), M(this.Buffer) == old(M(this.Buffer)))
  ensures [C03] this.Cursor == old(this.Cursor)
  ensures [C03,C17] rc == ite(old(len(this.Buffer)) == 0, 2, 0)
  ensures [C17] imp(rc == 2, len(this.Buffer) == 0)

func readline.cmdKillLine(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies Out(this.Out), this.suffix, EDIT(this), Clip
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] GREW(this)
  ensures [C03] M(this.Buffer) == take(old(M(this.Buffer)), this.Cursor) && Clip == flat(drop(old(M(this.Buffer)), this.Cursor))
  ensures [C03,C17] rc == 0

func readline.cmdKillWholeLine(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies Out(this.Out), this.suffix, EDIT(this), this.Cursor, this.ViewStart
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this) && len(this.suffix) == 0
  ensures [C01,C04,C10] chain(this)
  ensures [C01,C04,C10] GREW(this)
  ensures M(this.Buffer) == nil_M && len(this.Buffer) == 0 && this.Cursor == 0
  ensures base(this.Buffer) == old(base(this.Buffer))
  ensures keepU(this)
  ensures [C03,C17] rc == 0

func readline.cmdUnixWordRubout(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this), Clip
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] H(this) == old(H(this)) && M(this.Buffer) == old(M(this.Buffer)) || GREW(this)
  ensures [C03] let(o, old(M(this.Buffer)), let(top, wordtop(readline.Delimiters, o, bsk(o, old(this.Cursor))), \
    this.Cursor == top && CUT(M(this.Buffer), o, top, old(this.Cursor)) && Clip == flat(sub(o, top, old(this.Cursor)))))
  ensures [C03,C17] rc == 0
  loop [C03] bsk(M(this.Buffer), this.Cursor) == bsk(M(this.Buffer), old(this.Cursor))
  loop 0 <= this.Cursor && this.Cursor <= old(this.Cursor)

func readline.cmdUnixLineDiscard(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this), Clip
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] H(this) == old(H(this)) && M(this.Buffer) == old(M(this.Buffer)) || GREW(this)
  ensures [C03] M(this.Buffer) == drop(old(M(this.Buffer)), old(this.Cursor)) && this.Cursor == 0 && Clip == flat(take(old(M(this.Buffer)), old(this.Cursor)))
  ensures [C03,C17] rc == 0

func readline.cmdSwapChar(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this)
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] H(this) == old(H(this)) && M(this.Buffer) == old(M(this.Buffer)) || GREW(this)
  ensures [C03] let(o, old(M(this.Buffer)), let(c, old(this.Cursor), let(n, old(len(this.Buffer)), \
    imp(c == n && c >= 2, M(this.Buffer) == cat(take(o, c-2), unit(idx_M(o, c-1)), unit(idx_M(o, c-2))) && this.Cursor == c) \
    && imp(c < n && c >= 1, M(this.Buffer) == cat(take(o, c-1), unit(idx_M(o, c)), unit(idx_M(o, c-1)), drop(o, c+1)) && this.Cursor == c+1) \
    && imp(c == 0 || c == 1 && n == 1, M(this.Buffer) == o && this.Cursor == c))))
  ensures [C03,C17] rc == 0

// ---- insertions ----

define KEYS(s) = ite(len(s) == 2 && s[0] == 27, drop(s, 1), s)
define isZ(k) = moji.ZeroWidthJoinSequenceOk && FIRST(k) == 8205
define isComb(k) = moji.VariationSequenceOk && (uis(ref(unicode.Variation_Selector), FIRST(k)) || uis(ref(unicode.Me), FIRST(k))) || moji.ModifierSequenceOk && 127995 <= FIRST(k) && FIRST(k) <= 127999
define TYPED(B, s) = let(k, KEYS(s), let(c, old(B.Cursor), let(o, old(M(B.Buffer)), \
    imp(c > 0 && isZ(k), CUT(M(B.Buffer), o, c-1, c) && B.Cursor == c-1 && B.pending == cat(bytes(idx_M(o, c-1)), k)) \
    && imp(c > 0 && !isZ(k) && isComb(k), PUT(M(B.Buffer), o, c-1, c, B.Cursor, cat(bytes(idx_M(o, c-1)), k)) && B.pending == old(B.pending)) \
    && imp(!(c > 0 && (isZ(k) || isComb(k))), PUT(M(B.Buffer), o, c, c, B.Cursor, cat(old(B.pending), k)) && B.pending == ""))))

func readline.(SelfInserter).Call(s, ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this), this.pending
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] KEPT(this)
  ensures [C03] TYPED(this, s)
  ensures [C03,C17] rc == 0

func readline.mojiAndStringToString(m, s) (r)
  requires wfm(m)
  ensures r == cat(bytes(m), s)

func readline.cmdQuotedInsert(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this), this.pending, TTY()
  modifies [C17] flushed
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] KEPT(this)
  ensures [C03] imp(lasterr == nil, TYPED(this, lastkey))
  ensures [C03] imp(lasterr != nil, M(this.Buffer) == old(M(this.Buffer)) && this.Cursor == old(this.Cursor))
  ensures [C03,C17] rc == 0

define YANKED(B, ok, s) = imp(ok, PUT(M(B.Buffer), old(M(B.Buffer)), old(B.Cursor), old(B.Cursor), B.Cursor, s)) && imp(!ok, M(B.Buffer) == old(M(B.Buffer)) && B.Cursor == old(B.Cursor))

func readline.cmdYank(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this)
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] KEPT(this)
  ensures [C03] YANKED(this, clipok(Clip), trimright(cliptext(Clip), "\r\n\000"))
  ensures [C03,C17] rc == 0

func readline.cmdYankWithQuote(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this)
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] KEPT(this)
  ensures [C03] let(t, cliptext(Clip), YANKED(this, clipok(Clip), ite(hasrune(t, 32) && !(len(t) >= 1 && take(t, 1) == "\""), \
    replaceall(cat("\"", replaceall(t, "\"", "\"\""), "\""), "\r\n", "\"\r\n\""), t)))
  ensures [C03,C17] rc == 0

// ---- undo ----

func readline.cmdUndo(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  requires [C01,C04,C05,C07,C10,C17] chain(this)
  modifies MOVE(this), EDIT(this)
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures [C04] imp(old(len(this.undoes)) == 0, M(this.Buffer) == old(M(this.Buffer)) && H(this) == old(H(this)))
  ensures [C04] imp(old(len(this.undoes)) > 0, H(this) == take(old(H(this)), len(old(H(this))) - 1) && M(this.Buffer) == idx_L(old(H(this)), len(old(H(this))) - 2))
  ensures [C17] rc == 0

// ---- history ----

define okH(B) = 0 <= B.historyPointer && B.historyPointer <= hlen(B.History)
// the text kept for position i: the modified one, else the history entry
define SHOWN(B, i) = ite(B.modifiedHistory != nil && sel(mapdom(B.modifiedHistory), i), sel(mapval(B.modifiedHistory), i), ite(i < hlen(B.History), hat(B.History, i), ""))
// leaving position p with the text t changes what is kept for p only
define LEFT(B, p, t) = SHOWN(B, p) == t && forall(i, "Int", imp(i != p && 0 <= i, SHOWN(B, i) == old(SHOWN(B, i))), sel(mapdom(B.modifiedHistory), i))
define STAY(B) = M(B.Buffer) == old(M(B.Buffer)) && B.Cursor == old(B.Cursor) && B.historyPointer == old(B.historyPointer) && B.modifiedHistory == old(B.modifiedHistory) \
  && mapdom(B.modifiedHistory) == old(mapdom(B.modifiedHistory)) && mapval(B.modifiedHistory) == old(mapval(B.modifiedHistory))
// the line moved to position n
define MOVED(B, n) = B.historyPointer == n && LEFT(B, old(B.historyPointer), flat(old(M(B.Buffer)))) && flat(M(B.Buffer)) == norm(SHOWN(B, n))

func readline.(*Buffer).saveModifiedHistory(B)
  requires okL(B)
  requires okH(B)
  modifies B.modifiedHistory, mapof(B.modifiedHistory)
  ensures LEFT(B, B.historyPointer, flat(M(B.Buffer)))
  ensures B.modifiedHistory == old(B.modifiedHistory) || isfresh(B.modifiedHistory)

func readline.(*Buffer).getHistory(B) (s)
  requires okL(B)
  requires okH(B)
  ensures s == SHOWN(B, B.historyPointer)

func readline.cmdPreviousHistory(ctx, this) (rc) root
  requires okB(this) && okH(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this), this.historyPointer, this.modifiedHistory, mapof(this.modifiedHistory)
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures okB(this) && okH(this)
  ensures [C07] SUF(this)
  ensures [C05] let(p, old(this.historyPointer), ite(hlen(this.History) == 0 || p == 0 && !this.HistoryCycling, STAY(this), MOVED(this, ite(p == 0, hlen(this.History), p - 1))))
  ensures [C01,C04,C10] chain(this)
  ensures [C04] KEPT(this)
  ensures [C17] rc == 0

func readline.cmdNextHistory(ctx, this) (rc) root
  requires okB(this) && okH(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this), this.historyPointer, this.modifiedHistory, mapof(this.modifiedHistory)
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures okB(this) && okH(this)
  ensures [C07] SUF(this)
  ensures [C05] let(p, old(this.historyPointer), ite(p >= hlen(this.History), STAY(this), MOVED(this, p + 1)))
  ensures [C01,C04,C10] chain(this)
  ensures [C04] KEPT(this)
  ensures [C17] rc == 0

// ---- incremental search ----

// a history entry contains the search text, ignoring case
define MATCH(B, i) = contains(upperstr(hat(B.History, i)), upperstr(stext))
define NOMATCH(B, from) = all(j, from, hlen(B.History), !MATCH(B, j), hat(B.History, j))

func readline.cmdISearchBackward(ctx, this) (rc) root
  requires okB(this)
  requires [C07] SUF(this)
  // the search begins
  requires [C06] stext == "" && !styped && !stepped
  requires [C01,C04,C10] chain(this)
  modifies MOVE(this), EDIT(this), TTY()
  modifies [C17] flushed
  sync [C01,C04,C10] hist(ref(this)) := NOW(this)
  ensures [*,C05,C10] okB(this)
  ensures [C07] SUF(this)
  ensures [C06] imp(lasterr != nil || lastkey != "\r", M(this.Buffer) == old(M(this.Buffer)) && this.Cursor == old(this.Cursor) && this.undoes == old(this.undoes) \
    && all(i, 0, len(this.undoes), UREF(this, i) == old(UREF(this, i)) && U(this, i).pos == old(U(this, i).pos) && U(this, i).del == old(U(this, i).del) && M(U(this, i).text) == old(M(U(this, i).text)), UREF(this, i)))
  ensures [C06] imp(lasterr == nil && lastkey == "\r", \
    some(i, 0, hlen(this.History), flat(M(this.Buffer)) == norm(hat(this.History, i)) && MATCH(this, i) && imp(!stepped, NOMATCH(this, i + 1)), hat(this.History, i)) \
    || flat(M(this.Buffer)) == "" && imp(!stepped && styped, NOMATCH(this, 0)))
  ensures [C01,C04,C10] chain(this)
  ensures [C04] KEPT(this)
  ensures [C17] rc == 0
  loop WT()
  loop p:int => -1 <= p && p < hlen(this.History)
  loop p:int => p < hlen(this.History)
  loop [C06] s:str => s == stext
  loop [C06] b:builder => Out(b) == stext
  loop [C06] f:str, p:int => f == "" || 0 <= p && p < hlen(this.History) && f == hat(this.History, p) && MATCH(this, p)
  loop [C06] f:str => styped || stepped || f == ""
  loop [C06] f:str, p:int => imp(!stepped && styped, f == "" && NOMATCH(this, 0) || 0 <= p && p < hlen(this.History) && f == hat(this.History, p) && MATCH(this, p) && NOMATCH(this, p + 1))
  loop [C06] i:int => NOMATCH(this, i + 1)
  loop [C06] b:builder, k:int, l:int32, s:outer:string => ite(k == 0, Out(b) == "", cat(Out(b), ite(k >= len(s), "", cat(enc(l), chopr(drop(s, k))))) == stext)
  loop i:int => -2 <= i
  loop p:int => 0 <= p || hlen(this.History) == 0
  decreases i:int => hlen(this.History) - i
  decreases i:int, p:outer:int => ite(i < p, i + hlen(this.History) + 2, i + 1)
