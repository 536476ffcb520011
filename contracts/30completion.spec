// Completion.

extern utf8.RuneCountInString(s) (n) pure
  ensures n == len(rs(s))
  why definition of rs: the number of code points

extern strings.EqualFold(a, b) (ok) pure
  ensures ok == eqfold(a, b)
  why definition of eqfold

extern strings.ContainsAny(s, c) (ok) pure
  ensures ok == anyof(s, c)
  why definition of anyof

extern strings.Index(s, t) (i) pure
  ensures i == sindex(s, t) && i >= -1
  why definition of sindex

extern strings.HasSuffix(s, p) (ok) pure
  ensures iff(ok, len(p) <= len(s) && drop(s, len(s) - len(p)) == p)
  why documented

// the text not yet read from a reader
ghostvar rd (Array Int Str)

extern strings.NewReader(s) (r)
  modifies rd
  ensures r != nil && isfresh(ref(r)) && rd(ref(r)) == s
  ensures forall(x, "Int", imp(x != ref(r), rd(x) == old(rd(x))), rd(x))
  why documented

extern strings.(*Reader).Reset(r, s)
  modifies rd(ref(r))
  ensures rd(ref(r)) == s
  why documented

extern strings.(*Reader).ReadRune(r) (ch, size, err)
  modifies rd(ref(r))
  ensures iff(err == nil, len(old(rd(ref(r)))) > 0)
  ensures imp(err == nil, ch == drune(old(rd(ref(r)))) && size == dsize(old(rd(ref(r)))) && rd(ref(r)) == drop(old(rd(ref(r))), size))
  ensures imp(err != nil, rd(ref(r)) == old(rd(ref(r))))
  why documented

// a and b start with the same n characters, ignoring case
define SAME(a, b, n) = n <= len(a) && n <= len(b) && all(i, 0, n, upper(idx_R(a, i)) == upper(idx_R(b, i)), idx_R(b, i))
// a and b cannot have more than n characters in common
define ENDS(a, b, n) = n >= len(a) || n >= len(b) || upper(idx_R(a, n)) != upper(idx_R(b, n))
define CAND(list, j) = idx_S(list, j)
define L0(list) = rs(CAND(list, 0))
define SHARED(list, k, n) = n <= len(L0(list)) && all(j, 0, k, SAME(L0(list), rs(CAND(list, j)), n), CAND(list, j))
define LONGEST(list, k, n) = n == len(L0(list)) || some(j, 0, k, ENDS(L0(list), rs(CAND(list, j)), n), CAND(list, j))

// the last result of commonPrefix
ghostvar cpfx Str

func completion.commonPrefix(list) (s) root
  modifies rd, cpfx
  ghost cpfx := s
  ensures s == cpfx
  ensures [C16] imp(len(list) == 0, s == "")
  // the characters of the result are the longest common prefix, and the
  // result is the start of one of the candidates
  ensures [C16] imp(len(list) > 0, SHARED(seq(list), len(list), len(rs(s))) && LONGEST(seq(list), len(list), len(rs(s))))
  ensures [C16] imp(len(list) > 0, some(m, 0, len(list), STARTS(CAND(seq(list), m), s) && rs(s) == take(rs(CAND(seq(list), m)), len(rs(s))), CAND(seq(list), m)))
  loop [C16] c:str => len(rs(c)) <= len(L0(seq(list))) && rs(c) == take(L0(seq(list)), len(rs(c))) && all(i, 0, len(rs(c)), idx_R(rs(c), i) == idx_R(L0(seq(list)), i), idx_R(L0(seq(list)), i))
  loop [C16] c:str, k:int => 0 <= k && k + 1 <= len(list) && len(CAND(seq(list), k)) >= 0 && SHARED(seq(list), k + 1, len(rs(c)))
  loop [C16] c:str, k:int => 0 <= k && k + 1 <= len(list) && len(CAND(seq(list), k)) >= 0 && LONGEST(seq(list), k + 1, len(rs(c)))
  loop [C16] b:builder, r:outer:*strings.Reader, s:outer:string => len(rs(Out(b))) <= len(rs(s)) && rs(s) == cat(take(rs(s), len(rs(Out(b)))), rs(rd(ref(r))))
  loop [C16] b:builder, s:outer:string => len(rs(Out(b))) <= len(rs(s)) && rs(Out(b)) == take(rs(s), len(rs(Out(b))))
  loop [C16] b:builder, s:outer:string => SAME(rs(Out(b)), rs(s), len(rs(Out(b))))
  loop [C01,C15] e:int, s:outer:string => 0 <= e && e <= len(s)
  decreases r:outer:*strings.Reader => len(rd(ref(r)))
  loop m:int => 0 <= m && m < len(list) && when("C16", len(CAND(seq(list), m)) >= 0)
  loop [C16] a:*strings.Reader, b:*strings.Reader => imp(a != nil && b != nil, ref(a) != ref(b))
  loop [C16] e:int, n:int, s:outer:string, c:outer:string => 0 <= n && 0 <= e && e <= len(s) && bd(s, e) && len(rs(take(s, e))) + n == len(rs(c))

func completion.removeQuotes(s, q) (r)
  ensures [C15,C16] r == unq(q, s)
  loop [C15,C16] b:builder, k:int => 0 <= k && k <= len(s) && cat(Out(b), unq(q, drop(s, k))) == unq(q, s)
  loop [C15,C16] b:builder, t:str => cat(Out(b), unq(q, t)) == unq(q, s)

define MATCHES(full, what, w, k) = flt(seq(full), seq(what), w, k)

func completion.removeUnmatches(full, base, source) (newFull, newBase)
  requires len(base) == len(full)
  ensures len(newBase) == len(newFull)
  ensures [C15,C16] seq(newFull) == MATCHES(full, full, source, len(full))
  ensures [C15,C16] seq(newBase) == MATCHES(full, base, source, len(full))
  loop r:slice => isfresh(base(r)) || cap(r) == 0
  loop a:slice, b:slice => base(a) != base(b) || cap(a) == 0
  loop a:slice, b:slice => len(a) == len(b)
  loop [C15,C16] r:slice, k:int => 0 <= k && k <= len(full) && seq(r) == MATCHES(full, full, source, k)
  loop [C15,C16] r:slice, k:int => 0 <= k && k <= len(full) && seq(r) == MATCHES(full, base, source, k)

// some candidate contains one of the characters
define SOMEOF(list, chars) = some(j, 0, len(list), anyof(CAND(list, j), chars), CAND(list, j))

func completion.hasToInsertQuotation(list, chars) (ok)
  ensures [C15,C16] ok == SOMEOF(seq(list), chars)
  loop [C15,C16] k:int => 0 <= k && k <= len(list) && len(CAND(seq(list), k)) >= 0 && all(j, 0, k, !anyof(CAND(seq(list), j), chars), CAND(seq(list), j))

// ---- the word to be completed ----

define SP() = " \t\r\n\v\f"
define START(B, q, d, i) = cst(q, d, SP(), M(B.Buffer), i)
define OPEN(B, q, d, i) = cbt(q, d, SP(), M(B.Buffer), i)
define LASTW(B, q, d, i) = clast(q, d, SP(), M(B.Buffer), i)
define WORD(B, q, d, i) = cword(q, d, SP(), M(B.Buffer), i)
define WSTART(B, q, d) = lwstart(q, d, SP(), M(B.Buffer), B.Cursor)
define TYPEDW(B, q, d) = lword(q, d, SP(), M(B.Buffer), B.Cursor)
define SPACEAT(B, i) = cspace(SP(), idx_M(M(B.Buffer), i))
define QUOTEAT(B, q, i) = cquote(q, idx_M(M(B.Buffer), i))
// the last field is the word w that starts at a (-1: no field)
define FIN(f, last, a, w) = iff(len(f) > 0, a >= 0) && imp(a >= 0, last == a && idx_S(seq(f), len(f) - 1) == w)

func completion.split(quotes, del, B) (fields, lastWordStart)
  requires okL(B) && 0 <= B.Cursor && B.Cursor <= len(B.Buffer)
  ensures 0 <= lastWordStart && lastWordStart <= B.Cursor
  ensures [C15,C16] FIN(fields, lastWordStart, WSTART(B, quotes, del), TYPEDW(B, quotes, del))
  loop f:slice => isfresh(base(f)) || cap(f) == 0
  loop i:int => 0 <= i && i <= B.Cursor
  loop i:int => i < B.Cursor
  loop [C15,C16] i:int, last:int, f:slice => START(B, quotes, del, i) == i && FIN(f, last, LASTW(B, quotes, del, i), WORD(B, quotes, del, i)) \
    || i < B.Cursor && START(B, quotes, del, i) < i && OPEN(B, quotes, del, i) == 0 && SPACEAT(B, i) && !QUOTEAT(B, quotes, i) \
      && FIN(f, last, START(B, quotes, del, i), unq(quotes, flat(sub(M(B.Buffer), START(B, quotes, del, i), i))))
  loop [C15,C16] i:int, last:outer:int, f:outer:[]string => START(B, quotes, del, i) == i && FIN(f, last, LASTW(B, quotes, del, i), WORD(B, quotes, del, i)) \
    || i < B.Cursor && START(B, quotes, del, i) < i && OPEN(B, quotes, del, i) == 0 && SPACEAT(B, i) && !QUOTEAT(B, quotes, i) \
      && FIN(f, last, START(B, quotes, del, i), unq(quotes, flat(sub(M(B.Buffer), START(B, quotes, del, i), i))))
  loop [C15,C16] i:int, st:outer:int, b:int => st <= i && !SPACEAT(B, st) && st == START(B, quotes, del, i) && b == OPEN(B, quotes, del, i)
  loop [C15,C16] i:int, last:outer:int, f:outer:[]string => FIN(f, last, LASTW(B, quotes, del, i), WORD(B, quotes, del, i))

// ---- completing ----

// what the last question to the candidate source was answered
ghostvar cfull Seq.S
ghostvar cbase Seq.S

assumption [C15,C16] a candidate source gives no display names or one for every candidate, and does not change the line

iface completion.Completion.List(c, fields) (full, base) trusted
  requires len(fields) > 0
  modifies cfull, cbase
  ensures seq(full) == cfull && seq(base) == cbase && (len(base) == 0 || len(base) == len(full))
  why the candidate source belongs to the user; completion.File is checked against this contract

iface completion.Completion.Enclosures(c) (s) trusted pure
  ensures s == cenclosures(c)
  why the candidate source belongs to the user

iface completion.Completion.Delimiters(c) (s) trusted pure
  ensures s == cdelimiters(c)
  why the candidate source belongs to the user

// the candidates that start with the word, and their display names
define FOUND(w) = flt(cfull, cfull, w, len(cfull))
define NAMES(w) = ite(len(cbase) == 0, FOUND(w), flt(cfull, cbase, w, len(cfull)))
define QUOTE(q) = enc(q[0])
define ONE(q, d, x) = ite(len(q) > 0 && len(d) > 0 && anyof(x, cat(SP(), d)), cat(QUOTE(q), x, QUOTE(q)), x)
define MANY(q, d, list, x) = ite(len(q) > 0 && SOMEOF(list, cat(SP(), d)), cat(QUOTE(q), x), x)
define UNTOUCHED(B) = M(B.Buffer) == old(M(B.Buffer)) && B.Cursor == old(B.Cursor)
// only the text from a to the cursor is replaced
define ONLY(B, a) = a <= B.Cursor && M(B.Buffer) == cat(take(old(M(B.Buffer)), a), sub(M(B.Buffer), a, B.Cursor), drop(old(M(B.Buffer)), old(B.Cursor)))
define REPLACED(B, a, s) = ONLY(B, a) && flat(sub(M(B.Buffer), a, B.Cursor)) == norm(s)
define COMPLETED(B, q, d, postfix, a, w) = \
     imp(a < 0 || len(FOUND(w)) == 0, UNTOUCHED(B)) \
  && imp(a >= 0 && len(FOUND(w)) == 1, ite(eqfold(w, CAND(FOUND(w), 0)), UNTOUCHED(B), REPLACED(B, a, cat(ONE(q, d, CAND(FOUND(w), 0)), postfix)))) \
  && imp(a >= 0 && len(FOUND(w)) > 1, ite(eqfold(w, cpfx), UNTOUCHED(B), REPLACED(B, a, MANY(q, d, FOUND(w), cpfx))))
define AGREED(w) = SHARED(FOUND(w), len(FOUND(w)), len(rs(cpfx))) && LONGEST(FOUND(w), len(FOUND(w)), len(rs(cpfx))) \
  && some(m, 0, len(FOUND(w)), STARTS(CAND(FOUND(w), m), cpfx) && rs(cpfx) == take(rs(CAND(FOUND(w), m)), len(rs(cpfx))), CAND(FOUND(w), m))

func completion.complete(quotes, del, B, C, postfix) (names)
  requires okB(B) && C != nil
  requires [C01,C04,C10] chain(B)
  requires [C07] SUFOFF(B)
  modifies EDIT(B), PAINT(B), B.ViewStart, B.Cursor, cfull, cbase, rd, cpfx
  modifies [C01,C04,C10] hist(ref(B))
  ensures okB(B)
  ensures [C01,C04,C10] chain(B)
  ensures [C07] SUFOFF(B)
  ensures keepU(B)
  ensures base(B.Buffer) == old(base(B.Buffer)) || isfresh(base(B.Buffer))
  ensures [C15,C16] COMPLETED(B, quotes, del, postfix, old(WSTART(B, quotes, del)), old(TYPEDW(B, quotes, del)))
  ensures [C16] imp(old(WSTART(B, quotes, del)) >= 0 && len(FOUND(old(TYPEDW(B, quotes, del)))) > 1, AGREED(old(TYPEDW(B, quotes, del))))
  ensures [C16] imp(old(WSTART(B, quotes, del)) >= 0 && len(FOUND(old(TYPEDW(B, quotes, del)))) > 1 && eqfold(old(TYPEDW(B, quotes, del)), cpfx), len(names) > 0)
  ensures [C15,C16] imp(len(names) > 0, old(WSTART(B, quotes, del)) >= 0 && seq(names) == NAMES(old(TYPEDW(B, quotes, del))))

extern box.Print(ctx, names, w) (ok)
  requires w != nil
  modifies Out(w), boxed
  ensures boxed == seq(names)
  why the table of go-box is output only

// the names the last table was made of
ghostvar boxed Seq.S

define CALLED(B, c, postfix) = COMPLETED(B, cenclosures(c), cdelimiters(c), postfix, old(WSTART(B, cenclosures(c), cdelimiters(c))), old(TYPEDW(B, cenclosures(c), cdelimiters(c))))

func completion.(CmdCompletion).Call(C, ctx, B) (rc) root
  requires okB(B) && C.Completion != nil
  requires [C01,C04,C10] chain(B)
  requires [C07] SUFOFF(B)
  modifies EDIT(B), PAINT(B), B.ViewStart, B.Cursor, cfull, cbase, rd, cpfx
  modifies [C01,C04,C10] hist(ref(B))
  ensures okB(B)
  ensures [C01,C04,C10] chain(B)
  ensures [C07] SUFOFF(B)
  ensures [C15,C16] CALLED(B, C.Completion, C.Postfix)

func completion.(CmdCompletionOrList).Call(C, ctx, B) (rc) root
  requires okB(B) && C.Completion != nil
  requires [C01,C04,C10] chain(B)
  requires [C07] SUFOFF(B)
  modifies EDIT(B), PAINT(B), B.ViewStart, B.Cursor, cfull, cbase, rd, cpfx, B.topColumn, prompt, boxed
  modifies [C01,C04,C10] hist(ref(B))
  ensures okB(B)
  ensures [C01,C04,C10] chain(B)
  ensures [C07] SUFOFF(B)
  ensures [C15,C16] CALLED(B, C.Completion, C.Postfix)
  // the table lists the display names of the candidates that are left
  ensures [C16] LISTED(C.Completion, old(TYPEDW(B, cenclosures(C.Completion), cdelimiters(C.Completion))), old(WSTART(B, cenclosures(C.Completion), cdelimiters(C.Completion))))

define LISTED(c, w, a) = imp(a >= 0 && len(FOUND(w)) > 1 && eqfold(w, cpfx), boxed == NAMES(w))

// ---- files ----

extern os.ReadDir(name) (entries, err)
  ensures imp(err == nil, NN(seq(entries)))
  why documented

iface fs.DirEntry.Name(d) (s) trusted pure
  ensures len(s) >= 0
  why documented

iface fs.DirEntry.Type(d) (m) trusted pure
  ensures m >= 0
  why documented

extern filepath.Base(p) (b) pure
  ensures imp(len(p) > 0 && p[len(p) - 1] != 47, len(b) <= len(p) && drop(p, len(p) - len(b)) == b)
  why documented: the last element of the path, a suffix of it when the path has no trailing separator

func completion.(File).List(f, field) (full, base) root props=C15
  ensures [*,C15] len(base) == len(full)
  loop r:slice => isfresh(base(r)) || cap(r) == 0
  loop a:slice, b:slice => base(a) != base(b) || cap(a) == 0
  loop a:slice, b:slice => len(a) == len(b)
  loop f:slice, d:str => len(f) == 0 || len(f) == 1 && idx_S(seq(f), 0) == d
  loop f:slice, g:outer:[]string => imp(len(g) > 0, len(f) > 0 && idx_S(seq(f), 0) == entry(idx_S(seq(g), 0)))
  decreases f:slice => ite(len(f) == 0, 1, 0)
