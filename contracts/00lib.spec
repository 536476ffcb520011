// Library functions: contracts taken from their documentation (unchecked).

ghostvar Clip Str

assumption writers accept everything that is written to them (a failing terminal write is out of scope)
assumption integers of type int do not overflow (lengths, columns and counters stay far below 2^63)
assumption no allocation fails

extern io.WriteString(w, s) (n, err)
  modifies Out(w)
  ensures Out(w) == cat(old(Out(w)), s)
  ensures err == nil && n == len(s)
  why io.WriteString appends exactly s to a writer that does not fail

iface io.Writer.Write(w, p) (n, err) trusted
  modifies Out(w)
  ensures Out(w) == cat(old(Out(w)), seq(p))
  ensures err == nil && n == len(p)
  why an io.Writer appends exactly the bytes given when it does not fail

extern bufio.(*Writer).WriteString(b, s) (n, err)
  modifies Out(b)
  ensures Out(b) == cat(old(Out(b)), s)
  ensures err == nil && n == len(s)
  why documented behaviour of bufio.Writer over a writer that does not fail

extern bufio.(*Writer).WriteByte(b, c) (err)
  modifies Out(b)
  ensures Out(b) == cat(old(Out(b)), sunit(c))
  ensures err == nil
  why documented behaviour of bufio.Writer over a writer that does not fail

extern bufio.(*Writer).Flush(b) (err)
  modifies [C17] flushed(ref(b))
  ensures [C17] flushed(ref(b)) == Out(b)
  ensures err == nil
  why Flush only passes on what was written; the text written so far does not change

extern bufio.NewWriter(w) (b)
  ensures b != nil && isfresh(ref(b))
  why documented

extern strings.(*Builder).WriteString(b, s) (n, err)
  modifies Out(b)
  ensures Out(b) == cat(old(Out(b)), s)
  ensures err == nil && n == len(s)
  why documented

extern strings.(*Builder).WriteByte(b, c) (err)
  modifies Out(b)
  ensures Out(b) == cat(old(Out(b)), sunit(c))
  ensures err == nil
  why documented

extern strings.(*Builder).WriteRune(b, r) (n, err)
  modifies Out(b)
  ensures Out(b) == cat(old(Out(b)), enc(r))
  ensures err == nil && n == len(enc(r))
  why documented

extern strings.(*Builder).String(b) (s) pure
  ensures s == Out(b)
  why documented

extern strings.(*Builder).Len(b) (n) pure
  ensures n == len(Out(b))
  why documented

extern strings.(*Builder).Reset(b)
  modifies Out(b)
  ensures Out(b) == ""
  why documented

extern utf8.DecodeRuneInString(s) (r, size) pure
  ensures r == ite(len(s) == 0, 65533, drune(s))
  ensures size == ite(len(s) == 0, 0, dsize(s))
  why definition of the decoding functions drune and dsize

extern utf8.DecodeRune(p) (r, size) pure
  ensures r == ite(len(p) == 0, 65533, drune(seq(p)))
  ensures size == ite(len(p) == 0, 0, dsize(seq(p)))
  why definition of the decoding functions drune and dsize

extern utf8.EncodeRune(p, r) (n)
  requires len(p) >= 4
  modifies elems(p)
  ensures n == len(enc(r))
  ensures sub(p, 0, n) == enc(r)
  why documented

extern unicode.IsSpace(r) (ok) pure
  ensures ok == isspace(r)
  why definition of isspace

extern unicode.IsControl(r) (ok) pure
  ensures ok == (0 <= r && r < 32 || 127 <= r && r < 160)
  why the Unicode category Cc is fixed

extern unicode.ToUpper(r) (u) pure
  ensures u == upper(r)
  why definition of upper

extern unicode.Is(t, r) (ok) pure
  ensures imp(ok, r >= 256)
  ensures ok == uis(ref(t), r)
  why the two tables used (variation selectors, enclosing marks) have no member below U+0100

extern strings.ContainsRune(s, r) (ok) pure
  ensures ok == hasrune(s, r)
  why definition of hasrune

extern strings.Contains(s, t) (ok) pure
  ensures ok == contains(s, t)
  why definition of contains

extern strings.HasPrefix(s, p) (ok) pure
  ensures iff(ok, len(p) <= len(s) && take(s, len(p)) == p)
  why documented

extern strings.ToUpper(s) (u) pure
  ensures u == upperstr(s)
  why definition of upperstr

extern strings.TrimRight(s, c) (t) pure
  ensures t == trimright(s, c)
  why definition of trimright

extern strings.Replace(s, o, n, k) (t) pure
  requires k < 0
  ensures t == replaceall(s, o, n)
  why definition of replaceall

extern strings.ReplaceAll(s, o, n) (t) pure
  ensures t == replaceall(s, o, n)
  why definition of replaceall

extern clipboard.WriteAll(s) (err)
  modifies Clip
  ensures Clip == s
  why the ghost variable Clip records the text handed to the clipboard

extern clipboard.ReadAll() (s, err)
  ensures s == cliptext(Clip) && iff(err == nil, clipok(Clip))
  why what is read back is whatever the clipboard returns; cliptext is unconstrained

extern utf8.DecodeLastRune(p) (r, size) pure
  ensures r == ite(len(p) == 0, 65533, lrune(seq(p)))
  ensures size == ite(len(p) == 0, 0, lsize(seq(p)))
  why definition of the decoding functions lrune and lsize

extern utf8.DecodeLastRuneInString(s) (r, size) pure
  ensures r == ite(len(s) == 0, 65533, lrune(s))
  ensures size == ite(len(s) == 0, 0, lsize(s))
  why definition of the decoding functions lrune and lsize
