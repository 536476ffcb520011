// Colour sequences: the count is kept in the lowest byte, the codes in the
// bytes above it.  Verified with 64-bit vectors.

define CNT(c) = c & 255
define CODE(c, i) = (c >> (8 * (i))) & 255
define UNUSED(c, i) = imp(CNT(c) < i, CODE(c, i) == 0)
// a sequence of at most six codes; the unused bytes are zero, so that equal
// lists of codes are equal numbers
define COLORS(c) = c >= 0 && CNT(c) <= 6 && UNUSED(c, 1) && UNUSED(c, 2) && UNUSED(c, 3) && UNUSED(c, 4) && UNUSED(c, 5) && UNUSED(c, 6) && CODE(c, 7) == 0
define BYTE(n) = 0 <= n && n <= 255
define ADDED(r, c, v, i) = CODE(r, i) == ite(i <= CNT(c), CODE(c, i), ite(i == CNT(c) + 1, v, 0))
define CHAINED(r, c, v, i) = CODE(r, i) == ite(i <= CNT(c), CODE(c, i), CODE(v, i - CNT(c)))
// the text written for a sequence; the empty sequence writes nothing
define MORE(c, i) = cat(";", dec(CODE(c, i)))
define WRITTEN(c) = ite(CNT(c) == 0, "", cat("\x1b[", cat(dec(CODE(c, 1)), cat(ite(CNT(c) >= 2, MORE(c, 2), ""), cat(ite(CNT(c) >= 3, MORE(c, 3), ""), cat(ite(CNT(c) >= 4, MORE(c, 4), ""), cat(ite(CNT(c) >= 5, MORE(c, 5), ""), cat(ite(CNT(c) >= 6, MORE(c, 6), ""), "m"))))))))

func readline.(ColorSequence).Add(c, value) (r) root bv=C13 unroll=8 props=C13
  requires COLORS(c) && CNT(c) < 6 && BYTE(value)
  ensures [C13] COLORS(r) && CNT(r) == CNT(c) + 1
  ensures [C13] ADDED(r, c, value, 1) && ADDED(r, c, value, 2) && ADDED(r, c, value, 3) && ADDED(r, c, value, 4) && ADDED(r, c, value, 5) && ADDED(r, c, value, 6)

func readline.(ColorSequence).Chain(c, value) (r) root bv=C13 unroll=8 props=C13
  requires COLORS(c) && COLORS(value) && CNT(c) + CNT(value) <= 6
  ensures [C13] COLORS(r) && CNT(r) == CNT(c) + CNT(value)
  ensures [C13] CHAINED(r, c, value, 1) && CHAINED(r, c, value, 2) && CHAINED(r, c, value, 3) && CHAINED(r, c, value, 4) && CHAINED(r, c, value, 5) && CHAINED(r, c, value, 6)

func readline.SGR1(a) (r) root bv=C13 unroll=8 props=C13
  requires BYTE(a)
  ensures [C13] COLORS(r) && CNT(r) == 1 && CODE(r, 1) == a

func readline.SGR2(a, b) (r) root bv=C13 unroll=8 props=C13
  requires BYTE(a) && BYTE(b)
  ensures [C13] COLORS(r) && CNT(r) == 2 && CODE(r, 1) == a && CODE(r, 2) == b

func readline.SGR3(a, b, c) (r) root bv=C13 unroll=8 props=C13
  requires BYTE(a) && BYTE(b) && BYTE(c)
  ensures [C13] COLORS(r) && CNT(r) == 3 && CODE(r, 1) == a && CODE(r, 2) == b && CODE(r, 3) == c

func readline.SGR4(a, b, c, d) (r) root bv=C13 unroll=8 props=C13
  requires BYTE(a) && BYTE(b) && BYTE(c) && BYTE(d)
  ensures [C13] COLORS(r) && CNT(r) == 4 && CODE(r, 1) == a && CODE(r, 2) == b && CODE(r, 3) == c && CODE(r, 4) == d
