// Key input.

// what was read: the text, the characters, and for each character what the
// terminal answered when asked for more: 0 no, 1 yes, 2 not asked
ghostvar rtext Str
ghostvar rchars Seq.R
ghostvar rmore Seq.R
// the first half of a surrogate pair, or 0; the last read error
ghostvar rhigh Int
ghostvar rerr Iface
// how often raw mode was switched on without being restored
ghostvar rawmode Int

define INPUT() = mod(rtext, rchars, rmore, rhigh, rerr, nkeys)
define CHAR(c) = rtext == cat(old(rtext), enc(c)) && rchars == cat(old(rchars), unit(c)) && rmore == cat(old(rmore), unit(2)) && rhigh == 0
define NOCHAR() = rtext == old(rtext) && rchars == old(rchars) && rmore == old(rmore)
define SURROGATE(r) = 55296 <= r && r < 57344

iface readline.XTty.ReadRune(t) (r, err) trusted
  requires t != nil
  modifies INPUT()
  ensures rerr == err
  ensures nkeys == old(nkeys) + 1
  ensures imp(err != nil || r == 0, NOCHAR() && rhigh == old(rhigh))
  ensures imp(err == nil && r != 0 && old(rhigh) > 0, CHAR(surpair(old(rhigh), r)))
  ensures imp(err == nil && r != 0 && old(rhigh) == 0 && SURROGATE(r), NOCHAR() && rhigh == r)
  ensures imp(err == nil && r != 0 && old(rhigh) == 0 && !SURROGATE(r), CHAR(r))
  why the ghost variables record what a terminal delivers; NUL is no character, two surrogates are one

iface readline.XTty.Buffered(t) (b) trusted
  requires t != nil
  modifies rmore
  ensures rmore == ite(len(old(rmore)) == 0, old(rmore), upd(old(rmore), len(old(rmore)) - 1, ite(b, 1, 0)))
  why the ghost variable records the answer

iface readline.XTty.Raw(t) (clean, err) trusted
  requires t != nil
  modifies rawmode
  ensures rawmode == old(rawmode) + ite(err == nil, 1, 0)
  why the ghost variable counts

value result 0 of readline.XTty.Raw() (err) nonnil
  modifies rawmode
  ensures rawmode == old(rawmode) - 1
  why the function returned by Raw restores the mode

extern utf16.DecodeRune(a, b) (r) pure
  ensures r == surpair(a, b)
  why definition of surpair

extern utf16.IsSurrogate(r) (ok) pure
  ensures ok == SURROGATE(r)
  why documented

define KEYOK(s) = onech(s) || len(s) > 0 && s[0] == 27

func readline.GetRawKey(tty) (s, err) root
  requires tty != nil
  requires [C11] rhigh == 0 && len(rchars) == len(rmore)
  modifies INPUT()
  ensures nkeys > old(nkeys)
  ensures [C11] err == rerr
  ensures [C11] imp(err == nil, rtext == cat(old(rtext), s) && rhigh == 0 && KEYOK(s))
  ensures [C11] len(rchars) == len(rmore)
  // one character, or an escape sequence as long as more was available
  ensures [C11] imp(err == nil, let(n, len(old(rchars)), len(rchars) == n + 1 && idx_R(rchars, n) != 27 \
    || len(rchars) > n && idx_R(rchars, n) == 27 && idx_R(rmore, len(rchars) - 1) == 0 && all(i, n, len(rchars) - 1, idx_R(rmore, i) == 1, idx_R(rmore, i))))
  loop nkeys >= old(nkeys)
  loop [C11] len(rchars) == len(rmore)
  loop [C11] b:builder => rtext == cat(old(rtext), Out(b))
  loop [C11] k:string => rtext == cat(old(rtext), k)
  loop [C11] h:int32 => h == rhigh
  loop [C11] e:bool => len(rchars) >= len(old(rchars)) && e == (len(rchars) > len(old(rchars)))
  loop [C11] imp(len(rchars) > len(old(rchars)), idx_R(rchars, len(old(rchars))) == 27)
  loop [C11] b:builder => iff(len(rchars) > len(old(rchars)), len(Out(b)) > 0)
  loop [C11] k:string => iff(len(rchars) > len(old(rchars)), len(k) > 0)
  loop [C11] b:builder => Out(b) == "" || sat(Out(b), 0) == 27
  loop [C11] k:string => k == "" || sat(k, 0) == 27
  loop [C11] all(i, len(old(rchars)), len(rchars), idx_R(rmore, i) == 1, idx_R(rmore, i))

func readline.GetKey(tty) (s, err) root
  requires tty != nil
  requires [C11] rhigh == 0 && len(rchars) == len(rmore)
  modifies INPUT(), rawmode
  ensures [C11] rawmode == old(rawmode)
  ensures [C11] imp(err == nil, rtext == cat(old(rtext), s) && rhigh == 0 && KEYOK(s))

func readline.GetKeys(tty) (keys, err) root
  requires tty != nil
  requires [C11] rhigh == 0 && len(rchars) == len(rmore)
  modifies INPUT(), rawmode
  ensures [C11] rawmode == old(rawmode)
  ensures [C11] imp(err == nil, len(keys) > 0 && rtext == cat(old(rtext), catS(seq(keys))) && rhigh == 0)
  ensures [C11] imp(err == nil, all(i, 0, len(keys), KEYOK(idx_S(seq(keys), i)), idx_S(seq(keys), i)))
  ensures [C11] len(rchars) == len(rmore)
  ensures isfresh(base(keys)) || len(keys) == 0
  loop [C11] len(rchars) == len(rmore) && rhigh == 0
  loop k:slice => isfresh(base(k)) || cap(k) == 0
  loop [C11] k:slice => rtext == cat(old(rtext), catS(seq(k)))
  loop [C11] k:slice => all(i, 0, len(k), KEYOK(idx_S(seq(k), i)), idx_S(seq(k), i))

// the keys waiting
define QUEUE(m) = catS(seq(m.buf))
define QUEUEOK(m) = all(i, 0, len(m.buf), KEYOK(idx_S(seq(m.buf), i)), idx_S(seq(m.buf), i))

func readline.(*_Tty).GetKey(m) (key, err) root
  requires m != nil
  requires [C11] rhigh == 0 && len(rchars) == len(rmore)
  requires [C11] QUEUEOK(m)
  modifies m.buf, INPUT(), rawmode
  ensures [C11] rawmode == old(rawmode)
  ensures [C11] imp(old(len(m.buf)) > 0, err == nil && rtext == old(rtext) && old(QUEUE(m)) == cat(key, QUEUE(m)))
  ensures [C11] imp(old(len(m.buf)) == 0 && err == nil, rtext == cat(old(rtext), cat(key, QUEUE(m))))
  ensures [C11] imp(err == nil, KEYOK(key) && QUEUEOK(m))

// ---- tty10 ----

// the bytes read
ghostvar rbytes Str
// whether a read failed or gave nothing
ghostvar rstop Int

extern os.(*File).Fd(f) (n) pure
  why a number

extern os.(*File).Read(f, p) (n, err)
  modifies elems(p), rbytes, rstop, nkeys
  ensures nkeys == old(nkeys) + 1
  ensures rstop == ite(err != nil || n == 0, 1, old(rstop))
  ensures 0 <= n && n <= len(p)
  ensures rbytes == cat(old(rbytes), sub(p, 0, n))
  ensures imp(err != nil, n == 0)
  why the ghost variable records what was read

extern term.MakeRaw(fd) (s, err)
  modifies rawmode, rstop
  ensures rstop == ite(err != nil, 1, old(rstop))
  ensures rawmode == old(rawmode) + ite(err == nil, 1, 0)
  why the ghost variable counts

extern term.Restore(fd, s) (err)
  modifies rawmode
  ensures rawmode == old(rawmode) - 1
  why the ghost variable counts

extern utf8.FullRune(p) (ok) pure
  ensures ok == fullrune(seq(p))
  why definition of fullrune

func tty10.(*Tty).getKey(M) (b, err)
  requires M != nil
  modifies rbytes, rawmode, rstop, nkeys
  ensures err != nil || nkeys > old(nkeys)
  ensures [C11] rstop == ite(err != nil || len(b) == 0, 1, old(rstop))
  ensures [C11] rawmode == old(rawmode)
  ensures [C11] imp(err == nil, rbytes == cat(old(rbytes), seq(b)))
  ensures [C11] imp(err != nil, rbytes == old(rbytes))
  ensures isfresh(base(b)) || len(b) == 0

// the bytes of the keys already delivered
ghostvar rkeys Str

func tty10.(*Tty).GetKey(M) (key, err) root
  requires M != nil
  requires [C11] rbytes == cat(rkeys, seq(M.buf))
  modifies M.buf, elemsAll(M.buf), rbytes, rawmode, rstop, nkeys
  ensures [C11] rawmode == old(rawmode)
  ensures [C11] imp(err == nil, rbytes == cat(rkeys, cat(key, seq(M.buf))))
  ensures [C11] imp(err == nil && len(key) > 0, key[0] == 27 && len(M.buf) == 0 || key[0] != 27 && uchar(key))
  ensures [C11] imp(err == nil && len(key) > 0 && rstop == 0, key[0] == 27 || fullrune(drop(rbytes, len(rkeys))))
  ensures [C11] imp(err == nil && key == "", len(M.buf) == 0)
  loop base(M.buf) == old(base(M.buf)) && off(M.buf) == old(off(M.buf)) && cap(M.buf) == old(cap(M.buf)) || isfresh(base(M.buf))
  loop len(M.buf) > 0
  loop [C11] rbytes == cat(rkeys, seq(M.buf))
  loop [C11] rawmode == old(rawmode)

func auto.(*Pilot).GetKey(ap) (key, err) root
  requires ap != nil
  modifies ap.Text
  ensures [C11] err == nil
  ensures [C11] imp(old(len(ap.Text)) > 0, key == idx_S(old(seq(ap.Text)), 0) && seq(ap.Text) == drop(old(seq(ap.Text)), 1))
  ensures [C11] imp(old(len(ap.Text)) == 0, key == "\r" && len(ap.Text) == 0)
