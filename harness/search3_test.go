package readline_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"syscall"
	"time"
	"unicode/utf16"
	"unicode/utf8"
	"unsafe"

	rl "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/auto"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/nameutils"
	"github.com/nyaosorg/go-readline-ny/tty10"
)

// within runs f; a panic or a run that does not end is the answer.
func within(d time.Duration, f func() string) string {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				ch <- fmt.Sprintf("panic: %v", e)
			}
		}()
		ch <- f()
	}()
	select {
	case s := <-ch:
		return s
	case <-time.After(d):
		return fmt.Sprintf("does not return (%v)", d)
	}
}

// ---- C11: key input ----

var errRead = errors.New("read error")

type fakeX struct {
	bursts [][]rune
	fail   int // position of the read error
	n      int
	raw    int
	depth  int
}

func (x *fakeX) Raw() (func() error, error) {
	x.raw++
	x.depth++
	return func() error { x.depth--; return nil }, nil
}

func (x *fakeX) ReadRune() (rune, error) {
	if x.n == x.fail {
		return 0, errRead
	}
	i := x.n
	for _, b := range x.bursts {
		if i < len(b) {
			x.n++
			return b[i], nil
		}
		i -= len(b)
	}
	return 0, errRead
}

func (x *fakeX) Buffered() bool {
	i := x.n
	for _, b := range x.bursts {
		if i < len(b) {
			return i > 0
		}
		i -= len(b)
	}
	return false
}

// chars gives the characters of the first n units read.
func (x *fakeX) chars() (out []string) {
	var all []rune
	for _, b := range x.bursts {
		all = append(all, b...)
	}
	var high rune
	for _, r := range all[:x.n] {
		switch {
		case r == 0:
		case high != 0:
			out = append(out, string(utf16.DecodeRune(high, r)))
			high = 0
		case utf16.IsSurrogate(r):
			high = r
		default:
			out = append(out, string(r))
		}
	}
	return out
}

func (x *fakeX) burst() string {
	for _, b := range x.bursts {
		if x.n < len(b) {
			s := fakeX{bursts: [][]rune{b[x.n:]}, n: len(b) - x.n}
			return strings.Join(s.chars(), "")
		}
	}
	return ""
}

var keyText = []string{"a", "b", "\r", "\x03", "é", "あ", "😀", "👍", "\x1b", "\x1b[A", "\x1b[3~", "\x1bb", "\x00", "\x7f", " "}

func keyBursts(r *rand.Rand) [][]rune {
	var out [][]rune
	for i := 1 + r.Intn(4); i > 0; i-- {
		var b []rune
		for j := 1 + r.Intn(4); j > 0; j-- {
			for _, c := range keyText[r.Intn(len(keyText))] {
				if c > 0xffff && r.Intn(2) == 0 {
					h, l := utf16.EncodeRune(c)
					b = append(b, h, l)
				} else {
					b = append(b, c)
				}
			}
		}
		out = append(out, b)
	}
	return out
}

func searchXTty(r *rand.Rand) string {
	x := &fakeX{bursts: keyBursts(r), fail: -1}
	total := 0
	for _, b := range x.bursts {
		total += len(b)
	}
	if r.Intn(3) == 0 {
		x.fail = r.Intn(total + 1)
	}
	mode := r.Intn(3)
	name := []string{"GetKey", "GetKeys", "GetRawKey"}[mode]
	var got []string
	m := within(5*time.Second, func() string {
		for {
			pos := x.n
			var ks []string
			var err error
			switch mode {
			case 0:
				var k string
				k, err = rl.GetKey(x)
				ks = []string{k}
			case 1:
				ks, err = rl.GetKeys(x)
			default:
				var k string
				k, err = rl.GetRawKey(x)
				ks = []string{k}
			}
			if x.depth != 0 {
				return fmt.Sprintf("the terminal mode is not restored (%d)", x.depth)
			}
			if err != nil {
				if err != errRead {
					return fmt.Sprintf("error %v instead of the read error", err)
				}
				return ""
			}
			if x.n == pos {
				return fmt.Sprintf("keys %q without reading", ks)
			}
			got = append(got, ks...)
			if want := strings.Join(x.chars(), ""); strings.Join(got, "") != want {
				return fmt.Sprintf("keys %q, characters read %q", got, x.chars())
			}
			for _, k := range ks {
				if k == "" {
					return fmt.Sprintf("empty key in %q", ks)
				}
				if k[0] != '\x1b' && utf8.RuneCountInString(k) != 1 {
					return fmt.Sprintf("key %q is more than one character", k)
				}
			}
			// escape sequences: the rest of the burst
			n, rest := 0, pos
			simpleBurst := false
			for _, b := range x.bursts {
				if rest < len(b) {
					simpleBurst = !bytes.ContainsRune([]byte(string(b)), 0) && (mode != 1 || rest == 0)
					s := fakeX{bursts: [][]rune{b[rest:]}, n: len(b) - rest}
					want := strings.Join(s.chars(), "")
					if simpleBurst {
						for _, k := range ks {
							if k[0] == '\x1b' && n <= len(want) && k != want[n:] {
								return fmt.Sprintf("escape sequence %q, but %q was available at once", k, want[n:])
							}
							n += len(k)
						}
					}
					break
				}
				rest -= len(b)
			}
		}
	})
	if m == "" {
		return ""
	}
	return fmt.Sprintf("%s with input %q (one string per burst), read error at %d\n%s", name, runesOf(x.bursts), x.fail, m)
}

func runesOf(bs [][]rune) (out []string) {
	for _, b := range bs {
		var s []string
		for _, r := range b {
			s = append(s, fmt.Sprintf("%x", r))
		}
		out = append(out, strings.Join(s, " "))
	}
	return out
}

func ioctl(f *os.File, req, p uintptr) bool {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, p)
	return e == 0
}

// openPty gives a pseudo terminal in raw mode.
func openPty() (master, slave *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil
	}
	var n uint32
	var unlock int32
	if !ioctl(m, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))) || !ioctl(m, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))) {
		m.Close()
		return nil, nil
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil
	}
	var t syscall.Termios
	if !ioctl(s, syscall.TCGETS, uintptr(unsafe.Pointer(&t))) {
		m.Close()
		s.Close()
		return nil, nil
	}
	t.Iflag, t.Oflag, t.Lflag = 0, 0, 0
	t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 1, 0
	ioctl(s, syscall.TCSETS, uintptr(unsafe.Pointer(&t)))
	return m, s
}

func searchTty10(r *rand.Rand) string {
	m, s := openPty()
	if m == nil {
		return ""
	}
	defer m.Close()
	defer s.Close()
	var b strings.Builder
	n := r.Intn(12)
	if r.Intn(2) == 0 {
		n = 1000 + r.Intn(600)
	}
	for b.Len() <= n {
		b.WriteString([]string{"a", "é", "あ", "あ", "😀", "\r", "z"}[r.Intn(7)])
	}
	if r.Intn(3) == 0 {
		b.WriteString("\x1b[A")
	}
	text := b.String()
	cut := len(text)
	if r.Intn(2) == 0 {
		cut = r.Intn(len(text))
	}
	save := os.Stdin
	os.Stdin = s
	var got []string
	tty := &tty10.Tty{}
	bad := within(5*time.Second, func() string {
		go func() {
			io.WriteString(m, text[:cut])
			time.Sleep(time.Millisecond)
			io.WriteString(m, text[cut:])
		}()
		for l := 0; l < len(text); {
			k, err := tty.GetKey()
			if err != nil {
				return "error " + err.Error()
			}
			got = append(got, k)
			l += len(k)
			if k == "" || k[0] != '\x1b' && (utf8.RuneCountInString(k) != 1 || !utf8.ValidString(k)) {
				return fmt.Sprintf("key %q behind %q is not one character", k, strings.Join(got[:len(got)-1], ""))
			}
			if !strings.HasPrefix(text, strings.Join(got, "")) {
				return fmt.Sprintf("keys %q", got)
			}
		}
		return ""
	})
	os.Stdin = save
	if bad == "" {
		return ""
	}
	return fmt.Sprintf("tty10.Tty.GetKey with input %q, sent in two parts of %d and %d bytes\n%s", text, cut, len(text)-cut, bad)
}

func init() {
	searchers["C11"] = func(r *rand.Rand) string {
		switch r.Intn(40) {
		case 0:
			return searchTty10(r)
		case 1:
			var text []string
			for i := r.Intn(5); i > 0; i-- {
				text = append(text, keyText[r.Intn(len(keyText))])
			}
			p := &auto.Pilot{Text: append([]string(nil), text...)}
			for i, w := range text {
				if k, err := p.GetKey(); k != w || err != nil {
					return fmt.Sprintf("auto.Pilot with keys %q: key %d is %q, %v", text, i, k, err)
				}
			}
			return ""
		}
		return searchXTty(r)
	}
}

// ---- C12: bindings ----

type testCommand struct{ name string }

func (c *testCommand) String() string                                   { return c.name }
func (c *testCommand) Call(ctx context.Context, B *rl.Buffer) rl.Result { return rl.CONTINUE }

var defaultBindings = map[string]rl.Command{
	"\x1bb": rl.CmdBackwardWord, "\x1bf": rl.CmdForwardWord, "\x1bv": rl.CmdYank, "\x1by": rl.CmdYankWithQuote,
	"\x7f": rl.CmdBackwardDeleteChar, "\x01": rl.CmdBeginningOfLine, "\x02": rl.CmdBackwardChar, "\x03": rl.CmdInterrupt,
	"\x04": rl.CmdDeleteOrAbort, "\x05": rl.CmdEndOfLine, "\x06": rl.CmdForwardChar, "\x08": rl.CmdBackwardDeleteChar,
	"\x0b": rl.CmdKillLine, "\x0c": rl.CmdClearScreen, "\x1b[1;5D": rl.CmdBackwardWord, "\x0d": rl.CmdAcceptLine,
	"\x0e": rl.CmdNextHistory, "\x10": rl.CmdPreviousHistory, "\x11": rl.CmdQuotedInsert, "\x12": rl.CmdISearchBackward,
	"\x1b[1;5C": rl.CmdForwardWord, "\x14": rl.CmdSwapChar, "\x15": rl.CmdUnixLineDiscard, "\x1f": rl.CmdUndo,
	"\x16": rl.CmdQuotedInsert, "\x17": rl.CmdUnixWordRubout, "\x19": rl.CmdYank, "\x1a": rl.CmdUndo,
	"\x1b[3~": rl.CmdDeleteChar, "\x1b[B": rl.CmdNextHistory, "\x1b[F": rl.CmdEndOfLine, "\x1b": rl.CmdKillWholeLine,
	"\x1b[H": rl.CmdBeginningOfLine, "\x1b[D": rl.CmdBackwardChar, "\x1b[C": rl.CmdForwardChar, "\x1b[A": rl.CmdPreviousHistory,
}

var commandNames = map[string]rl.Command{
	"ACCEPT_LINE": rl.CmdAcceptLine, "INTR": rl.CmdInterrupt, "BEGINNING_OF_LINE": rl.CmdBeginningOfLine,
	"BACKWARD_CHAR": rl.CmdBackwardChar, "END_OF_LINE": rl.CmdEndOfLine, "FORWARD_CHAR": rl.CmdForwardChar,
	"BACKWARD_DELETE_CHAR": rl.CmdBackwardDeleteChar, "DELETE_CHAR": rl.CmdDeleteChar, "DELETE_OR_ABORT": rl.CmdDeleteOrAbort,
	"KILL_LINE": rl.CmdKillLine, "KILL_WHOLE_LINE": rl.CmdKillWholeLine, "UNIX_WORD_RUBOUT": rl.CmdUnixWordRubout,
	"UNIX_LINE_DISCARD": rl.CmdUnixLineDiscard, "CLEAR_SCREEN": rl.CmdClearScreen, "REPAINT_ON_NEWLINE": rl.CmdRepaintOnNewline,
	"QUOTED_INSERT": rl.CmdQuotedInsert, "YANK": rl.CmdYank, "YANK_WITH_QUOTE": rl.CmdYankWithQuote, "SWAPCHAR": rl.CmdSwapChar,
	"BACKWARD_WORD": rl.CmdBackwardWord, "FORWARD_WORD": rl.CmdForwardWord, "UNDO": rl.CmdUndo,
	"PREVIOUS_HISTORY": rl.CmdPreviousHistory, "NEXT_HISTORY": rl.CmdNextHistory, "ISEARCH_BACKWARD": rl.CmdISearchBackward,
}

var keyNames = map[string]string{
	"BACKSPACE": "\x7f", "CTRL_BREAK": "\x03", "CTRL_DOWN": "\x1b[1;5B", "C_LEFT": "\x1b[1;5D", "C_RIGHT": "\x1b[1;5C",
	"C_UP": "\x1b[1;5A", "C_UNDERBAR": "\x1f", "C_[": "\x1b", "C_\\": "\x1c", "C_]": "\x1d", "C_^": "\x1e",
	"DELETE": "\x1b[3~", "DOWN": "\x1b[B", "END": "\x1b[F", "ENTER": "\r", "ESCAPE": "\x1b", "HOME": "\x1b[H",
	"LEFT": "\x1b[D", "RIGHT": "\x1b[C", "UP": "\x1b[A", "M_BACKSPACE": "\x1b\b", "M_OEM_2": "\x1b/",
	"PAGEDOWN": "\x1b[6~", "PAGEUP": "\x1b[5~", "F1": "\x1b[OP", "F2": "\x1b[OQ", "F3": "\x1b[OR", "F4": "\x1b[OS",
	"F5": "\x1b[15~", "F9": "\x1b[20~", "F10": "\x1b[21~", "F11": "\x1b[23~", "F12": "\x1b[24~",
}

var keyNameList, commandNameList []string

func init() {
	for c := 'A'; c <= 'Z'; c++ {
		keyNames["C_"+string(c)] = string(c - 64)
		keyNames["M_"+string(c)] = "\x1b" + string(c+32)
	}
	for k := range keyNames {
		keyNameList = append(keyNameList, k)
	}
	for k := range commandNames {
		commandNameList = append(commandNameList, k)
	}
	sortStrings(keyNameList)
	sortStrings(commandNameList)
	searchers["C12"] = searchBindings
}

func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// spelled gives a name in other letters and with dashes.
func spelled(r *rand.Rand, s string) string {
	var b strings.Builder
	for _, c := range s {
		if r.Intn(2) == 0 {
			c = []rune(strings.ToLower(string(c)))[0]
		}
		if c == '_' && r.Intn(2) == 0 {
			c = '-'
		}
		b.WriteRune(c)
	}
	return b.String()
}

func searchBindings(r *rand.Rand) string {
	ed := &rl.Editor{}
	local := map[string]rl.Command{}
	global := map[string]rl.Command{}
	for k, v := range defaultBindings {
		global[k] = v
	}
	var log []string
	pool := []string{"a", "\x01", "\x1b[A", "\r", "\x1bz", "é", "", "\x1b"}
	own := []rl.Command{&testCommand{"one"}, &testCommand{"two"}, &testCommand{"three"}, nil}
	touched := map[string]bool{}
	defer func() {
		for k := range touched {
			rl.GlobalKeyMap.BindKey(keys.Code(k), defaultBindings[k])
		}
	}()
	check := func() string {
		all := append([]string(nil), pool...)
		for k := range defaultBindings {
			all = append(all, k)
		}
		for _, k := range keyNames {
			all = append(all, k)
		}
		for _, k := range all {
			want, ok := local[k]
			if !ok {
				want, ok = global[k]
			}
			if !ok {
				want = rl.SelfInserter(k)
			}
			if got := ed.LookupCommand(k); got != want {
				return fmt.Sprintf("key %q runs %v instead of %v", k, got, want)
			}
		}
		return ""
	}
	for i := 0; ; i++ {
		if m := check(); m != "" {
			return strings.Join(log, "\n") + "\n" + m
		}
		if i == 8 {
			return ""
		}
		km, tab, where := &ed.KeyMap, local, "editor"
		if r.Intn(2) == 0 {
			km, tab, where = rl.GlobalKeyMap, global, "global"
		}
		set := func(k string, c rl.Command) {
			if where == "global" {
				touched[k] = true
			}
			if c == nil {
				delete(tab, k)
			} else {
				tab[k] = c
			}
		}
		switch r.Intn(3) {
		case 0:
			k, c := pool[r.Intn(len(pool))], own[r.Intn(len(own))]
			log = append(log, fmt.Sprintf("%s BindKey(%q, %v)", where, k, c))
			km.BindKey(keys.Code(k), c)
			set(k, c)
		case 1:
			n, c := keyNameList[r.Intn(len(keyNameList))], own[r.Intn(len(own))]
			w := spelled(r, n)
			known := true
			if r.Intn(3) == 0 {
				w += []string{"X", " ", "_", "1Q"}[r.Intn(4)]
				_, known = keyNames[strings.ReplaceAll(strings.ToUpper(w), "-", "_")]
			}
			log = append(log, fmt.Sprintf("%s BindKeyFunc(%q, %v)", where, w, c))
			err := nameutils.BindKeyFunc(km, w, c)
			if known {
				set(keyNames[strings.ReplaceAll(strings.ToUpper(w), "-", "_")], c)
			}
			if (err == nil) != known {
				return strings.Join(log, "\n") + fmt.Sprintf("\nerror %v", err)
			}
		default:
			n, cn := keyNameList[r.Intn(len(keyNameList))], commandNameList[r.Intn(len(commandNameList))]
			w, cw := spelled(r, n), spelled(r, cn)
			known := true
			switch r.Intn(6) {
			case 0:
				w, known = w+"?", false
			case 1:
				cw, known = cw+"?", false
			}
			log = append(log, fmt.Sprintf("%s BindKeySymbol(%q, %q)", where, w, cw))
			err := nameutils.BindKeySymbol(km, w, cw)
			if known {
				set(keyNames[n], commandNames[cn])
			}
			if (err == nil) != known {
				return strings.Join(log, "\n") + fmt.Sprintf("\nerror %v", err)
			}
			f, err := nameutils.GetFunc(cw)
			if c, ok := commandNames[strings.ReplaceAll(strings.ToUpper(cw), "-", "_")]; ok != (err == nil) || ok && f != c {
				return fmt.Sprintf("GetFunc(%q) gives %v, %v", cw, f, err)
			}
		}
	}
}

// ---- C17: sessions ----

type endTty struct {
	keys           []string
	onSize         func(int)
	openErr, szErr error
	err            error
	opened, closed int
	width          int
}

func (t *endTty) Open(f func(int)) error {
	t.onSize = f
	if t.openErr == nil {
		t.opened++
	}
	return t.openErr
}
func (t *endTty) Close() error            { t.closed++; return nil }
func (t *endTty) Size() (int, int, error) { return t.width, 25, t.szErr }
func (t *endTty) GetKey() (string, error) {
	if len(t.keys) == 0 {
		return "", t.err
	}
	k := t.keys[0]
	t.keys = t.keys[1:]
	return k, nil
}

func init() {
	searchers["C17"] = func(r *rand.Rand) string {
		tty := &endTty{width: []int{80, 20, 6, 1}[r.Intn(4)], err: errNoKey}
		var want string
		var wantErr error
		typed := simple(r, 6)
		ks := strings.Split(typed, "")
		if typed == "" {
			ks = nil
		}
		// keys that change nothing in the text
		for i := r.Intn(3); i > 0; i-- {
			p := r.Intn(len(ks) + 1)
			k := []string{"\x05", "\x0c", "\x1b[1;5A"}[r.Intn(2)]
			if k != "\x05" || p >= 0 {
				ks = append(ks[:p:p], append([]string{k}, ks[p:]...)...)
			}
		}
		deflt := ""
		if r.Intn(4) == 0 {
			deflt = simple(r, 3)
		}
		how := []string{"Enter", "Ctrl-C", "Ctrl-D", "key error", "open error", "size error", "own command"}[r.Intn(7)]
		switch how {
		case "Enter":
			ks = append(ks, "\r")
			want = deflt + typed
		case "own command":
			ks = append(ks, "\x1bq")
			want = deflt + typed
		case "Ctrl-C":
			ks = append(ks, "\x03")
			wantErr = rl.CtrlC
		case "Ctrl-D":
			ks, deflt = []string{"a", "\x08", "\x04"}, ""
			wantErr = io.EOF
		case "open error":
			tty.openErr = errRead
			wantErr = errRead
		case "size error":
			tty.szErr = errRead
			wantErr = errRead
		default:
			wantErr = errNoKey
		}
		tty.keys = append([]string(nil), ks...)
		var out bytes.Buffer
		ed := &rl.Editor{Tty: tty, Writer: &out, History: hist{"abc", "b", "x y"}, Default: deflt, Cursor: len(deflt)}
		ed.BindKey("\x1bq", rl.AnonymousCommand(func(context.Context, *rl.Buffer) rl.Result { return rl.ENTER }))
		lf := r.Intn(2) == 0
		if lf {
			ed.LineFeedWriter = func(_ rl.Result, w io.Writer) (int, error) { return io.WriteString(w, "\r\n") }
		}
		if r.Intn(2) == 0 {
			ed.PredictColor = rl.PredictColorBlueItalic
		}
		if r.Intn(2) == 0 {
			p := textOf(r, 3)
			ed.PromptWriter = func(w io.Writer) (int, error) { return io.WriteString(w, p) }
		}
		bad := within(10*time.Second, func() string {
			text, err := ed.ReadLine(context.Background())
			if text != want || err != wantErr {
				return fmt.Sprintf("ReadLine gives %q, %v instead of %q, %v", text, err, want, wantErr)
			}
			if tty.closed != tty.opened {
				return fmt.Sprintf("the terminal was opened %d times and closed %d times", tty.opened, tty.closed)
			}
			if ed.Out.Buffered() != 0 {
				return "the output is not flushed"
			}
			o := out.String()
			if on, off := strings.LastIndex(o, "\x1b[?25h"), strings.LastIndex(o, "\x1b[?25l"); on < off || on < 0 {
				return fmt.Sprintf("the cursor is not switched on at the end of %q", o)
			}
			return ""
		})
		if bad == "" && tty.onSize != nil && tty.opened > 0 && how != "size error" {
			if m := within(3*time.Second, func() string { tty.onSize(40); return "" }); m != "" {
				bad = "after ReadLine the handler of size changes " + m + ": the lock is not free"
			}
		}
		if bad == "" {
			return ""
		}
		return fmt.Sprintf("terminal width %d, default text %q, keys %q, then %s, own line feed %v, prediction %v\n%s", tty.width, deflt, ks, how, lf, ed.PredictColor[0] != "", bad)
	}
}
