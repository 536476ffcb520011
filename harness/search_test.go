// Looks for inputs that break a property, through the public interface only.
// The expected results are computed from the statements of the properties.
package readline_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	rl "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

type searcher func(r *rand.Rand) string // "" or a description of a failing input

var searchers = map[string]searcher{}

func TestVerifSearch(t *testing.T) {
	prop := os.Getenv("SEARCH_PROP")
	f := searchers[prop]
	if f == nil {
		t.Skip("no search for " + prop)
	}
	seed, _ := strconv.ParseInt(os.Getenv("SEARCH_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("SEARCH_SECONDS"))
	if secs == 0 {
		secs = 20
	}
	r := rand.New(rand.NewSource(seed + 1))
	end := time.Now().Add(time.Duration(secs) * time.Second)
	n := 0
	for time.Now().Before(end) {
		n++
		if s := f(r); s != "" {
			report(prop, s)
			t.Fail()
			return
		}
	}
	fmt.Println(n, "inputs tried")
}

func report(prop, s string) {
	wt := "without emoji sequences (no WT_SESSION in the environment)"
	if os.Getenv("WT_SESSION") != "" {
		wt = "with emoji sequences (WT_SESSION=1 WT_PROFILE_ID=1)"
	}
	fmt.Printf("FAILING INPUT for %s, terminal %s\n%s\nEND OF FAILING INPUT\n", prop, wt, s)
}

var emojiOK = os.Getenv("WT_SESSION") != ""

// ---- sessions ----

type state struct {
	cells  []string
	text   string
	cursor int
	view   int
	nils   bool
}

func snap(B *rl.Buffer) state {
	s := state{cursor: B.Cursor, view: B.ViewStart}
	for _, c := range B.Buffer {
		if c.Moji == nil {
			s.nils = true
			s.cells = append(s.cells, "<nil>")
			continue
		}
		s.cells = append(s.cells, c.String())
	}
	s.text = strings.Join(s.cells, "")
	return s
}

func (s state) String() string {
	return fmt.Sprintf("%q cursor %d view %d", s.cells, s.cursor, s.view)
}

type step struct {
	name string
	arg  string
	pos  int
	keys []string // read by the command itself
	call func(ctx context.Context, B *rl.Buffer) rl.Result
}

func (s step) String() string {
	r := s.name
	if s.arg != "" {
		r += fmt.Sprintf("(%q)", s.arg)
	}
	if len(s.keys) > 0 {
		r += fmt.Sprintf(" then keys %q", s.keys)
	}
	if s.name == "REPLACE" {
		r += fmt.Sprintf(" from position %d", s.pos)
	}
	return r
}

type session struct {
	width   int
	prompt  string
	deflt   string
	cursor  int
	history []string
	cycling bool
	predict bool
	steps   []step
}

func (s *session) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "terminal width %d, prompt %q, default text %q, history %q, cycling %v, prediction %v\nkeys:\n", s.width, s.prompt, s.deflt, s.history, s.cycling, s.predict)
	for i, x := range s.steps {
		fmt.Fprintf(&b, "  %d. %s\n", i+1, x)
	}
	return b.String()
}

type hist []string

func (h hist) Len() int        { return len(h) }
func (h hist) At(i int) string { return h[i] }

var errNoKey = errors.New("no more keys")

type fakeTty struct {
	width  int
	top    func() string
	inner  []string
	inside bool
	onKey  func()
	onSize func(int)
	opened int
	closed int
}

func (t *fakeTty) Open(f func(int)) error  { t.onSize = f; t.opened++; return nil }
func (t *fakeTty) Close() error            { t.closed++; return nil }
func (t *fakeTty) Size() (int, int, error) { return t.width, 25, nil }
func (t *fakeTty) GetKey() (string, error) {
	if t.onKey != nil {
		t.onKey()
	}
	if !t.inside {
		return t.top(), nil
	}
	if len(t.inner) == 0 {
		return "", errNoKey
	}
	k := t.inner[0]
	t.inner = t.inner[1:]
	return k, nil
}

const (
	stepKey = keys.Code("\x00STEP")
	endKey  = keys.Code("\x00END")
)

// observe is asked about every step; a text is a violation.
type observe interface {
	start(B *rl.Buffer)
	step(i int, st step, B *rl.Buffer, before, after state) string
	end(text string, err error, last state) string
}

func (s *session) run(o observe) string {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				ch <- fmt.Sprintf("panic: %v", e)
			}
		}()
		ch <- s.run1(o)
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(20 * time.Second):
		return "a key is never finished (20 s)"
	}
}

func (s *session) run1(o observe) string {
	tty := &fakeTty{width: s.width}
	i := 0
	var bad string
	var last state
	first := true
	tty.top = func() string {
		if bad != "" || i >= len(s.steps) {
			return string(endKey)
		}
		return string(stepKey)
	}
	var out bytes.Buffer
	e := &rl.Editor{
		Tty:            tty,
		Writer:         &out,
		History:        hist(s.history),
		Default:        s.deflt,
		Cursor:         s.cursor,
		HistoryCycling: s.cycling,
		PromptWriter:   func(w io.Writer) (int, error) { return io.WriteString(w, s.prompt) },
		LineFeedWriter: func(rl.Result, io.Writer) (int, error) { return 0, nil },
	}
	if s.predict {
		e.PredictColor = rl.PredictColorBlueItalic
	}
	if p, ok := o.(interface {
		setup(*rl.Editor, *fakeTty, *bytes.Buffer)
	}); ok {
		p.setup(e, tty, &out)
	}
	wrap := rl.AnonymousCommand(func(ctx context.Context, B *rl.Buffer) rl.Result {
		st := s.steps[i]
		i++
		before := snap(B)
		if first {
			first = false
			o.start(B)
		}
		if st.name == "DELETE_OR_ABORT" && len(before.cells) == 0 {
			return rl.CONTINUE
		}
		tty.inside, tty.inner = true, append([]string(nil), st.keys...)
		rc := st.call(ctx, B)
		tty.inside = false
		after := snap(B)
		last = after
		if bad == "" {
			if m := o.step(i-1, st, B, before, after); m != "" {
				bad = fmt.Sprintf("step %d %s\n  before: %v\n  after:  %v\n  %s", i, st, before, after, m)
			}
		}
		return rc
	})
	e.BindKey(stepKey, wrap)
	e.BindKey(endKey, rl.CmdAcceptLine)
	text, err := e.ReadLine(context.Background())
	if bad != "" {
		return bad
	}
	if !first {
		return o.end(text, err, last)
	}
	return ""
}

// search runs a session and makes a failing one smaller.
func (s *session) search(mk func(*session) observe) string {
	m := s.run(mk(s))
	if m == "" {
		return ""
	}
	for again := true; again; {
		again = false
		for i := 0; i < len(s.steps); i++ {
			c := *s
			c.steps = append(append([]step(nil), s.steps[:i]...), s.steps[i+1:]...)
			if strings.HasPrefix(m, "a key is never") {
				break
			}
			if m2 := c.run(mk(&c)); m2 != "" {
				*s, m, again = c, m2, true
				i--
			}
		}
		for i := range s.history {
			c := *s
			c.history = append(append([]string(nil), s.history[:i]...), s.history[i+1:]...)
			if m2 := c.run(mk(&c)); m2 != "" {
				*s, m, again = c, m2, true
				break
			}
		}
		if s.deflt != "" {
			c := *s
			c.deflt = ""
			if m2 := c.run(mk(&c)); m2 != "" {
				*s, m, again = c, m2, true
			}
		}
	}
	return s.String() + m
}

// ---- texts ----

var plain = strings.Split("a b c d e A B C x y z 0 1 9 _ - . / \\ ( [", " ")
var special = []string{" ", " ", "\"", "'", "\t", "\t", "あ", "Ａ", "ｱ", "é", "e\u0301", "\u0301", "👨", "🌾", "👨\u200d🌾", "❤\ufe0f", "1\ufe0f\u20e3", "👍\U0001f3fd", "🇯", "🇵", "🏳", "🏳\ufe0f", "𝐀", "𝟙", "─", "━", "\x01", "\x1f", "\x1b", "\x7f", "\u0085", "\u009b", "\x80", "\xff", "\xe3\x81", "\u200b", "\u3000", "\u00a0", "α", "\U0010FFFF", "\ufffd", "\ufeff", "&", "%", "ß", "ſ", "K", "İ", "ı", "\r", "\n", "\b", "\ue000", "\u00ad"}
var combining = []string{"\ufe0f", "\u20e3", "\U0001f3fd", "\U0001f3ff", "\ufe0e"}

func piece(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0, 1, 2:
		return special[r.Intn(len(special))]
	case 3:
		return " "
	}
	return plain[r.Intn(len(plain))]
}

// simple gives a text of few different letters, so that texts meet again.
func simple(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := r.Intn(n + 1); i > 0; i-- {
		b.WriteString([]string{"a", "b", "A", "B", "c", " "}[r.Intn(6)])
	}
	return b.String()
}

func textOf(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := r.Intn(n + 1); i > 0; i-- {
		if r.Intn(12) == 0 {
			b.WriteString(combining[r.Intn(len(combining))])
		} else {
			b.WriteString(piece(r))
		}
	}
	return b.String()
}

// norm is the text with U+FFFD for every invalid byte.
func norm(s string) string { return string([]rune(s)) }

func isSpaceCell(c string) bool {
	r, n := utf8.DecodeRuneInString(c)
	return n == len(c) && n > 0 && unicode.IsSpace(r)
}

func firstRune(s string) rune {
	r, _ := utf8.DecodeRuneInString(s)
	return r
}

func isCombiningKey(k string) bool {
	r := firstRune(k)
	return len(k) > 0 && (unicode.Is(unicode.Variation_Selector, r) || unicode.Is(unicode.Me, r) || '\U0001F3FB' <= r && r <= '\U0001F3FF')
}

// ---- steps ----

func cmd(name string, c rl.Command) step {
	return step{name: name, call: c.Call}
}

func self(k string) step {
	return step{name: "TYPE", arg: k, call: rl.SelfInserter(k).Call}
}

func quoted(k string) step {
	return step{name: "QUOTED_INSERT", keys: []string{k}, call: rl.CmdQuotedInsert.Call}
}

func replace(back int, s string) step {
	st := step{name: "REPLACE", arg: s, pos: back}
	st.call = func(ctx context.Context, B *rl.Buffer) rl.Result {
		p := B.Cursor - back
		if p < 0 {
			p = 0
		}
		B.ReplaceAndRepaint(p, s)
		return rl.CONTINUE
	}
	return st
}

func resize(w int) step {
	return step{name: "RESIZE", pos: w}
}

var moves = []struct {
	name string
	c    *rl.GoCommand
}{
	{"BEGINNING_OF_LINE", rl.CmdBeginningOfLine}, {"END_OF_LINE", rl.CmdEndOfLine}, {"BACKWARD_CHAR", rl.CmdBackwardChar}, {"BACKWARD_CHAR", rl.CmdBackwardChar}, {"BACKWARD_CHAR", rl.CmdBackwardChar}, {"FORWARD_CHAR", rl.CmdForwardChar},
	{"FORWARD_CHAR", rl.CmdForwardChar}, {"BACKWARD_WORD", rl.CmdBackwardWord}, {"FORWARD_WORD", rl.CmdForwardWord}, {"CLEAR_SCREEN", rl.CmdClearScreen}, {"REPAINT_ON_NEWLINE", rl.CmdRepaintOnNewline},
}
var edits = []struct {
	name string
	c    *rl.GoCommand
}{
	{"BACKWARD_DELETE_CHAR", rl.CmdBackwardDeleteChar}, {"BACKWARD_DELETE_CHAR", rl.CmdBackwardDeleteChar}, {"DELETE_CHAR", rl.CmdDeleteChar}, {"DELETE_OR_ABORT", rl.CmdDeleteOrAbort}, {"SWAPCHAR", rl.CmdSwapChar}, {"SWAPCHAR", rl.CmdSwapChar}, {"KILL_WHOLE_LINE", rl.CmdKillWholeLine},
}
var kills = []struct {
	name string
	c    *rl.GoCommand
}{
	{"KILL_LINE", rl.CmdKillLine}, {"UNIX_WORD_RUBOUT", rl.CmdUnixWordRubout}, {"UNIX_LINE_DISCARD", rl.CmdUnixLineDiscard},
}

type mix struct{ kills, undo, hist, yank, emoji, search bool }

func randomSteps(r *rand.Rand, n int, m mix) []step {
	var out []step
	few := r.Intn(3) == 0
	for len(out) < n {
		switch r.Intn(16) {
		case 0, 1, 2:
			x := moves[r.Intn(len(moves))]
			out = append(out, cmd(x.name, x.c))
		case 3, 4:
			x := edits[r.Intn(len(edits))]
			if x.name == "KILL_WHOLE_LINE" && r.Intn(3) > 0 {
				continue
			}
			out = append(out, cmd(x.name, x.c))
		case 5:
			if m.kills {
				x := kills[r.Intn(len(kills))]
				if r.Intn(2) == 0 {
					x = kills[1]
				}
				out = append(out, cmd(x.name, x.c))
			}
		case 6:
			if m.undo {
				for i := r.Intn(3); i >= 0; i-- {
					out = append(out, cmd("UNDO", rl.CmdUndo))
				}
			}
		case 7:
			if m.hist {
				for i := r.Intn(3); i >= 0; i-- {
					if r.Intn(3) == 0 {
						out = append(out, cmd("NEXT_HISTORY", rl.CmdNextHistory))
					} else {
						out = append(out, cmd("PREVIOUS_HISTORY", rl.CmdPreviousHistory))
					}
				}
			}
		case 8:
			out = append(out, replace(r.Intn(4), textOf(r, 6)))
		case 9:
			if m.yank {
				if r.Intn(2) == 0 {
					out = append(out, cmd("YANK", rl.CmdYank))
				} else {
					out = append(out, cmd("YANK_WITH_QUOTE", rl.CmdYankWithQuote))
				}
			} else {
				out = append(out, quoted(piece(r)))
			}
		case 10:
			if m.search && r.Intn(3) == 0 {
				var ks []string
				for i := r.Intn(5); i > 0; i-- {
					ks = append(ks, []string{"a", "b", "A", "あ", "\b", "\x12", "\x13", "\x01", "\x7f", "\x12"}[r.Intn(10)])
				}
				if r.Intn(6) > 0 {
					ks = append(ks, []string{"\r", "\x07", "\x1b", "\x03", "\r"}[r.Intn(5)])
				}
				out = append(out, step{name: "ISEARCH_BACKWARD", keys: ks, call: rl.CmdISearchBackward.Call})
			}
		case 11:
			if m.emoji {
				out = append(out, self(combining[r.Intn(len(combining))]))
			}
		default:
			if few {
				out = append(out, self([]string{"a", "b", " ", "A"}[r.Intn(4)]))
			} else {
				out = append(out, self(piece(r)))
			}
		}
	}
	return out
}

var widths = []int{0, 1, 3, 5, 6, 7, 8, 9, 10, 12, 14, 20, 30, 80, 80, 200}

func randomSession(r *rand.Rand, n int, m mix) *session {
	s := &session{width: widths[r.Intn(len(widths))], prompt: []string{"> ", "", "$", "[あ]> ", "\x1b[31mprompt\x1b[0m> "}[r.Intn(5)]}
	if r.Intn(3) == 0 {
		s.deflt = textOf(r, 12)
	}
	if r.Intn(3) == 0 {
		s.cursor = r.Intn(20)
	}
	if m.hist || m.search {
		for i := r.Intn(5); i > 0; i-- {
			if r.Intn(2) == 0 {
				s.history = append(s.history, simple(r, 5))
			} else {
				s.history = append(s.history, textOf(r, 8))
			}
		}
		s.cycling = r.Intn(2) == 0
	}
	s.steps = randomSteps(r, 1+r.Intn(n), m)
	return s
}

// ---- C01 ----

type bounds struct{}

func (bounds) start(*rl.Buffer) {}
func (bounds) step(i int, st step, B *rl.Buffer, before, after state) string {
	if after.nils {
		return "the line contains a character that does not exist"
	}
	if !(0 <= after.view && after.view <= after.cursor && after.cursor <= len(after.cells)) {
		return fmt.Sprintf("0 <= view start %d <= cursor %d <= %d characters does not hold", after.view, after.cursor, len(after.cells))
	}
	return ""
}
func (bounds) end(string, error, state) string { return "" }

func init() {
	searchers["C01"] = func(r *rand.Rand) string {
		s := randomSession(r, 40, mix{kills: r.Intn(20) == 0, undo: true, hist: true, emoji: true, search: true})
		s.predict = r.Intn(2) == 0
		if r.Intn(4) == 0 {
			for i := range s.steps {
				if r.Intn(6) == 0 {
					s.steps[i] = resizeStep(widths[r.Intn(len(widths))])
				}
			}
		}
		if r.Intn(3) == 0 {
			s.steps = append(s.steps, completionSteps(r)...)
		}
		return s.search(func(s *session) observe { return bounds{} })
	}
}

// resizeStep changes the size of the terminal as the handler of size changes
// does, through a paste of the same text.
func resizeStep(w int) step {
	return step{name: "REPAINT", call: func(ctx context.Context, B *rl.Buffer) rl.Result {
		B.RepaintAll()
		return rl.CONTINUE
	}}
}

// ---- C02 ----

func written(s string) (string, []string) {
	var b strings.Builder
	var cells []string
	for _, m := range rl.StringToMoji(s) {
		var c strings.Builder
		m.WriteTo(&c)
		cells = append(cells, c.String())
		b.WriteString(c.String())
	}
	return b.String(), cells
}

type textual struct{}

func (textual) start(*rl.Buffer) {}
func (textual) step(i int, st step, B *rl.Buffer, before, after state) string {
	if B.String() != after.text {
		return fmt.Sprintf("the text of the line is %q, its characters are %q", B.String(), after.cells)
	}
	for _, p := range [][2]int{{0, len(after.cells)}, {after.cursor, len(after.cells)}, {0, after.cursor}, {len(after.cells) / 3, len(after.cells) / 2}} {
		if x, y := B.SubString(p[0], p[1]), strings.Join(after.cells[p[0]:p[1]], ""); x != y {
			return fmt.Sprintf("the text from %d to %d is %q, the characters are %q", p[0], p[1], x, y)
		}
	}
	return ""
}
func (textual) end(text string, err error, last state) string {
	if err == nil && text != last.text {
		return fmt.Sprintf("accepted text %q, the line was %q", text, last.text)
	}
	return ""
}

func init() {
	searchers["C02"] = func(r *rand.Rand) string {
		s := textOf(r, 12)
		if r.Intn(3) == 0 {
			var b strings.Builder
			for i := r.Intn(6); i >= 0; i-- {
				switch r.Intn(4) {
				case 0:
					b.WriteRune(rune(r.Intn(0x110000)))
				case 1:
					b.WriteByte(byte(r.Intn(256)))
				case 2:
					b.WriteString([]string{"\u200d", "\ufe0f", "\U0001f3fd", "\u20e3"}[r.Intn(4)])
				default:
					b.WriteString(piece(r))
				}
			}
			s = b.String()
		}
		if r.Intn(2) == 0 {
			k := r.Intn(len(s) + 1)
			s = s[:k] + "\u200d" + s[k:]
		}
		on := rl.IsSurrogatePairEnabled()
		rl.EnableSurrogatePair(r.Intn(2) == 0)
		w, cells := written(s)
		rl.EnableSurrogatePair(on)
		if w != norm(s) {
			return fmt.Sprintf("text %q\nis split into the characters %q\nwhich are written back as %q, expected %q", s, cells, w, norm(s))
		}
		if r.Intn(4) == 0 {
			s := randomSession(r, 8, mix{undo: true, hist: true, emoji: true})
			return s.search(func(s *session) observe { return textual{} })
		}
		return ""
	}
}

// ---- C03 ----

var delimiters = "\"'"

func wordTop(cells []string) int {
	top := -1
	quote := rune(0)
	for i, c := range cells {
		r, n := utf8.DecodeRuneInString(c)
		if n != len(c) {
			if top < 0 {
				top = i
			}
			continue
		}
		if quote == 0 {
			if strings.ContainsRune(delimiters, r) {
				quote = r
			}
		} else if r == quote {
			quote = 0
		}
		if unicode.IsSpace(r) && quote == 0 {
			top = -1
		} else if top < 0 {
			top = i
		}
	}
	if top < 0 {
		return len(cells)
	}
	return top
}

type effects struct {
	clip    string // file of the clipboard
	content string // what it contains
	hasClip bool
	predict bool
}

func (*effects) start(*rl.Buffer) {}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func wantCells(after state, cells []string, cursor int) string {
	if !same(after.cells, cells) || after.cursor != cursor {
		return fmt.Sprintf("expected: %q cursor %d", cells, cursor)
	}
	return ""
}

// wantInsert: the text s stands between the two parts, the cursor behind it.
func wantInsert(before, after state, from int, s string, join bool) string {
	left, right := before.cells[:from], before.cells[before.cursor:]
	s = norm(s)
	k := len(after.cells) - len(right)
	switch {
	case k < 0 || after.cursor != k || !same(after.cells[k:], right):
		return fmt.Sprintf("expected: cursor directly before the unchanged characters %q", right)
	case strings.Join(after.cells[:k], "") != strings.Join(left, "")+s:
		return fmt.Sprintf("expected: the text %q before the cursor", strings.Join(left, "")+s)
	case !join && (len(after.cells) < from || !same(after.cells[:from], left)):
		return fmt.Sprintf("expected: the unchanged characters %q at the start", left)
	}
	return ""
}

func (o *effects) step(i int, st step, B *rl.Buffer, before, after state) string {
	c, cur, n := before.cells, before.cursor, len(before.cells)
	if cur < 0 || cur > n {
		return ""
	}
	if t := B.CurrentWordTop(); after.cursor <= len(after.cells) && t != wordTop(after.cells[:after.cursor]) {
		return fmt.Sprintf("the word before the cursor is said to start at %d, it starts at %d", t, wordTop(after.cells[:after.cursor]))
	}
	cat := func(parts ...[]string) (r []string) {
		for _, p := range parts {
			r = append(r, p...)
		}
		return
	}
	clip := func(m, want string) string {
		if m != "" || o.clip == "" {
			return m
		}
		b, err := os.ReadFile(o.clip)
		if err == nil && string(b) != want {
			return fmt.Sprintf("the clipboard contains %q, removed was %q", b, want)
		}
		o.content, o.hasClip = want, true
		return ""
	}
	switch st.name {
	case "TYPE", "QUOTED_INSERT":
		k := st.arg
		if st.name == "QUOTED_INSERT" {
			k = st.keys[0]
		}
		if len(k) == 2 && k[0] == '\x1b' {
			k = k[1:]
		}
		return wantInsert(before, after, cur, k, isCombiningKey(k))
	case "BACKWARD_DELETE_CHAR":
		if cur == 0 {
			return wantCells(after, c, 0)
		}
		return wantCells(after, cat(c[:cur-1], c[cur:]), cur-1)
	case "DELETE_CHAR", "DELETE_OR_ABORT":
		if cur == n {
			return wantCells(after, c, cur)
		}
		return wantCells(after, cat(c[:cur], c[cur+1:]), cur)
	case "KILL_LINE":
		return clip(wantCells(after, c[:cur], cur), strings.Join(c[cur:], ""))
	case "KILL_WHOLE_LINE":
		return wantCells(after, nil, 0)
	case "UNIX_LINE_DISCARD":
		return clip(wantCells(after, c[cur:], 0), strings.Join(c[:cur], ""))
	case "UNIX_WORD_RUBOUT":
		p := cur
		for p > 0 && isSpaceCell(c[p-1]) {
			p--
		}
		t := wordTop(c[:p])
		return clip(wantCells(after, cat(c[:t], c[cur:]), t), strings.Join(c[t:cur], ""))
	case "SWAPCHAR":
		d := append([]string(nil), c...)
		if cur == n {
			if n >= 2 {
				d[n-2], d[n-1] = d[n-1], d[n-2]
			}
			return wantCells(after, d, cur)
		}
		if cur == 0 {
			return wantCells(after, d, cur)
		}
		d[cur-1], d[cur] = d[cur], d[cur-1]
		return wantCells(after, d, cur+1)
	case "YANK":
		if !o.hasClip {
			return ""
		}
		return wantInsert(before, after, cur, strings.TrimRight(o.content, "\r\n\000"), false)
	case "YANK_WITH_QUOTE":
		if !o.hasClip {
			return ""
		}
		t := o.content
		if strings.Contains(t, " ") && !strings.HasPrefix(t, "\"") {
			t = strings.ReplaceAll("\""+strings.ReplaceAll(t, "\"", "\"\"")+"\"", "\r\n", "\"\r\n\"")
		}
		return wantInsert(before, after, cur, t, false)
	case "REPLACE":
		p := cur - st.pos
		if p < 0 {
			p = 0
		}
		return wantInsert(before, after, p, st.arg, false)
	case "BEGINNING_OF_LINE":
		return wantCells(after, c, 0)
	case "END_OF_LINE":
		return wantCells(after, c, n)
	case "BACKWARD_CHAR":
		if cur > 0 {
			cur--
		}
		return wantCells(after, c, cur)
	case "FORWARD_CHAR":
		if cur < n {
			return wantCells(after, c, cur+1)
		}
		if o.predict {
			return ""
		}
		return wantCells(after, c, cur)
	case "BACKWARD_WORD":
		p := cur
		for p > 0 && isSpaceCell(c[p-1]) {
			p--
		}
		for p > 0 && !isSpaceCell(c[p-1]) {
			p--
		}
		return wantCells(after, c, p)
	case "FORWARD_WORD":
		p := cur
		for p < n && !isSpaceCell(c[p]) {
			p++
		}
		for p < n && isSpaceCell(c[p]) {
			p++
		}
		return wantCells(after, c, p)
	case "CLEAR_SCREEN", "REPAINT_ON_NEWLINE", "REPAINT":
		return wantCells(after, c, cur)
	}
	return ""
}
func (o *effects) end(text string, err error, last state) string {
	if err == nil && text != last.text {
		return fmt.Sprintf("accepted text %q, the line was %q", text, last.text)
	}
	return ""
}

func init() {
	searchers["C03"] = func(r *rand.Rand) string {
		withClip := r.Intn(3) == 0
		s := randomSession(r, 25, mix{kills: withClip, yank: withClip, undo: true, emoji: emojiOK})
		if r.Intn(3) == 0 {
			for i := range s.steps {
				if s.steps[i].name == "TYPE" {
					s.steps[i] = self([]string{"a", " ", "\"", "'", "|"}[r.Intn(5)])
				}
			}
		}
		rl.Delimiters = []string{"\"'", "\"", "'", "", "|\"'"}[r.Intn(5)]
		delimiters = rl.Delimiters
		clip := ""
		if withClip {
			clip = os.Getenv("SEARCH_CLIP")
		}
		m := s.search(func(s *session) observe { return &effects{clip: clip} })
		if m != "" && delimiters != "\"'" {
			m = fmt.Sprintf("Delimiters %q, ", delimiters) + m
		}
		return m
	}
}

// ---- C04 ----

type undoRec struct {
	before string
	also   []string // texts in the middle of the command
	join   bool     // the step may have become one with the step before
}

// undos keeps every stack of steps that fits what was seen.
type undos struct {
	stacks [][]undoRec
	start0 string
}

func (o *undos) start(*rl.Buffer) {
	if o.stacks == nil {
		o.stacks = [][]undoRec{nil}
	}
}

func undone(s []undoRec, cur, text string, join bool) (r [][]undoRec) {
	if len(s) == 0 {
		if cur == text {
			r = append(r, s)
		}
		return
	}
	top := s[len(s)-1]
	rest := s[:len(s)-1]
	if top.before == text {
		r = append(r, rest)
	}
	for _, a := range top.also {
		if a == text {
			r = append(r, append(append([]undoRec(nil), rest...), undoRec{before: top.before}))
			break
		}
	}
	if top.join && join && len(rest) > 0 {
		r = append(r, undone(rest, cur, text, false)...)
	}
	return
}

func (o *undos) step(i int, st step, B *rl.Buffer, before, after state) string {
	if o.stacks == nil || len(o.stacks) > 300 {
		return ""
	}
	if st.name == "UNDO" {
		var next [][]undoRec
		for _, s := range o.stacks {
			next = append(next, undone(s, before.text, after.text, true)...)
		}
		if next == nil {
			s := o.stacks[0]
			if len(s) == 0 {
				return "there is nothing to undo, but the text changes"
			}
			return fmt.Sprintf("the text before the last change was %q", s[len(s)-1].before)
		}
		o.stacks = next
		return ""
	}
	if st.name == "UNDO_ALL" {
		if after.text != "" && after.text != o.start0 {
			return "undoing everything does not give the text at the start"
		}
		return ""
	}
	rec := undoRec{before: before.text}
	c, cur := before.cells, before.cursor
	switch st.name {
	case "TYPE", "QUOTED_INSERT":
		k := st.arg
		if st.name == "QUOTED_INSERT" {
			k = st.keys[0]
		}
		if isCombiningKey(k) && cur > 0 {
			rec.also = append(rec.also, strings.Join(c[:cur-1], "")+strings.Join(c[cur:], ""))
		}
	case "PREVIOUS_HISTORY", "NEXT_HISTORY":
		rec.also = append(rec.also, "")
	case "ISEARCH_BACKWARD":
		rec.also = append(rec.also, "")
		rec.join = true
	case "REPLACE":
		p := cur - st.pos
		if p < 0 {
			p = 0
		}
		rec.also = append(rec.also, strings.Join(c[:p], "")+strings.Join(c[cur:], ""))
		rec.join = true
	case "YANK", "YANK_WITH_QUOTE", "FORWARD_CHAR":
		rec.join = true
	}
	var next [][]undoRec
	if before.text == after.text {
		next = append(next, o.stacks...)
		switch st.name {
		case "KILL_LINE", "UNIX_LINE_DISCARD", "UNIX_WORD_RUBOUT", "KILL_WHOLE_LINE", "REPLACE", "PREVIOUS_HISTORY", "NEXT_HISTORY", "ISEARCH_BACKWARD", "SWAPCHAR":
		default:
			return ""
		}
	}
	for _, s := range o.stacks {
		next = append(next, append(append([]undoRec(nil), s...), rec))
	}
	o.stacks = next
	return ""
}
func (*undos) end(string, error, state) string { return "" }

func init() {
	searchers["C04"] = func(r *rand.Rand) string {
		s := randomSession(r, 25, mix{kills: r.Intn(20) == 0, undo: true, hist: r.Intn(2) == 0, emoji: emojiOK})
		// single characters, so that positions meet
		if r.Intn(2) == 0 {
			s.width = 80
		}
		s.steps = append(s.steps, step{name: "UNDO_ALL", call: func(ctx context.Context, B *rl.Buffer) rl.Result {
			for i := 0; i < 200; i++ {
				rl.CmdUndo.Call(ctx, B)
			}
			return rl.CONTINUE
		}})
		if r.Intn(2) == 0 {
			s.steps = s.steps[:len(s.steps)-1]
		}
		o := func(s *session) observe { return &undos{} }
		if s.deflt != "" {
			d := s.deflt
			o = func(s *session) observe {
				return &undos{stacks: [][]undoRec{{{before: ""}}, nil}, start0: norm(d)}
			}
			m := s.run(o(s))
			if m == "" {
				return ""
			}
			return s.String() + m
		}
		return s.search(o)
	}
}

// ---- C05 ----

type browsing struct {
	s    *session
	ptr  int
	kept map[int]string
}

func (o *browsing) start(*rl.Buffer) {}
func (o *browsing) step(i int, st step, B *rl.Buffer, before, after state) string {
	n := len(o.s.history)
	to := -1
	switch st.name {
	case "PREVIOUS_HISTORY":
		if n == 0 {
			break
		}
		if o.ptr > 0 {
			to = o.ptr - 1
		} else if o.s.cycling {
			to = n
		}
	case "NEXT_HISTORY":
		if o.ptr < n {
			to = o.ptr + 1
		}
	default:
		return ""
	}
	if to < 0 {
		if after.text != before.text {
			return "there is no such entry, but the line changes"
		}
		return ""
	}
	if o.ptr < n && norm(o.s.history[o.ptr]) == before.text {
		delete(o.kept, o.ptr)
	} else {
		o.kept[o.ptr] = before.text
	}
	o.ptr = to
	want, ok := o.kept[to]
	if !ok && to < n {
		want = norm(o.s.history[to])
	}
	if after.text != want {
		return fmt.Sprintf("expected: %q (entry %d of %d)", want, to, n)
	}
	if after.cursor != len(after.cells) {
		return "expected: cursor at the end"
	}
	return ""
}
func (*browsing) end(string, error, state) string { return "" }

func init() {
	searchers["C05"] = func(r *rand.Rand) string {
		s := randomSession(r, 30, mix{undo: true, hist: true, emoji: emojiOK})
		var st []step
		for _, x := range s.steps {
			st = append(st, x)
			if r.Intn(3) == 0 {
				st = append(st, cmd("PREVIOUS_HISTORY", rl.CmdPreviousHistory))
			}
			if r.Intn(5) == 0 {
				st = append(st, cmd("NEXT_HISTORY", rl.CmdNextHistory))
			}
		}
		s.steps = st
		return s.search(func(s *session) observe { return &browsing{s: s, ptr: len(s.history), kept: map[int]string{}} })
	}
}

// ---- C06 ----

type searching struct {
	s    *session
	out  *bytes.Buffer
	e    *rl.Editor
	tty  *fakeTty
	shot string
}

func (o *searching) setup(e *rl.Editor, t *fakeTty, out *bytes.Buffer) {
	o.e, o.tty, o.out = e, t, out
	t.onKey = func() {
		if t.inside {
			o.shot = out.String()
		}
	}
}
func (o *searching) start(*rl.Buffer) {}
func (o *searching) step(i int, st step, B *rl.Buffer, before, after state) string {
	if st.name != "ISEARCH_BACKWARD" {
		return ""
	}
	word, found, only := "", "", true
	accepted := false
	for _, k := range st.keys {
		switch k {
		case "\r":
			accepted = true
		case "\x03", "\x07", "\x1b":
		case "\x12", "\x13":
			only = false
			continue
		case "\b", "\x7f":
			_, n := utf8.DecodeLastRuneInString(word)
			word = word[:len(word)-n]
		default:
			if unicode.IsControl(firstRune(k)) {
				continue
			}
			word += k
		}
		if k == "\r" || k == "\x03" || k == "\x07" || k == "\x1b" {
			break
		}
		only = true
		found = ""
		for j := len(o.s.history) - 1; j >= 0; j-- {
			if strings.Contains(strings.ToUpper(o.s.history[j]), strings.ToUpper(word)) {
				found = o.s.history[j]
				break
			}
		}
	}
	if !accepted {
		if !same(before.cells, after.cells) || before.cursor != after.cursor {
			return "the search was not accepted, but the line or the cursor changes"
		}
		return ""
	}
	if i := strings.LastIndex(o.shot, "(i-search)["); i >= 0 {
		s := o.shot[i:]
		if j := strings.Index(s, "\x1b"); j >= 0 {
			s = s[:j]
		}
		if k := strings.Index(s, "]:"); k >= 0 && o.s.width >= 1000 && norm(s[k+2:]) != after.text {
			return fmt.Sprintf("accepted while %q was shown", s)
		}
	}
	if only && after.text != norm(found) {
		return fmt.Sprintf("expected: %q, the most recent entry with %q", found, word)
	}
	if after.text == "" {
		return ""
	}
	for _, h := range o.s.history {
		if norm(h) == after.text {
			if !strings.Contains(strings.ToUpper(h), strings.ToUpper(word)) {
				return fmt.Sprintf("the accepted entry does not contain %q", word)
			}
			return ""
		}
	}
	return "the accepted text is not in the history"
}
func (*searching) end(string, error, state) string { return "" }

func init() {
	searchers["C06"] = func(r *rand.Rand) string {
		s := &session{width: 2000, prompt: "> "}
		letters := []string{"a", "b", "A", "c", "あ", "é", "É"}
		for i := r.Intn(6); i > 0; i-- {
			var b strings.Builder
			for k := r.Intn(5); k > 0; k-- {
				b.WriteString(letters[r.Intn(len(letters))])
			}
			s.history = append(s.history, b.String())
		}
		for i := r.Intn(6); i > 0; i-- {
			s.steps = append(s.steps, self(letters[r.Intn(len(letters))]))
		}
		if r.Intn(2) == 0 {
			s.steps = append(s.steps, cmd("BACKWARD_CHAR", rl.CmdBackwardChar))
		}
		for n := r.Intn(3); n >= 0; n-- {
			var ks []string
			for i := r.Intn(9); i > 0; i-- {
				switch r.Intn(6) {
				case 0:
					ks = append(ks, "\x12")
				case 1:
					ks = append(ks, "\x13")
				case 2:
					ks = append(ks, []string{"\b", "\x7f", "\x01", "\x06"}[r.Intn(4)])
				default:
					ks = append(ks, letters[r.Intn(len(letters))])
				}
			}
			if r.Intn(8) > 0 {
				ks = append(ks, []string{"\r", "\r", "\r", "\x07", "\x1b", "\x03"}[r.Intn(6)])
			}
			s.steps = append(s.steps, step{name: "ISEARCH_BACKWARD", keys: ks, call: rl.CmdISearchBackward.Call})
		}
		stderr := os.Stderr
		return func() string {
			defer func() { os.Stderr = stderr }()
			m := s.search(func(s *session) observe { return &searching{s: s} })
			if m != "" {
				return m
			}
			// a cancelled search leaves the undo steps alone
			t := *s
			t.steps = nil
			cut := 0
			for _, x := range s.steps {
				if x.name == "ISEARCH_BACKWARD" {
					ks := x.keys
					if len(ks) > 0 && ks[len(ks)-1] == "\r" {
						ks = ks[:len(ks)-1]
					}
					ks = append(append([]string(nil), ks...), "\x07")
					x.keys = ks
					cut++
				}
				t.steps = append(t.steps, x)
			}
			t.steps = append(t.steps, cmd("UNDO", rl.CmdUndo), cmd("UNDO", rl.CmdUndo))
			return t.search(func(s *session) observe { return &undos{} })
		}()
	}
}

// ---- C07 ----

type predicting struct {
	s      *session
	eff    effects
	fresh  bool
	forced bool
}

func (o *predicting) start(*rl.Buffer) {}
func (o *predicting) prediction(text string) string {
	for i := len(o.s.history) - 1; i >= 0; i-- {
		if strings.HasPrefix(o.s.history[i], text) {
			return norm(o.s.history[i][len(text):])
		}
	}
	return ""
}
func (o *predicting) step(i int, st step, B *rl.Buffer, before, after state) string {
	fresh := o.fresh
	o.fresh = st.name == "TYPE" && after.cursor == len(after.cells) && len(after.cells) > 0
	if st.name == "FORWARD_CHAR" && before.cursor == len(before.cells) {
		p := o.prediction(before.text)
		if after.text == before.text+p && after.cursor == len(after.cells) {
			return ""
		}
		if after.text == before.text && !fresh {
			return ""
		}
		return fmt.Sprintf("expected: %q behind the text", p)
	}
	o.eff.predict = true
	return o.eff.step(i, st, B, before, after)
}
func (o *predicting) end(text string, err error, last state) string {
	return o.eff.end(text, err, last)
}

func init() {
	searchers["C07"] = func(r *rand.Rand) string {
		s := randomSession(r, 20, mix{undo: true, hist: true, emoji: emojiOK})
		s.predict = true
		if r.Intn(2) == 0 {
			s.width = 80
		}
		var st []step
		for i, x := range s.steps {
			if r.Intn(2) == 0 {
				x = self([]string{"a", "b", "A", "c", " "}[r.Intn(5)])
			}
			st = append(st, x)
			if r.Intn(4) == 0 {
				st = append(st, cmd("END_OF_LINE", rl.CmdEndOfLine))
			}
			if r.Intn(3) == 0 {
				st = append(st, cmd("FORWARD_CHAR", rl.CmdForwardChar))
			}
			_ = i
		}
		s.steps = st
		for i := r.Intn(6); i > 0; i-- {
			s.history = append(s.history, simple(r, 6))
		}
		delimiters = "\"'"
		rl.Delimiters = delimiters
		return s.search(func(s *session) observe { return &predicting{s: s} })
	}
}
