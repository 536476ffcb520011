package readline_test

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/mattn/go-runewidth"

	rl "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/completion"
)

func anyRune(r *rand.Rand) rune {
	for {
		var c rune
		switch r.Intn(5) {
		case 0:
			c = rune(r.Intn(0x110000))
		case 1:
			c = rune(r.Intn(0x100))
		case 2:
			c = rune(r.Intn(0x3000))
		case 3:
			c = 0x1F000 + rune(r.Intn(0x1000))
		default:
			c = firstRune(piece(r))
		}
		if utf8.ValidRune(c) {
			return c
		}
	}
}

func anyText(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := r.Intn(n + 1); i > 0; i-- {
		if r.Intn(3) == 0 {
			b.WriteRune(anyRune(r))
		} else {
			b.WriteString(textOf(r, 2))
		}
		if r.Intn(6) == 0 {
			b.WriteString("\u200d")
		}
	}
	return b.String()
}

// ---- C09 ----

// columns gives the columns a terminal moves for an output, or -1 when the
// terminal is free in what it does.
func columns(out string, assigned map[rune]int) int {
	cond := runewidth.NewCondition()
	cond.EastAsianWidth = !emojiOK
	if os.Getenv("WT_SESSION") != "" && os.Getenv("WT_PROFILE_ID") != "" {
		cond.EastAsianWidth = false
	}
	x, saved := 0, -1
	rs := []rune(out)
	for i := 0; i < len(rs); i++ {
		c := rs[i]
		switch {
		case c == '\x1b' && i+1 < len(rs) && rs[i+1] == '7':
			saved = x
			i++
		case c == '\x1b' && i+1 < len(rs) && rs[i+1] == '8':
			if saved < 0 {
				return -1
			}
			x = saved
			i++
		case c == '\b':
			x--
		case saved >= 0 && !strings.Contains(string(rs[i:]), "\x1b8"):
			return -1
		case c == '\u200d':
			if i > 0 && rs[i-1] == c {
				return -1
			}
			x++
		case 0x1F1E6 <= c && c <= 0x1F1FF:
			if len(rs) > 1 {
				return -1
			}
			x += 2
		case saved < 0 && (unicode.Is(unicode.Variation_Selector, c) || unicode.Is(unicode.Me, c) || c == 0x1F3F3 || c == 0x1F3F4 || 0x1D400 <= c && c < 0x1D800):
			return -1
		default:
			if w, ok := assigned[c]; ok {
				x += w
			} else {
				x += cond.RuneWidth(c)
			}
		}
	}
	return x
}

func printed(m rl.Moji) string {
	var b strings.Builder
	m.PrintTo(&b)
	return b.String()
}

func init() {
	searchers["C09"] = func(r *rand.Rand) string {
		rl.ResetCharWidth()
		assigned := map[rune]int{}
		s := anyText(r, 8)
		var notes string
		if r.Intn(3) == 0 {
			for i := r.Intn(4); i >= 0; i-- {
				c := anyRune(r)
				if r.Intn(2) == 0 && s != "" {
					c = firstRune(s)
				}
				if c < 0xa0 || 0x2500 <= c && c < 0x2580 || c >= 0x10000 || unicode.Is(unicode.Cf, c) || unicode.Is(unicode.M, c) || c == utf8.RuneError {
					continue
				}
				w := 1 + r.Intn(4)
				if r.Intn(8) == 0 {
					rl.ResetCharWidth()
					assigned = map[rune]int{}
					notes += "the widths are reset\n"
				}
				rl.SetCharWidth(c, w)
				assigned[c] = w
				notes += fmt.Sprintf("the width of %q is set to %d\n", c, w)
				if x := rl.GetStringWidth(string(c)); int(x) != w {
					return notes + fmt.Sprintf("the width of the text %q is %d", string(c), x)
				}
			}
		}
		ms := rl.StringToMoji(s)
		total := 0
		for _, m := range ms {
			out := printed(m)
			w := int(m.Width())
			total += w
			var raw strings.Builder
			m.WriteTo(&raw)
			if raw.String() == "\t" {
				if strings.Trim(out, " ") != "" || len(out) != w || w < 1 || w > 4 || total%4 != 0 {
					return notes + fmt.Sprintf("text %q: a tab from column %d is printed as %q, its width is %d", s, total-w, out, w)
				}
				continue
			}
			if x := columns(out, assigned); x >= 0 && x != w {
				return notes + fmt.Sprintf("text %q: the character %q is printed as %q, %d columns, its width is %d", s, raw.String(), out, x, w)
			}
		}
		if x := int(rl.GetStringWidth(s)); x != total {
			return notes + fmt.Sprintf("text %q: the width is %d, the widths of its %d characters add up to %d", s, x, len(ms), total)
		}
		if x := rl.MojiCountInString(s); x != len(ms) {
			return notes + fmt.Sprintf("text %q: the count is %d, it is split into %d characters", s, x, len(ms))
		}
		return ""
	}
}

// ---- C10 ----

// stray gives a control character that a printed character sends.
func stray(out string) string {
	for {
		i := strings.Index(out, "\x1b7")
		if i < 0 {
			break
		}
		j := i + 2
		for j < len(out) && out[j] == '\b' {
			j++
		}
		out = out[:i] + out[j:]
		k := strings.Index(out[i:], "\x1b8")
		if k < 0 {
			return "ESC 7 without ESC 8"
		}
		out = out[:i+k] + out[i+k+2:]
	}
	for _, c := range out {
		if unicode.IsControl(c) {
			return fmt.Sprintf("%U", c)
		}
	}
	return ""
}

type controls struct{}

func (controls) start(*rl.Buffer) {}
func (controls) step(i int, st step, B *rl.Buffer, before, after state) string {
	for _, c := range B.Buffer {
		if s := stray(printed(c.Moji)); s != "" {
			return fmt.Sprintf("the character %q of the line is printed as %q: control character %s", c.String(), printed(c.Moji), s)
		}
	}
	return ""
}
func (controls) end(string, error, state) string { return "" }

func init() {
	searchers["C10"] = func(r *rand.Rand) string {
		s := anyText(r, 8)
		on := rl.IsSurrogatePairEnabled()
		defer rl.EnableSurrogatePair(on)
		rl.EnableSurrogatePair(r.Intn(2) == 0)
		for _, m := range rl.StringToMoji(s) {
			if x := stray(printed(m)); x != "" {
				return fmt.Sprintf("text %q (surrogate pairs %v): the output %q contains the control character %s", s, rl.IsSurrogatePairEnabled(), printed(m), x)
			}
		}
		if r.Intn(3) == 0 {
			s := randomSession(r, 10, mix{undo: true, hist: true, emoji: true})
			for i := range s.steps {
				if s.steps[i].name == "TYPE" && r.Intn(3) == 0 {
					s.steps[i] = self(anyText(r, 3))
				}
			}
			return s.search(func(s *session) observe { return controls{} })
		}
		return ""
	}
}

// ---- C13 ----

func init() {
	searchers["C13"] = func(r *rand.Rand) string {
		n := 1 + r.Intn(6)
		codes := make([]int, n)
		for i := range codes {
			codes[i] = []int{0, 1, 7, 31, 38, 127, 128, 200, 255, r.Intn(256)}[r.Intn(10)]
		}
		var how string
		build := func(c []int) rl.ColorSequence {
			k := 1 + r.Intn(4)
			if k > len(c) {
				k = len(c)
			}
			var x rl.ColorSequence
			switch k {
			case 1:
				x = rl.SGR1(c[0])
			case 2:
				x = rl.SGR2(c[0], c[1])
			case 3:
				x = rl.SGR3(c[0], c[1], c[2])
			case 4:
				x = rl.SGR4(c[0], c[1], c[2], c[3])
			}
			how += fmt.Sprintf(" SGR%d%v", k, c[:k])
			for _, v := range c[k:] {
				x = x.Add(v)
				how += fmt.Sprintf(" Add(%d)", v)
			}
			return x
		}
		make1 := func() rl.ColorSequence {
			how += "\n "
			k := r.Intn(n)
			if k == 0 {
				return build(codes)
			}
			x := build(codes[:k])
			how += " chained with"
			return x.Chain(build(codes[k:]))
		}
		a, b := make1(), make1()
		want := strings.ReplaceAll(strings.Trim(fmt.Sprint(codes), "[]"), " ", ";")
		var o1, o2 strings.Builder
		a.WriteTo(&o1)
		b.WriteTo(&o2)
		if o1.String() != "\x1b["+want+"m" || o2.String() != o1.String() {
			return fmt.Sprintf("the colour codes %v, built in two ways:%s\nare written as %q and %q", codes, how, o1.String(), o2.String())
		}
		if a != b {
			return fmt.Sprintf("the colour codes %v, built in two ways:%s\nare not equal: %X and %X", codes, how, a, b)
		}
		return ""
	}
}

// ---- C14 ----

type promptWidth struct {
	width int
	want  int
}

func (*promptWidth) start(*rl.Buffer) {}
func (o *promptWidth) step(i int, st step, B *rl.Buffer, before, after state) string {
	got := o.width - 3 - int(B.ViewWidth())
	if got != o.want {
		return fmt.Sprintf("the prompt is taken for %d columns, it shows %d on its last line", got, o.want)
	}
	return ""
}
func (*promptWidth) end(string, error, state) string { return "" }

func init() {
	searchers["C14"] = func(r *rand.Rand) string {
		var b strings.Builder
		var shown []rune
		for i := r.Intn(8); i > 0; i-- {
			switch r.Intn(9) {
			case 0:
				b.WriteString("\x1b")
				if r.Intn(4) > 0 {
					b.WriteString("[")
				}
				for k := r.Intn(5); k > 0; k-- {
					b.WriteString([]string{"0", "1", ";", "?", "[", "9", " ", ":", "="}[r.Intn(9)])
				}
				b.WriteString([]string{"m", "A", "z", "Z", "a", "K", "h"}[r.Intn(7)])
			case 1:
				b.WriteString("\x1b]")
				for k := r.Intn(7); k > 0; k-- {
					b.WriteString([]string{"0", ";", "m", "A", "[", "]", " ", "\x1b", "\b", "あ", ";", "\t"}[r.Intn(12)])
				}
				b.WriteString("\x07")
			case 2:
				b.WriteString("\b")
				if len(shown) > 0 {
					shown = shown[:len(shown)-1]
				}
			case 3:
				b.WriteString([]string{"\n", "\r\n", "\r"}[r.Intn(3)])
				shown = nil
			default:
				var t string
				for k := 1 + r.Intn(3); k > 0; k-- {
					c := anyRune(r)
					if r.Intn(2) == 0 {
						c = []rune{'a', 'Z', '>', ' ', '[', ']', ';', '7', 'あ', 'm', '\a', '\t', 'é', '-'}[r.Intn(14)]
					}
					if c == '\x1b' || c == '\b' || c == '\r' || c == '\n' {
						continue
					}
					t += string(c)
					shown = append(shown, c)
				}
				b.WriteString(t)
			}
		}
		o := &promptWidth{width: 100000, want: int(rl.GetStringWidth(string(shown)))}
		s := &session{width: o.width, prompt: b.String()}
		s.steps = []step{{name: "LOOK", call: func(context.Context, *rl.Buffer) rl.Result { return rl.CONTINUE }}}
		if r.Intn(3) == 0 {
			s.steps = append(s.steps, cmd("REPAINT_ON_NEWLINE", rl.CmdRepaintOnNewline))
		}
		m := s.run(o)
		if m == "" {
			return ""
		}
		return fmt.Sprintf("prompt %q (shows %q on its last line)\n%s", s.prompt, string(shown), m)
	}
}

// ---- C15, C16 ----

type source struct {
	full, base []string
	enc, del   string
	asked      *[]string
}

func (s source) Enclosures() string { return s.enc }
func (s source) Delimiters() string { return s.del }
func (s source) List(f []string) ([]string, []string) {
	if s.asked != nil {
		*s.asked = append([]string(nil), f...)
	}
	return append([]string(nil), s.full...), append([]string(nil), s.base...)
}

var nameParts = []string{"a", "b", "A", "B", "a", "b", " ", "é", "É", "K", "k", "ſ", "s", "ı", "あ", "&", "ß", "Ⱥ", "ⱥ", "\xff", "\"", "'", "Ǆ", "ǅ", "ς", "Σ"}

func name(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := r.Intn(n + 1); i > 0; i-- {
		b.WriteString(nameParts[r.Intn(len(nameParts))])
	}
	return b.String()
}

func randomSource(r *rand.Rand) source {
	s := source{enc: []string{"\"'", "\"", "", "'", "`\"'"}[r.Intn(5)], del: []string{"&|><;", "", "&", "&;"}[r.Intn(4)]}
	stem := name(r, 3)
	for i := r.Intn(5); i > 0; i-- {
		n := name(r, 4)
		if r.Intn(3) > 0 {
			n = stem + n
			if r.Intn(4) == 0 {
				n = strings.ToUpper(stem) + name(r, 2)
			}
		}
		s.full = append(s.full, n)
		s.base = append(s.base, fmt.Sprintf("<%d:%s>", i, n))
	}
	if r.Intn(3) == 0 {
		s.base = nil
	}
	return s
}

func completionSteps(r *rand.Rand) []step {
	var out []step
	for i := r.Intn(4); i >= 0; i-- {
		src := randomSource(r)
		for _, c := range name(r, 4) {
			out = append(out, self(string(c)))
		}
		out = append(out, complete(r, src))
		if r.Intn(2) == 0 {
			out = append(out, cmd("UNDO", rl.CmdUndo))
		}
	}
	return out
}

func complete(r *rand.Rand, src source) step {
	post := []string{"", " ", "/"}[r.Intn(3)]
	st := step{name: "COMPLETE", arg: fmt.Sprintf("candidates %q displayed %q quotes %q delimiters %q postfix %q", src.full, src.base, src.enc, src.del, post)}
	st.call = completion.CmdCompletionOrList{Completion: src, Postfix: post}.Call
	if r.Intn(2) == 0 {
		st.call = completion.CmdCompletion{Completion: src, Postfix: post}.Call
	}
	return st
}

const blanks = " \t\r\n\v\f"

// lastWord gives the start and the text of the last word before the cursor.
func lastWord(cells []string, enc, del string) (start int, word string, ok bool) {
	clean := func(s string) string {
		var b strings.Builder
		for _, c := range s {
			if !strings.ContainsRune(enc, c) {
				b.WriteRune(c)
			}
		}
		return b.String()
	}
	i := 0
	for i < len(cells) {
		for i < len(cells) && strings.Contains(blanks, cells[i]) {
			i++
		}
		if i >= len(cells) {
			return
		}
		from := i
		open := map[int]bool{}
		closed := func() bool {
			for _, v := range open {
				if v {
					return false
				}
			}
			return true
		}
		for {
			if i >= len(cells) {
				return from, clean(strings.Join(cells[from:], "")), true
			}
			if j := strings.Index(enc, cells[i]); j >= 0 {
				open[j] = !open[j]
			} else if closed() && strings.Contains(blanks, cells[i]) {
				start, word, ok = from, clean(strings.Join(cells[from:i], "")), true
				break
			} else if closed() && strings.Contains(del, cells[i]) {
				start, word, ok = i, cells[i], true
				i++
				break
			}
			i++
		}
	}
	return
}

type completing struct {
	src  source
	post string
	prop string
	list bool
}

func up(s string) []rune {
	r := []rune(s)
	for i := range r {
		r[i] = unicode.ToUpper(r[i])
	}
	return r
}

func (o *completing) start(*rl.Buffer) {}
func (o *completing) step(i int, st step, B *rl.Buffer, before, after state) string {
	if st.name != "COMPLETE" {
		return ""
	}
	cur := before.cursor
	start, word, ok := lastWord(before.cells[:cur], o.src.enc, o.src.del)
	if !ok {
		start = cur
	}
	left := strings.Join(before.cells[:start], "")
	k := len(after.cells) - (len(before.cells) - cur)
	if k < start || !same(after.cells[k:], before.cells[cur:]) || !same(after.cells[:start], before.cells[:start]) {
		return fmt.Sprintf("expected: only the characters %d to %d (the last word) change", start, cur)
	}
	var left2 []string
	for _, f := range o.src.full {
		if len(f) >= len(word) && strings.EqualFold(f[:len(word)], word) {
			left2 = append(left2, f)
		}
	}
	ins := strings.TrimPrefix(strings.Join(after.cells[:k], ""), left)
	if !same(before.cells, after.cells) && after.cursor != k {
		return "expected: cursor behind the completed word"
	}
	quoteable := func(s string) bool { return strings.ContainsAny(s, blanks+o.src.del) }
	switch {
	case !ok || len(left2) == 0:
		if !same(before.cells, after.cells) {
			return "no candidate fits, but the line changes"
		}
	case len(left2) == 1:
		c := left2[0]
		if strings.EqualFold(c, word) {
			if !same(before.cells, after.cells) {
				return "the word is the candidate already, but the line changes"
			}
			return ""
		}
		want := c
		if o.src.enc != "" && o.src.del != "" && quoteable(c) {
			want = o.src.enc[:1] + c + o.src.enc[:1]
		}
		if ins != norm(want+o.post) {
			return fmt.Sprintf("expected: %q for the word %q", want+o.post, word)
		}
	default:
		n := len(up(left2[0]))
		for _, f := range left2 {
			a, b := up(left2[0]), up(f)
			if len(b) < n {
				n = len(b)
			}
			for j := 0; j < n; j++ {
				if a[j] != b[j] {
					n = j
				}
			}
		}
		same1 := func(s string) bool {
			for _, f := range left2 {
				if x := []rune(f); len(x) >= n && string(x[:n]) == norm(s) {
					return true
				}
			}
			return false
		}
		q := false
		for _, f := range left2 {
			q = q || quoteable(f)
		}
		if same1(ins) || q && o.src.enc != "" && strings.HasPrefix(ins, o.src.enc[:1]) && same1(ins[1:]) {
			return ""
		}
		if !same(before.cells, after.cells) {
			return fmt.Sprintf("expected: the %d characters all candidates %q share, inserted was %q", n, left2, ins)
		}
		if !same1(word) && !strings.EqualFold(string([]rune(left2[0])[:n]), word) && len(up(word)) != n {
			return fmt.Sprintf("expected: the %d characters all candidates %q share", n, left2)
		}
	}
	return ""
}
func (*completing) end(string, error, state) string { return "" }

func completionSearch(prop string) searcher {
	return func(r *rand.Rand) string {
		src := randomSource(r)
		post := []string{"", " ", "/"}[r.Intn(3)]
		s := &session{width: 80, prompt: "> "}
		if r.Intn(4) == 0 {
			s.width = widths[r.Intn(len(widths))]
		}
		typed := name(r, 3)
		if len(src.full) > 0 && r.Intn(3) > 0 {
			f := src.full[r.Intn(len(src.full))]
			typed = f[:r.Intn(len(f)+1)]
		}
		var before string
		for i := r.Intn(3); i > 0; i-- {
			before += name(r, 3) + " "
		}
		if r.Intn(4) == 0 && src.enc != "" {
			typed = src.enc[:1] + typed
		}
		if r.Intn(5) == 0 {
			typed += " "
		}
		if r.Intn(5) == 0 && src.del != "" {
			typed = src.del[:1] + typed
		}
		for _, c := range []rune(before + typed) {
			s.steps = append(s.steps, self(string(c)))
		}
		for i := r.Intn(3); i > 0; i-- {
			s.steps = append(s.steps, cmd("BACKWARD_CHAR", rl.CmdBackwardChar))
		}
		st := step{name: "COMPLETE", arg: fmt.Sprintf("candidates %q displayed %q quotes %q delimiters %q postfix %q", src.full, src.base, src.enc, src.del, post)}
		st.call = completion.CmdCompletionOrList{Completion: src, Postfix: post}.Call
		if r.Intn(2) == 0 {
			st.call = completion.CmdCompletion{Completion: src, Postfix: post}.Call
		}
		s.steps = append(s.steps, st)
		if m := s.search(func(s *session) observe { return &completing{src: src, post: post, prop: prop} }); m != "" {
			return m
		}
		if prop == "C15" && r.Intn(20) == 0 {
			return fileSearch(r)
		}
		return ""
	}
}

// fileSearch completes names of files made for the purpose.
func fileSearch(r *rand.Rand) string {
	top, err := os.MkdirTemp(os.Getenv("SEARCH_TMP"), "d")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(top)
	dir := top
	var made []string
	for i := r.Intn(5); i >= 0; i-- {
		n := []string{"a", "b", "ab", "a b", "A", "Ab", "あ"}[r.Intn(7)]
		p := filepath.Join(dir, n)
		switch r.Intn(4) {
		case 0, 1:
			if os.Mkdir(p, 0777) == nil && r.Intn(2) == 0 {
				dir = p
			}
		case 2:
			os.WriteFile(p, nil, 0666)
		case 3:
			os.Symlink([]string{".", top, "missing", n}[r.Intn(4)], p)
		}
		made = append(made, p)
	}
	word := top + "/" + []string{"", "a", "A", "ab/", "a/", "./a"}[r.Intn(6)]
	type answer struct{ full, base []string }
	ch := make(chan answer, 1)
	fail := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				fail <- fmt.Sprintf("panic: %v", e)
			}
		}()
		f, b := completion.File{}.List([]string{word})
		ch <- answer{f, b}
	}()
	what := fmt.Sprintf("files %q, completing the word %q: ", made, word)
	select {
	case a := <-ch:
		if len(a.full) != len(a.base) {
			return what + "the numbers of candidates and displayed names differ"
		}
		return ""
	case m := <-fail:
		return what + m
	case <-time.After(10 * time.Second):
		return what + "never ends"
	}
}

func init() {
	searchers["C15"] = completionSearch("C15")
	searchers["C16"] = completionSearch("C16")
}
