From 1937b4b3f2466dfbd3b0a250ee7c48a3ca7a8bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 01/20] fix: record the right position when swapping characters
 at the end of line

The undo record of Ctrl-T at the end of the line pointed behind the two
swapped characters. Undoing it sliced out of range and crashed.
---
 gommand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gommand.go b/gommand.go
index 165599a..7845c47 100644
--- a/gommand.go
+++ b/gommand.go
@@ -362,7 +362,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 			return CONTINUE
 		}
 		u := &_Undo{
-			pos:  this.Cursor,
+			pos:  this.Cursor - 2,
 			del:  2,
 			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
-- 
2.43.0


From a26b1b155104ed97a5b692f4b16f0ee273ee2176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 02/20] fix: never scroll the view beyond the cursor

When the view was too narrow for the character on the cursor,
ResetViewStart set ViewStart behind the cursor.
The following repaint crashed with a negative slice bound.
---
 buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buffer.go b/buffer.go
index 00418e4..f0c5fe2 100644
--- a/buffer.go
+++ b/buffer.go
@@ -155,8 +155,8 @@ func (B *Buffer) ResetViewStart() {
 	for i := 0; i <= B.Cursor && i < len(B.Buffer); i++ {
 		w += B.Buffer[i].Moji.Width()
 		for w >= B.ViewWidth() {
-			if B.ViewStart >= len(B.Buffer) {
-				// When standard output is redirected.
+			if B.ViewStart >= B.Cursor {
+				// The view is too narrow, or standard output is redirected.
 				return
 			}
 			w -= B.Buffer[B.ViewStart].Moji.Width()
-- 
2.43.0


From f32dee1c86d19a7fb5474b5c6fd273e5275dae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 03/20] fix: END_OF_LINE crashed on an empty line in a too
 narrow terminal

With a view width of zero or less the scrolling branch was taken even
for an empty line and the index -1 was accessed.
---
 gommand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gommand.go b/gommand.go
index 7845c47..d1001b2 100644
--- a/gommand.go
+++ b/gommand.go
@@ -91,7 +91,7 @@ var CmdEndOfLine = NewGoCommand("END_OF_LINE", cmdEndOfLine)
 
 func cmdEndOfLine(ctx context.Context, this *Buffer) Result {
 	allength := this.GetWidthBetween(this.ViewStart, len(this.Buffer))
-	if allength < this.ViewWidth() {
+	if len(this.Buffer) <= 0 || allength < this.ViewWidth() {
 		this.puts(this.Buffer[this.Cursor:])
 		this.Cursor = len(this.Buffer)
 	} else {
-- 
2.43.0


From 04d3735d91e9cac0d4d4e2d98e8fcd2efffced87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 04/20] fix: tab after the column 32767 crashed

The column of a tab is stored in int16 and can wrap to a negative value.
The remainder of a negative value is negative, so the width was wrong
and printing sliced out of range. Use the low two bits instead.
---
 internal/moji/codepoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index cbb3c04..c921610 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -12,11 +12,11 @@ type Tab struct {
 }
 
 func (t *Tab) Width() WidthT {
-	return WidthT(4 - t.pos%4)
+	return WidthT(4 - t.pos&3)
 }
 
 func (t *Tab) PrintTo(w io.Writer) {
-	io.WriteString(w, "    "[t.pos%4:])
+	io.WriteString(w, "    "[t.pos&3:])
 }
 
 func (t *Tab) WriteTo(w io.Writer) (int64, error) {
-- 
2.43.0


From d5701155071239c6a3b355b052666ea0e6ee5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 05/20] fix: ZERO WIDTH NON-JOINER was replaced with ZERO WIDTH
 JOINER

U+200C is a member of Join_Control, so it was treated as U+200D and
the text returned to the caller had a different character.
---
 internal/moji/moji.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 8b5a5bd..9dd3bb3 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,7 +2,6 @@ package moji
 
 import (
 	"io"
-	"unicode"
 	"unicode/utf8"
 )
 
@@ -138,7 +137,7 @@ func (s _VariationSequence) PrintTo(w io.Writer) {
 const zeroWidthJoinRune = '\u200D'
 
 func isZeroWidthJoin(r rune) bool {
-	return ZeroWidthJoinSequenceOk && unicode.Is(unicode.Join_Control, r)
+	return ZeroWidthJoinSequenceOk && r == zeroWidthJoinRune
 }
 
 func AreZeroWidthJoin(s string) bool {
-- 
2.43.0


From 8bfc3add5c67f00f6700469e459ea38af4573bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 06/20] fix: U+FFFD was appended to the text ending with ZERO
 WIDTH JOINER

When no character follows the joiner, keep it as a character by itself.
---
 internal/moji/moji.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 9dd3bb3..6ccb43e 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -157,7 +157,7 @@ func StringToMoji(s string) []Moji {
 		s = s[size:]
 
 		if last != nil {
-			if isZeroWidthJoin(r) {
+			if isZeroWidthJoin(r) && len(s) > 0 {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
@@ -191,7 +191,7 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 		s = s[size:]
 
 		if last != nil {
-			if isZeroWidthJoin(r) {
+			if isZeroWidthJoin(r) && len(s) > 0 {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
-- 
2.43.0


From 47a7ca8e685ff913bf8e20e50c1345cd0566e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 07/20] fix: discarded modification of a history entry came
 back

When a modified entry was edited back to the original text, the old
modified text stayed saved and was shown on the next visit.
---
 history.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/history.go b/history.go
index fda3c69..3061f5c 100644
--- a/history.go
+++ b/history.go
@@ -25,6 +25,7 @@ var CmdPreviousHistory = NewGoCommand("PREVIOUS_HISTORY", cmdPreviousHistory)
 func (B *Buffer) saveModifiedHistory() {
 	s := B.String()
 	if B.historyPointer < B.History.Len() && B.History.At(B.historyPointer) == s {
+		delete(B.modifiedHistory, B.historyPointer)
 		return
 	}
 	if B.modifiedHistory == nil {
-- 
2.43.0


From 4c25fcfe366dc428f146a4cd5e4146973e46fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 08/20] fix: modification of the first history entry was lost
 on cycling

The modified text was saved for the index behind the end of the history
instead of the index of the entry.
---
 history.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/history.go b/history.go
index 3061f5c..e9b1882 100644
--- a/history.go
+++ b/history.go
@@ -53,10 +53,12 @@ func cmdPreviousHistory(ctx context.Context, this *Buffer) Result {
 		if !this.HistoryCycling {
 			return CONTINUE
 		}
-		this.historyPointer = this.History.Len() + 1
+		this.saveModifiedHistory()
+		this.historyPointer = this.History.Len()
+	} else {
+		this.saveModifiedHistory()
+		this.historyPointer--
 	}
-	this.saveModifiedHistory()
-	this.historyPointer--
 	CmdKillWholeLine.Func(ctx, this)
 	if s := this.getHistory(); s != "" {
 		this.InsertString(0, s)
-- 
2.43.0


From 79b8f2954c65eea1ea6037c943d17aa6d6aac46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 09/20] fix: BindKeySymbol looked up the command by the name of
 the key

---
 nameutils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nameutils/main.go b/nameutils/main.go
index cf31273..2699bb2 100644
--- a/nameutils/main.go
+++ b/nameutils/main.go
@@ -25,7 +25,7 @@ func GetFunc(name string) (readline.Command, error) {
 }
 
 func BindKeySymbol(km *readline.KeyMap, key, funcName string) error {
-	f, err := GetFunc(key)
+	f, err := GetFunc(funcName)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From fe1bd5a2dc51cbe7481d7ac3bc430506d8d30b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 10/20] fix: completion crashed when candidates contain invalid
 UTF-8

The byte-length of the common part was taken from a re-encoded string,
which can be longer than the shortest candidate.
---
 completion/main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/completion/main.go b/completion/main.go
index 541ccaf..f7dd5c7 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/nyaosorg/go-box/v2"
 	rl "github.com/nyaosorg/go-readline-ny"
@@ -55,7 +56,14 @@ func commonPrefix(list []string) string {
 			minimumIndex = index + 1
 		}
 	}
-	return list[minimumIndex][:len(common)]
+	// The same characters can have different byte-lengths in each candidate.
+	shortest := list[minimumIndex]
+	end := 0
+	for n := utf8.RuneCountInString(common); n > 0; n-- {
+		_, size := utf8.DecodeRuneInString(shortest[end:])
+		end += size
+	}
+	return shortest[:end]
 }
 
 func removeQuotes(s, q string) string {
-- 
2.43.0


From 1cc741e3faa0ec1b63782f7a6417bda70ebdccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 11/20] fix: filename completion crashed on a word of
 quotations only

After the quotations are removed, the field is empty and
its last character does not exist.
---
 completion/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index e5e0ff9..6991d22 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -29,7 +29,10 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 	}
 	target := field[len(field)-1]
 	var dir, base string
-	if tail := target[len(target)-1]; tail == os.PathSeparator || tail == '/' {
+	if target == "" {
+		base = ""
+		dir = ""
+	} else if tail := target[len(target)-1]; tail == os.PathSeparator || tail == '/' {
 		base = ""
 		dir = target
 	} else {
-- 
2.43.0


From 934008d5315673d84e2ee1b34271b93bcf2e73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:22 +0000
Subject: [PATCH 12/20] fix: filename completion never ended on an empty
 directory

When the only candidate was an empty directory, it was read forever.
---
 completion/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index 6991d22..ec66ab2 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -82,7 +82,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			fullnames = append(fullnames, full)
 			basenames = append(basenames, name)
 		}
-		if len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) {
+		if len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) || fullnames[0] == dir {
 			return
 		}
 		base = ""
-- 
2.43.0


From ea87dfbb86274f31e787fbc2eae02922c63c3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:37 +0000
Subject: [PATCH 13/20] fix: undo crashed when the removed text is split into
 characters differently

The removed characters were kept as a string and split again on undo.
The count of characters could become different from the one which the
older undo records expect, for example, when a variation selector had
been typed before its base character. Keep the characters themselves.
---
 buffer.go  | 12 ++++++++----
 gommand.go | 15 +++++++--------
 isearch.go |  2 +-
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/buffer.go b/buffer.go
index f0c5fe2..23104a0 100644
--- a/buffer.go
+++ b/buffer.go
@@ -13,7 +13,7 @@ const forbiddenWidth WidthT = 3 // = lastcolumn(1) and FULLWIDTHCHAR-SIZE(2)
 type _Undo struct {
 	pos  int
 	del  int
-	text string
+	text []Cell
 }
 
 type Cell struct {
@@ -138,7 +138,7 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 	}
 	u := &_Undo{
 		pos:  pos,
-		text: cell2string(B.Buffer[pos : pos+n]),
+		text: copyCells(B.Buffer[pos : pos+n]),
 	}
 	B.undoes = append(B.undoes, u)
 
@@ -224,13 +224,13 @@ func (B *Buffer) joinUndo() {
 	if u1.pos != u2.pos {
 		return
 	}
-	if u1.text != "" && u2.text != "" {
+	if len(u1.text) > 0 && len(u2.text) > 0 {
 		return
 	}
 	if u1.del != 0 && u2.del != 0 {
 		return
 	}
-	if u1.text == "" {
+	if len(u1.text) <= 0 {
 		u1.text = u2.text
 	}
 	if u1.del == 0 {
@@ -274,6 +274,10 @@ func (s _Range) Width() (w WidthT) {
 	return
 }
 
+func copyCells(m []Cell) []Cell {
+	return append([]Cell(nil), m...)
+}
+
 func cell2string(m []Cell) string {
 	var buffer strings.Builder
 	for _, m1 := range m {
diff --git a/gommand.go b/gommand.go
index d1001b2..df972e3 100644
--- a/gommand.go
+++ b/gommand.go
@@ -237,7 +237,7 @@ func cmdKillLine(ctx context.Context, this *Buffer) Result {
 	this.eraseline()
 	u := &_Undo{
 		pos:  this.Cursor,
-		text: cell2string(this.Buffer[this.Cursor:]),
+		text: copyCells(this.Buffer[this.Cursor:]),
 	}
 	this.undoes = append(this.undoes, u)
 	this.Buffer = this.Buffer[:this.Cursor]
@@ -250,7 +250,7 @@ var CmdKillWholeLine = NewGoCommand("KILL_WHOLE_LINE", cmdKillWholeLine)
 func cmdKillWholeLine(ctx context.Context, this *Buffer) Result {
 	u := &_Undo{
 		pos:  0,
-		text: cell2string(this.Buffer),
+		text: copyCells(this.Buffer),
 	}
 	this.undoes = append(this.undoes, u)
 	this.GotoHead()
@@ -364,7 +364,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 2,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
+			text: copyCells(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
@@ -378,7 +378,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 1,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-1 : this.Cursor+1]),
+			text: copyCells(this.Buffer[this.Cursor-1 : this.Cursor+1]),
 		}
 		this.undoes = append(this.undoes, u)
 
@@ -451,10 +451,9 @@ func cmdUndo(ctx context.Context, this *Buffer) Result {
 	if u.del > 0 {
 		this.Buffer = sliceDelete(this.Buffer, u.pos, u.del)
 	}
-	if u.text != "" {
-		cells := mojis2cells(StringToMoji(u.text))
-		this.Buffer = sliceInsert(this.Buffer, u.pos, cells...)
-		this.Cursor = u.pos + len(cells)
+	if len(u.text) > 0 {
+		this.Buffer = sliceInsert(this.Buffer, u.pos, u.text...)
+		this.Cursor = u.pos + len(u.text)
 	} else {
 		this.Cursor = u.pos
 	}
diff --git a/isearch.go b/isearch.go
index e983554..6f1f11d 100644
--- a/isearch.go
+++ b/isearch.go
@@ -74,7 +74,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			this.ViewStart = 0
 			u := &_Undo{
 				pos:  0,
-				text: cell2string(this.Buffer),
+				text: copyCells(this.Buffer),
 			}
 			this.undoes = append(this.undoes, u)
 			this.Buffer = this.Buffer[:0]
-- 
2.43.0


From 0bed92a9c81559be0595e9f94d1d92b9265d2a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:55 +0000
Subject: [PATCH 14/20] fix: a prediction for a previous text was inserted

KILL_LINE, KILL_WHOLE_LINE, SWAPCHAR and moving in the history change the
text without updating the prediction. FORWARD_CHAR at the end of the line
inserted the old prediction which does not belong to the current text.
---
 gommand.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gommand.go b/gommand.go
index df972e3..8edfcfc 100644
--- a/gommand.go
+++ b/gommand.go
@@ -241,6 +241,7 @@ func cmdKillLine(ctx context.Context, this *Buffer) Result {
 	}
 	this.undoes = append(this.undoes, u)
 	this.Buffer = this.Buffer[:this.Cursor]
+	this.suffix = nil
 	return CONTINUE
 }
 
@@ -256,6 +257,7 @@ func cmdKillWholeLine(ctx context.Context, this *Buffer) Result {
 	this.GotoHead()
 	this.eraseline()
 	this.Buffer = this.Buffer[:0]
+	this.suffix = nil
 	this.Cursor = 0
 	this.ViewStart = 0
 	return CONTINUE
@@ -371,6 +373,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 
 		this.GotoHead()
 		this.puts(this.Buffer[this.ViewStart:this.Cursor])
+		this.eraseline()
 	} else {
 		if this.Cursor < 1 {
 			return CONTINUE
@@ -391,6 +394,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		this.Cursor++
 		this.puts(this.Buffer[this.ViewStart:this.Cursor])
 	}
+	this.suffix = nil
 	return CONTINUE
 }
 
-- 
2.43.0


From b50d8a0f7e234a4c990cd08a1e7634374c1dfa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:20 +0000
Subject: [PATCH 15/20] fix: names CTRL_DOWN and M_BACKSPACE meant keys without
 modifiers

Binding a command to them replaced the binding of Down and Backspace.
---
 keys/naming.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keys/naming.go b/keys/naming.go
index f01d15d..d177246 100644
--- a/keys/naming.go
+++ b/keys/naming.go
@@ -9,7 +9,7 @@ var NameToCode = map[string]Code{
 	"CLEAR":       Clear,
 	"CTRL":        Ctrl,
 	"CTRL_BREAK":  CtrlBreak,
-	"CTRL_DOWN":   Down,
+	"CTRL_DOWN":   CtrlDown,
 	"C_A":         CtrlA,
 	"C_B":         CtrlB,
 	"C_C":         CtrlC,
@@ -77,7 +77,7 @@ var NameToCode = map[string]Code{
 	"LEFT":        Left,
 	"M_A":         AltA,
 	"M_B":         AltB,
-	"M_BACKSPACE": Backspace,
+	"M_BACKSPACE": ALTBackspace,
 	"M_C":         AltC,
 	"M_D":         AltD,
 	"M_E":         AltE,
-- 
2.43.0


From 902ae49e4c059d1d13193d2393345cf0ab499ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:20 +0000
Subject: [PATCH 16/20] fix: UNIX_WORD_RUBOUT could not remove tabs and
 combined characters

A tab was not treated as a space and a sequence such as an emoji with
ZERO WIDTH JOINER was not treated as a part of a word, so Ctrl-W did
nothing when only they were on the left side of the cursor.
---
 buffer.go                  | 2 ++
 internal/moji/codepoint.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/buffer.go b/buffer.go
index 23104a0..d8edf36 100644
--- a/buffer.go
+++ b/buffer.go
@@ -201,6 +201,8 @@ func (B *Buffer) CurrentWordTop() (wordTop int) {
 			} else if wordTop < 0 {
 				wordTop = i
 			}
+		} else if wordTop < 0 {
+			wordTop = i
 		}
 	}
 	if wordTop < 0 {
diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index c921610..22fe091 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -147,6 +147,8 @@ func rune2moji(ch rune, pos int) Moji {
 
 func MojiToRune(m Moji) (rune, bool) {
 	switch r := m.(type) {
+	case *Tab:
+		return '\t', true
 	case _RawCodePoint:
 		return rune(r), true
 	case _CtrlCodePoint:
-- 
2.43.0


From 1073cde5c441e5df3cacbb6614c753280af4078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:20 +0000
Subject: [PATCH 17/20] fix: StringToMoji put a tab at a wrong column after a
 combined character

The column did not include the width of the combined code points,
so the width differed from the one MojiWidthAndCountInString returns.
---
 internal/moji/moji.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 6ccb43e..694e9f2 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -176,8 +176,10 @@ func StringToMoji(s string) []Moji {
 				continue
 			}
 		}
+		if last != nil {
+			pos += int(last.Width())
+		}
 		last = rune2moji(r, pos)
-		pos += int(last.Width())
 		mojis = append(mojis, last)
 	}
 	return mojis
-- 
2.43.0


From 0a8ee3eb4aaf43ee4c0eba8ede499f6c44364286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:20 +0000
Subject: [PATCH 18/20] fix: control characters were sent to the terminal
 without escaping

A control character followed by a variation selector or a modifier, or
following ZERO WIDTH JOINER became a part of a sequence. The sequence is
printed as is, so the control character was not shown as ^X or <XX>.
---
 internal/moji/moji.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 694e9f2..a78db8e 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,6 +2,7 @@ package moji
 
 import (
 	"io"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -148,6 +149,18 @@ func AreZeroWidthJoin(s string) bool {
 	return isZeroWidthJoin(r)
 }
 
+// isCombinable returns true when m is printed as is. The character which is
+// printed as ^X, <XXXX> or spaces must not be a part of sequences
+// because sequences send their components to the terminal without escaping.
+func isCombinable(m Moji) bool {
+	switch m.(type) {
+	case nil, *Tab, _CtrlCodePoint, _EscCodePoint:
+		return false
+	default:
+		return true
+	}
+}
+
 func StringToMoji(s string) []Moji {
 	mojis := make([]Moji, 0, len(s))
 	var last Moji
@@ -156,9 +169,8 @@ func StringToMoji(s string) []Moji {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
 
-		if last != nil {
-			if isZeroWidthJoin(r) && len(s) > 0 {
-				next, nextsize := utf8.DecodeRuneInString(s)
+		if isCombinable(last) {
+			if next, nextsize := utf8.DecodeRuneInString(s); isZeroWidthJoin(r) && len(s) > 0 && !unicode.IsControl(next) {
 				s = s[nextsize:]
 
 				last = _ZeroWidthJoinSequence([...]Moji{last, _RawCodePoint(next)})
@@ -192,9 +204,8 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
 
-		if last != nil {
-			if isZeroWidthJoin(r) && len(s) > 0 {
-				next, nextsize := utf8.DecodeRuneInString(s)
+		if isCombinable(last) {
+			if next, nextsize := utf8.DecodeRuneInString(s); isZeroWidthJoin(r) && len(s) > 0 && !unicode.IsControl(next) {
 				s = s[nextsize:]
 
 				width -= lastWidth
-- 
2.43.0


From 20993afc2b5a9541e908badb5dc57a7364bca2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:59 +0000
Subject: [PATCH 19/20] fix: let a backspace in the prompt take back U+FFFD too

A backspace after U+FFFD or an invalid byte was ignored, so the column
where editing starts was one too large.
---
 main.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 93af8e4..133fe7a 100644
--- a/main.go
+++ b/main.go
@@ -102,9 +102,8 @@ func cutEscapeSequenceAndOldLine(s string) string {
 					esc = false
 				}
 			} else if r == '\b' {
-				if lastRune, siz := utf8.DecodeLastRune(buffer); lastRune != utf8.RuneError {
-					buffer = buffer[:len(buffer)-siz]
-				}
+				_, siz := utf8.DecodeLastRune(buffer)
+				buffer = buffer[:len(buffer)-siz]
 			} else {
 				buffer = append(buffer, r)
 			}
-- 
2.43.0


From fbbc9172a3113ddb3d4a89e1cdc4bbb3683f8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:16 +0000
Subject: [PATCH 20/20] fix: tty10 delivers a character split between two reads
 as one key

---
 tty10/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tty10/main.go b/tty10/main.go
index 9b46d6d..bca368f 100644
--- a/tty10/main.go
+++ b/tty10/main.go
@@ -67,6 +67,14 @@ func (M *Tty) GetKey() (string, error) {
 			return "", err
 		}
 	}
+	for !utf8.FullRune(M.buf) {
+		// the rest of the last character has not been read yet
+		rest, err := M.getKey()
+		if err != nil || len(rest) <= 0 {
+			break
+		}
+		M.buf = append(M.buf, rest...)
+	}
 	var result string
 	r, size := utf8.DecodeRune(M.buf)
 	if r == '\x1B' {
-- 
2.43.0

