#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "No key sequence crashes the editor; cursor and view stay inside the line",
 "From any state reachable by editing, every built-in editing command ends without a run-time panic (index, slice bound, nil) whatever the line, the cursor position, the history, the terminal width (also zero or narrower than the prompt) and the widths of characters. After every command 0 <= view start <= cursor <= number of characters in the line.",
 ["inputs", "histories", "configurations"],
 "every line content, cursor and view position that satisfies the invariant, every built-in command, every terminal and prompt width, every width table",
 "TestDummyIn and TestKeyFuncBackSpace press 9 keys in an 80 column terminal; no test has a narrow terminal, a wide prompt, an undo or a word command.",
 ["gommand.go", "buffer.go", "repaints.go", "history.go", "isearch.go", "slice.go"],
 [("cursor clamping in each command", "gommand.go"), ("ResetViewStart", "buffer.go"), ("getView/getView2", "buffer.go")],
 [("Buffer.Cursor", "index of the character under the cursor", "main.go Editor.Cursor"), ("Buffer.ViewStart", "index of the first character shown", "buffer.go")],
 ["Buffer.Cursor, Buffer.ViewStart, len(Buffer.Buffer) after each command", "panics"])

prop("C02", "Text goes through the editor unchanged",
 "Splitting any string into display characters and writing those characters back gives the same string, for every valid UTF-8 string and every combination of terminal abilities; in a string that is not valid UTF-8 exactly the invalid bytes become U+FFFD. The text of the line, or of any part of it, is the concatenation of its characters in order.",
 ["inputs", "configurations"],
 "all strings, all 16 combinations of the surrogate-pair/ZWJ/variation/modifier abilities",
 "TestCodePointPut checks one 6-character string, TestString2Moji only counts and widths of four sequences.",
 ["internal/moji/moji.go", "internal/moji/codepoint.go", "buffer.go"],
 [("StringToMoji", "internal/moji/moji.go"), ("WriteTo of every character kind", "internal/moji/codepoint.go"), ("cell2string, SubString, String", "buffer.go")],
 [], ["string returned by ReadLine, Buffer.String, Buffer.SubString"])

prop("C03", "Each editing command changes exactly the text it names",
 "Typing, deleting, killing, swapping, yanking and replacing change only the characters the command names (the typed characters at the cursor, the character before or under the cursor, the text to the end or from the top of the line, the word before the cursor, the two characters around the cursor) and leave every other character of the line in place and in order. The cursor ends where the command says, cursor movements change no text, and the kill commands put exactly the removed text into the clipboard.",
 ["inputs", "histories"],
 "all lines, cursor positions and typed keys; all built-in editing and movement commands",
 "TestDummyIn edits one three-letter line; kill, word, swap, yank and replace commands are not tested at all.",
 ["gommand.go", "buffer.go", "slice.go", "repaints.go"],
 [("sliceInsert/sliceDelete", "slice.go"), ("Buffer.insert, Delete, InsertString, ReplaceAndRepaint", "buffer.go, repaints.go"), ("cmd* functions, SelfInserter", "gommand.go")],
 [("Buffer.Buffer", "the characters of the line", "buffer.go")],
 ["line and cursor after a command", "clipboard"])

prop("C04", "Undo walks back through the earlier texts of the line",
 "Every undo puts the line back to exactly a text it had earlier in the same edit, the most recent remaining one first, never to a text that did not exist, and never fails; undoing everything gives the text at the start of the edit. Commands that change no text destroy no undo step.",
 ["histories"],
 "all sequences of editing commands and undos",
 "No test calls undo.",
 ["buffer.go", "gommand.go", "repaints.go", "isearch.go"],
 [("_Undo records pushed by insert, Delete, kill and swap commands", "buffer.go, gommand.go"), ("joinUndo", "buffer.go"), ("cmdUndo", "gommand.go")],
 [("Buffer.undoes", "stack of inverse edits", "buffer.go")],
 ["line after undo"])

prop("C05", "History browsing shows the right entry and keeps edits",
 "Moving to the previous or next history entry replaces the line by that entry, or by the text the line had when that entry was last left with a modification in the same edit; the line being typed is kept the same way and comes back. The position never leaves the history, wraps only from the first entry to the line being typed when cycling is on, and the history itself is never changed.",
 ["inputs", "histories"],
 "all histories, all line contents, all sequences of previous/next mixed with edits, cycling on and off",
 "No test browses a history.",
 ["history.go", "simplehistory/main.go"],
 [("saveModifiedHistory/getHistory", "history.go"), ("cmdPreviousHistory/cmdNextHistory", "history.go"), ("Container", "simplehistory/main.go")],
 [("Buffer.historyPointer", "entry shown", "buffer.go"), ("Buffer.modifiedHistory", "texts left behind", "buffer.go")],
 ["line after each move"])

prop("C06", "Incremental search accepts only matching history entries",
 "When the search is accepted the line becomes the history entry shown, which contains the typed search text ignoring case, or becomes empty when nothing was shown; as long as only search text is typed or erased that entry is the most recent match. Cancelling or a failing terminal leaves the line and the undo steps untouched, and every search step ends.",
 ["inputs", "histories"],
 "all histories, all key sequences typed in the search",
 "No test enters the search.",
 ["isearch.go"],
 [("cmdISearchBackward", "isearch.go"), ("caseInsensitiveStringContains", "isearch.go")],
 [], ["line after the search"])

prop("C07", "A prediction is inserted only on request and only for the current text",
 "The default prediction is the rest of the most recent history entry that starts with the current line. Moving right at the end of the line inserts exactly the prediction computed for the text in the line, or nothing; no other command inserts it, and it is never part of the accepted text otherwise.",
 ["inputs", "histories", "configurations"],
 "all histories, lines, command sequences and prediction functions, prediction on and off",
 "No test switches prediction on.",
 ["buffer.go", "gommand.go", "repaints.go", "main.go"],
 [("predictByHistory, updateSuffix, Suffix", "buffer.go"), ("cmdForwardChar", "gommand.go")],
 [("Buffer.suffix", "prediction for the current text", "buffer.go")],
 ["line after the forward command"])

prop("C08", "Repainting shows the line inside the view and puts the cursor right",
 "A repaint draws, from the first column behind the prompt, the longest run of characters starting at the view start whose total width is below the view width, erases what is behind it, and leaves the terminal cursor directly behind the characters between view start and cursor. Scrolling to the cursor chooses a view start from which the characters up to the cursor fit in the view whenever that is possible.",
 ["inputs", "configurations"],
 "all lines, cursor and view positions, terminal widths, character widths, colourings and predictions",
 "TestKeyFuncBackSpace collects the output but compares nothing; no test looks at a view or a scroll position.",
 ["repaints.go", "buffer.go", "gommand.go"],
 [("getView/getView2/ResetViewStart", "buffer.go"), ("repaintWithoutUpdateSuffix, GotoHead, eraseline, puts", "repaints.go, buffer.go")],
 [("Buffer.ViewStart", "first character shown", "buffer.go")],
 ["bytes written to Editor.Out"])

prop("C09", "Reported widths equal the columns printed",
 "Printing a character moves the terminal by exactly the number of columns reported as its width, for plain, control (^X), escaped (<XXXX>), tab and combined characters; a tab reaches the next multiple of four. The width and count of a string are the sum of widths and the number of the characters the string is split into, and an assigned character width is used until it is assigned again or reset.",
 ["inputs", "configurations"],
 "all characters and strings, all terminal abilities, all width assignments, all columns",
 "The tests check the widths of five sequences.",
 ["internal/moji/codepoint.go", "internal/moji/moji.go", "internal/moji/width.go", "buffer.go"],
 [("Width/PrintTo pairs", "internal/moji"), ("MojiWidthAndCountInString", "internal/moji/moji.go"), ("getWidth/SetCharWidth/ResetCharWidth", "internal/moji/width.go")],
 [("widthCache", "assigned and cached widths", "internal/moji/width.go")],
 ["GetStringWidth, MojiCountInString, Moji.Width, PrintTo"])

prop("C10", "Control characters of the line are never sent to the terminal",
 "Whatever text is typed, pasted, taken from the history or completed, printing the characters of the line sends no control character contained in that text to the terminal: each is shown as ^X, as <XX> or, for a tab, as spaces.",
 ["inputs", "configurations"],
 "all strings, all combinations of terminal abilities",
 "TestCodePointPut prints one backspace, one tab and one DEL with all abilities off; sequences with control characters are not tested.",
 ["internal/moji/moji.go", "internal/moji/codepoint.go", "internal/moji/width.go"],
 [("rune2moji", "internal/moji/codepoint.go"), ("isCombinable and StringToMoji", "internal/moji/moji.go"), ("PrintTo", "internal/moji")],
 [], ["bytes written by PrintTo"])

prop("C11", "Key input is delivered complete and in order",
 "The concatenation of the keys delivered is the sequence of characters read from the terminal, nothing lost, duplicated or reordered (NUL is skipped, a UTF-16 surrogate pair is one character); a key that does not start an escape sequence is one character, an escape sequence is what was available in one burst. A read error is reported and the terminal mode is restored on every path.",
 ["inputs", "histories", "fault_sequences"],
 "all input streams and all ways they are cut into bursts, read errors at any position",
 "TestDummyIn replaces the terminal by a list of keys; the decoders are not tested.",
 ["getkey.go", "tty8.go", "tty10/main.go", "auto/main.go"],
 [("GetRawKey, GetKeys, GetKey", "getkey.go"), ("_Tty.GetKey", "tty8.go"), ("Tty.GetKey", "tty10/main.go"), ("Pilot.GetKey", "auto/main.go")],
 [("buf", "keys read but not delivered", "tty8.go, tty10/main.go")],
 ["return values of GetKey/GetKeys/GetRawKey"])

prop("C12", "Key bindings resolve as configured",
 "A key runs the command bound in the editor, else the one bound globally, else inserts itself; binding replaces only that key's command and binding nothing removes only that key. A key name, in any case and with dash or underscore, stands for exactly that key, a command name for exactly that command, an unknown name is an error that changes no binding, and the default bindings are the documented ones.",
 ["inputs", "histories", "configurations"],
 "all binding tables, keys, names and sequences of bindings",
 "No test binds or looks up a key.",
 ["keymap.go", "main.go", "nameutils/main.go", "keys/naming.go", "keys/code.go", "gommand.go"],
 [("KeyMap.BindKey/Lookup", "keymap.go"), ("Editor.LookupCommand", "main.go"), ("BindKeyFunc/GetFunc/BindKeySymbol", "nameutils/main.go"), ("NormalizeName, NameToCode", "keys/naming.go")],
 [("KeyMap.table", "bindings", "keymap.go")],
 ["LookupCommand, BindKeyFunc, BindKeySymbol, GetFunc"])

prop("C13", "Colour sequences encode exactly the codes they were built from",
 "A colour sequence built from up to six SGR codes (0-255), by constructor, by adding one code at a time or by chaining two sequences, is written to the terminal as ESC [ followed by those codes in order separated by semicolons and the letter m; equal code lists give equal sequences however they were built.",
 ["inputs"],
 "all code lists of length 1 to 6 with codes 0-255, all ways of splitting them",
 "TestColorSequenceAdd checks one two-code sequence and never writes it.",
 ["color.go"],
 [("Add, Chain, SGR1-SGR4", "color.go"), ("ColorSequence.WriteTo", "color.go")],
 [], ["bytes written by WriteTo", "== on ColorSequence"])

prop("C14", "The prompt occupies the columns it shows on its last line",
 "The column where editing starts is the display width of what the prompt shows on its last line: escape sequences (ESC up to a letter) and title sequences (ESC ] up to BEL) take no column, a backspace takes back the character before it, a line break starts again at zero. All other characters count, whatever they are.",
 ["inputs"],
 "all prompt strings",
 "TestCutEscapeSequenceAndOldLine checks two strings; no test has an escape sequence.",
 ["main.go", "repaints.go"],
 [("cutEscapeSequenceAndOldLine, callPromptWriter", "main.go"), ("RepaintAll", "repaints.go")],
 [("Buffer.topColumn", "columns of the prompt", "buffer.go")],
 ["cursor column after the prompt"])

prop("C15", "Completion replaces only the word being completed and always ends",
 "Completing replaces only the text from the start of the last word to the cursor; everything before that word and behind the cursor stays. It never fails or hangs, whatever the line, the candidates or the directories, and what it inserts for a single candidate is that candidate (quoted when it contains spaces or delimiters) with the postfix.",
 ["inputs", "configurations"],
 "all lines, cursor positions, quote and delimiter sets, candidate lists, directory contents",
 "The completion package has no test.",
 ["completion/main.go", "completion/file.go"],
 [("split, complete", "completion/main.go"), ("File.List", "completion/file.go")],
 [], ["line after completion"])

prop("C16", "Completion inserts only what all candidates share",
 "Only candidates that start with the typed word ignoring case are used, in their order, each with its own display name. With several candidates the text inserted is a prefix of one of them and, character by character ignoring case, a common prefix of all of them, and it is the longest such prefix.",
 ["inputs"],
 "all candidate lists (also empty names, invalid UTF-8 and characters whose upper case has another length) and typed words",
 "The completion package has no test.",
 ["completion/main.go"],
 [("commonPrefix", "completion/main.go"), ("removeUnmatches", "completion/main.go")],
 [], ["line after completion"])

prop("C17", "ReadLine reports the line and ends the session properly",
 "ReadLine returns the text of the line and no error on acceptance, an empty text with the Ctrl-C error on interrupt, an empty text with EOF on Ctrl-D in an empty line, and the terminal's error otherwise. On every path the terminal that was opened is closed exactly once, the editor's lock is free again, the cursor is switched on and the output is flushed.",
 ["inputs", "histories", "fault_sequences"],
 "all key sequences and commands, failure of opening, sizing and every key read",
 "Three tests end with Enter on a terminal that cannot fail.",
 ["main.go", "gommand.go"],
 [("Editor.ReadLine, Editor.Init", "main.go"), ("cmdAcceptLine, cmdInterrupt, cmdDeleteOrAbort", "gommand.go")],
 [("Editor.mutex", "serialises editing and resizing", "main.go")],
 ["return values of ReadLine, calls of ITty.Close, bytes written"])

prop("C18", "Every character is coloured once, in order, with the cursor marked",
 "Before the line is drawn the colouring is initialised once and then given every code point of the line once and in order, with the cursor mark exactly once directly before the character under the cursor (or at the end); each character is drawn in the colour answered for it. The batch-file colouring colours text between percent signs, between double quotes, ampersands and wide spaces as documented, independent of earlier lines.",
 ["inputs"],
 "all lines, cursor positions and colourings",
 "No test has a colouring.",
 ["repaints.go", "buffer.go", "coloring/vimbatch.go"],
 [("refreshColor", "repaints.go"), ("puts", "buffer.go"), ("VimBatch.Next", "coloring/vimbatch.go")],
 [("Cell.color", "colour answered", "buffer.go")],
 ["calls of Coloring.Init/Next"])

prop("C19", "Resizing and editing never touch the line at the same time",
 "The handler of terminal size changes and the handling of a key never read or write the line, the view or the output buffer at the same time, whatever the moment of the size change.",
 ["schedules"],
 "all interleavings of size changes with key handling",
 "No test delivers a size change.",
 ["main.go", "buffer.go"],
 [("Editor.mutex", "main.go")],
 [("Editor.mutex", "serialises editing and resizing", "main.go")],
 ["race detector"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
