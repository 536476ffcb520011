// Keys and bindings.

define NORMNAME(s) = replaceall(upperstr(s), "-", "_")
define BOUND(K, k) = K.table != nil && sel(mapdom(K.table), k)
define BINDING(K, k) = sel(mapval(K.table), k)
// key is bound to f, or to nothing, and every other key as before
define REBOUND(K, key, f) = BOUND(K, key) == (f != nil) && imp(f != nil, BINDING(K, key) == f) \
  && forall(k, "Str", imp(k != key, BOUND(K, k) == old(BOUND(K, k)) && imp(BOUND(K, k), BINDING(K, k) == old(BINDING(K, k)))), sel(mapdom(K.table), k))
define SAMEBOUND(K) = forall(k, "Str", BOUND(K, k) == old(BOUND(K, k)) && imp(BOUND(K, k), BINDING(K, k) == old(BINDING(K, k))), sel(mapdom(K.table), k))

// no key is bound to a missing command
define KMOK(K) = forall(k, "Str", imp(BOUND(K, k), BINDING(K, k) != nil), sel(mapval(K.table), k))

ginvariant readline.GlobalKeyMap != nil
ginvariant readline.NameToFunc != nil
ginvariant keys.NameToCode != nil

func readline.(*KeyMap).BindKey(km, key, f) root
  requires km != nil
  requires [C12] KMOK(km)
  modifies km.table, mapof(km.table)
  ensures [C12] REBOUND(km, key, f)
  ensures [C12] KMOK(km)

func readline.(*KeyMap).Lookup(km, key) (f, ok) root
  requires km != nil
  ensures [*,C12] ok == BOUND(km, key)
  ensures [*,C12] imp(ok, f == BINDING(km, key))

func readline.(*Editor).LookupCommand(E, key) (f) root
  requires E != nil && KMOK(E.KeyMap) && KMOK(readline.GlobalKeyMap)
  ensures f != nil
  ensures [C12] imp(BOUND(E.KeyMap, key), f == BINDING(E.KeyMap, key))
  ensures [C12] imp(!BOUND(E.KeyMap, key) && BOUND(readline.GlobalKeyMap, key), f == BINDING(readline.GlobalKeyMap, key))
  ensures [C12] imp(!BOUND(E.KeyMap, key) && !BOUND(readline.GlobalKeyMap, key), f == mkiface(key, "readline.SelfInserter"))

func keys.NormalizeName(s) (r) root
  ensures [*,C12] r == NORMNAME(s)

define KEYNAME(s) = sel(mapdom(keys.NameToCode), NORMNAME(s))
define KEYCODE(s) = sel(mapval(keys.NameToCode), NORMNAME(s))
define CMDNAME(s) = sel(mapdom(readline.NameToFunc), NORMNAME(s))
define CMDOF(s) = sel(mapval(readline.NameToFunc), NORMNAME(s))

func nameutils.GetFunc(name) (f, err) root
  ensures [*,C12] iff(err == nil, CMDNAME(name))
  ensures [*,C12] imp(err == nil, f == CMDOF(name))

func nameutils.BindKeyFunc(km, key, f) (err) root
  requires km != nil
  requires [C12] KMOK(km)
  modifies km.table, mapof(km.table)
  ensures [C12] KMOK(km)
  ensures [*,C12] iff(err == nil, KEYNAME(key))
  ensures [C12] imp(err == nil, REBOUND(km, KEYCODE(key), f))
  ensures [C12] imp(err != nil, SAMEBOUND(km))

func nameutils.BindKeySymbol(km, key, funcName) (err) root
  requires km != nil
  requires [C12] KMOK(km)
  modifies km.table, mapof(km.table)
  ensures [C12] KMOK(km)
  ensures [C12] iff(err == nil, KEYNAME(key) && CMDNAME(funcName))
  ensures [C12] imp(err == nil, REBOUND(km, KEYCODE(key), CMDOF(funcName)))
  ensures [C12] imp(err != nil, SAMEBOUND(km))

define NAMED(n, k) = sel(mapdom(keys.NameToCode), n) && sel(mapval(keys.NameToCode), n) == k
define COMMAND(n, c) = c != nil && sel(mapdom(readline.NameToFunc), n) && sel(mapval(readline.NameToFunc), n) == iface(c) && c.Name == n
define DEFAULT(k, c) = c != nil && sel(mapdom(readline.GlobalKeyMap.table), k) && sel(mapval(readline.GlobalKeyMap.table), k) == iface(c)

// the state the program starts with
initial state()
  ghost wt := rwtab
  ensures WT()
initial keynames()
  ensures [C12] NAMED("BACKSPACE", "\x7F")
  ensures [C12] NAMED("CLEAR", "\x0C")
  ensures [C12] NAMED("CTRL", "\x11")
  ensures [C12] NAMED("CTRL_BREAK", "\x03")
  ensures [C12] NAMED("CTRL_DOWN", "\x1B[1;5B")
  ensures [C12] NAMED("C_A", "\x01")
  ensures [C12] NAMED("C_B", "\x02")
  ensures [C12] NAMED("C_C", "\x03")
  ensures [C12] NAMED("C_D", "\x04")
  ensures [C12] NAMED("C_E", "\x05")
  ensures [C12] NAMED("C_F", "\x06")
  ensures [C12] NAMED("C_G", "\x07")
  ensures [C12] NAMED("C_H", "\x08")
  ensures [C12] NAMED("C_I", "\x09")
  ensures [C12] NAMED("C_J", "\x0A")
  ensures [C12] NAMED("C_K", "\x0B")
  ensures [C12] NAMED("C_L", "\x0C")
  ensures [C12] NAMED("C_LEFT", "\x1B[1;5D")
  ensures [C12] NAMED("C_M", "\x0D")
  ensures [C12] NAMED("C_N", "\x0E")
  ensures [C12] NAMED("C_O", "\x0F")
  ensures [C12] NAMED("C_P", "\x10")
  ensures [C12] NAMED("C_Q", "\x11")
  ensures [C12] NAMED("C_R", "\x12")
  ensures [C12] NAMED("C_RIGHT", "\x1B[1;5C")
  ensures [C12] NAMED("C_S", "\x13")
  ensures [C12] NAMED("C_T", "\x14")
  ensures [C12] NAMED("C_U", "\x15")
  ensures [C12] NAMED("C_UNDERBAR", "\x1F")
  ensures [C12] NAMED("C_UP", "\x1B[1;5A")
  ensures [C12] NAMED("C_V", "\x16")
  ensures [C12] NAMED("C_W", "\x17")
  ensures [C12] NAMED("C_X", "\x18")
  ensures [C12] NAMED("C_Y", "\x19")
  ensures [C12] NAMED("C_Z", "\x1A")
  ensures [C12] NAMED("C_[", "\x1B")
  ensures [C12] NAMED("C_\\", "\x1C")
  ensures [C12] NAMED("C_]", "\x1D")
  ensures [C12] NAMED("C_^", "\x1E")
  ensures [C12] NAMED("DELETE", "\x1B[3~")
  ensures [C12] NAMED("DOWN", "\x1B[B")
  ensures [C12] NAMED("END", "\x1B[F")
  ensures [C12] NAMED("ENTER", "\r")
  ensures [C12] NAMED("ESCAPE", "\x1B")
  ensures [C12] NAMED("F1", "\x1B[OP")
  ensures [C12] NAMED("F10", "\x1B[21~")
  ensures [C12] NAMED("F11", "\x1B[23~")
  ensures [C12] NAMED("F12", "\x1B[24~")
  ensures [C12] NAMED("F13", "\x7C")
  ensures [C12] NAMED("F14", "\x7D")
  ensures [C12] NAMED("F15", "\x7E")
  ensures [C12] NAMED("F16", "\x7F")
  ensures [C12] NAMED("F17", "\x80")
  ensures [C12] NAMED("F18", "\x81")
  ensures [C12] NAMED("F19", "\x82")
  ensures [C12] NAMED("F2", "\x1B[OQ")
  ensures [C12] NAMED("F20", "\x83")
  ensures [C12] NAMED("F21", "\x84")
  ensures [C12] NAMED("F22", "\x85")
  ensures [C12] NAMED("F23", "\x86")
  ensures [C12] NAMED("F24", "\x87")
  ensures [C12] NAMED("F3", "\x1B[OR")
  ensures [C12] NAMED("F4", "\x1B[OS")
  ensures [C12] NAMED("F5", "\x1B[15~")
  ensures [C12] NAMED("F6", "\x1B[16~")
  ensures [C12] NAMED("F7", "\x1B[17~")
  ensures [C12] NAMED("F8", "\x1B[18~")
  ensures [C12] NAMED("F9", "\x1B[20~")
  ensures [C12] NAMED("HOME", "\x1B[H")
  ensures [C12] NAMED("LEFT", "\x1B[D")
  ensures [C12] NAMED("M_A", "\x1Ba")
  ensures [C12] NAMED("M_B", "\x1Bb")
  ensures [C12] NAMED("M_BACKSPACE", "\x1B\b")
  ensures [C12] NAMED("M_C", "\x1Bc")
  ensures [C12] NAMED("M_D", "\x1Bd")
  ensures [C12] NAMED("M_E", "\x1Be")
  ensures [C12] NAMED("M_F", "\x1Bf")
  ensures [C12] NAMED("M_G", "\x1Bg")
  ensures [C12] NAMED("M_H", "\x1Bh")
  ensures [C12] NAMED("M_I", "\x1Bi")
  ensures [C12] NAMED("M_J", "\x1Bj")
  ensures [C12] NAMED("M_K", "\x1Bk")
  ensures [C12] NAMED("M_L", "\x1Bl")
  ensures [C12] NAMED("M_M", "\x1Bm")
  ensures [C12] NAMED("M_N", "\x1Bn")
  ensures [C12] NAMED("M_O", "\x1Bo")
  ensures [C12] NAMED("M_OEM_2", "\x1B/")
  ensures [C12] NAMED("M_P", "\x1Bp")
  ensures [C12] NAMED("M_Q", "\x1Bq")
  ensures [C12] NAMED("M_R", "\x1Br")
  ensures [C12] NAMED("M_S", "\x1Bs")
  ensures [C12] NAMED("M_T", "\x1Bt")
  ensures [C12] NAMED("M_U", "\x1Bu")
  ensures [C12] NAMED("M_V", "\x1Bv")
  ensures [C12] NAMED("M_W", "\x1Bw")
  ensures [C12] NAMED("M_X", "\x1Bx")
  ensures [C12] NAMED("M_Y", "\x1By")
  ensures [C12] NAMED("M_Z", "\x1Bz")
  ensures [C12] NAMED("PAGEDOWN", "\x1B[6~")
  ensures [C12] NAMED("PAGEUP", "\x1B[5~")
  ensures [C12] NAMED("PAUSE", "\x13")
  ensures [C12] NAMED("RIGHT", "\x1B[C")
  ensures [C12] NAMED("UP", "\x1B[A")
  ensures [C12] forall(n, "Str", imp(sel(mapdom(keys.NameToCode), n), n == "BACKSPACE" || n == "CLEAR" || n == "CTRL" || n == "CTRL_BREAK" || n == "CTRL_DOWN" || n == "C_A" || n == "C_B" || n == "C_C" || n == "C_D" || n == "C_E" || n == "C_F" || n == "C_G" || n == "C_H" || n == "C_I" || n == "C_J" || n == "C_K" || n == "C_L" || n == "C_LEFT" || n == "C_M" || n == "C_N" || n == "C_O" || n == "C_P" || n == "C_Q" || n == "C_R" || n == "C_RIGHT" || n == "C_S" || n == "C_T" || n == "C_U" || n == "C_UNDERBAR" || n == "C_UP" || n == "C_V" || n == "C_W" || n == "C_X" || n == "C_Y" || n == "C_Z" || n == "C_[" || n == "C_\\" || n == "C_]" || n == "C_^" || n == "DELETE" || n == "DOWN" || n == "END" || n == "ENTER" || n == "ESCAPE" || n == "F1" || n == "F10" || n == "F11" || n == "F12" || n == "F13" || n == "F14" || n == "F15" || n == "F16" || n == "F17" || n == "F18" || n == "F19" || n == "F2" || n == "F20" || n == "F21" || n == "F22" || n == "F23" || n == "F24" || n == "F3" || n == "F4" || n == "F5" || n == "F6" || n == "F7" || n == "F8" || n == "F9" || n == "HOME" || n == "LEFT" || n == "M_A" || n == "M_B" || n == "M_BACKSPACE" || n == "M_C" || n == "M_D" || n == "M_E" || n == "M_F" || n == "M_G" || n == "M_H" || n == "M_I" || n == "M_J" || n == "M_K" || n == "M_L" || n == "M_M" || n == "M_N" || n == "M_O" || n == "M_OEM_2" || n == "M_P" || n == "M_Q" || n == "M_R" || n == "M_S" || n == "M_T" || n == "M_U" || n == "M_V" || n == "M_W" || n == "M_X" || n == "M_Y" || n == "M_Z" || n == "PAGEDOWN" || n == "PAGEUP" || n == "PAUSE" || n == "RIGHT" || n == "UP"), sel(mapdom(keys.NameToCode), n))

initial commandnames()
  ensures [C12] COMMAND("ACCEPT_LINE", readline.CmdAcceptLine)
  ensures [C12] COMMAND("INTR", readline.CmdInterrupt)
  ensures [C12] COMMAND("BEGINNING_OF_LINE", readline.CmdBeginningOfLine)
  ensures [C12] COMMAND("BACKWARD_CHAR", readline.CmdBackwardChar)
  ensures [C12] COMMAND("END_OF_LINE", readline.CmdEndOfLine)
  ensures [C12] COMMAND("FORWARD_CHAR", readline.CmdForwardChar)
  ensures [C12] COMMAND("BACKWARD_DELETE_CHAR", readline.CmdBackwardDeleteChar)
  ensures [C12] COMMAND("DELETE_CHAR", readline.CmdDeleteChar)
  ensures [C12] COMMAND("DELETE_OR_ABORT", readline.CmdDeleteOrAbort)
  ensures [C12] COMMAND("KILL_LINE", readline.CmdKillLine)
  ensures [C12] COMMAND("KILL_WHOLE_LINE", readline.CmdKillWholeLine)
  ensures [C12] COMMAND("UNIX_WORD_RUBOUT", readline.CmdUnixWordRubout)
  ensures [C12] COMMAND("UNIX_LINE_DISCARD", readline.CmdUnixLineDiscard)
  ensures [C12] COMMAND("CLEAR_SCREEN", readline.CmdClearScreen)
  ensures [C12] COMMAND("REPAINT_ON_NEWLINE", readline.CmdRepaintOnNewline)
  ensures [C12] COMMAND("QUOTED_INSERT", readline.CmdQuotedInsert)
  ensures [C12] COMMAND("YANK", readline.CmdYank)
  ensures [C12] COMMAND("YANK_WITH_QUOTE", readline.CmdYankWithQuote)
  ensures [C12] COMMAND("SWAPCHAR", readline.CmdSwapChar)
  ensures [C12] COMMAND("BACKWARD_WORD", readline.CmdBackwardWord)
  ensures [C12] COMMAND("FORWARD_WORD", readline.CmdForwardWord)
  ensures [C12] COMMAND("UNDO", readline.CmdUndo)
  ensures [C12] COMMAND("PREVIOUS_HISTORY", readline.CmdPreviousHistory)
  ensures [C12] COMMAND("NEXT_HISTORY", readline.CmdNextHistory)
  ensures [C12] COMMAND("ISEARCH_BACKWARD", readline.CmdISearchBackward)
  ensures [C12] forall(n, "Str", imp(sel(mapdom(readline.NameToFunc), n), n == "ACCEPT_LINE" || n == "INTR" || n == "BEGINNING_OF_LINE" || n == "BACKWARD_CHAR" || n == "END_OF_LINE" || n == "FORWARD_CHAR" || n == "BACKWARD_DELETE_CHAR" || n == "DELETE_CHAR" || n == "DELETE_OR_ABORT" || n == "KILL_LINE" || n == "KILL_WHOLE_LINE" || n == "UNIX_WORD_RUBOUT" || n == "UNIX_LINE_DISCARD" || n == "CLEAR_SCREEN" || n == "REPAINT_ON_NEWLINE" || n == "QUOTED_INSERT" || n == "YANK" || n == "YANK_WITH_QUOTE" || n == "SWAPCHAR" || n == "BACKWARD_WORD" || n == "FORWARD_WORD" || n == "UNDO" || n == "PREVIOUS_HISTORY" || n == "NEXT_HISTORY" || n == "ISEARCH_BACKWARD"), sel(mapdom(readline.NameToFunc), n))

initial bindings()
  ensures [C12] KMOK(readline.GlobalKeyMap)
  ensures [C12] readline.GlobalKeyMap != nil && readline.GlobalKeyMap.table != nil
  ensures [C12] DEFAULT("\x1Bb", readline.CmdBackwardWord)
  ensures [C12] DEFAULT("\x1Bf", readline.CmdForwardWord)
  ensures [C12] DEFAULT("\x1Bv", readline.CmdYank)
  ensures [C12] DEFAULT("\x1By", readline.CmdYankWithQuote)
  ensures [C12] DEFAULT("\x7F", readline.CmdBackwardDeleteChar)
  ensures [C12] DEFAULT("\x01", readline.CmdBeginningOfLine)
  ensures [C12] DEFAULT("\x02", readline.CmdBackwardChar)
  ensures [C12] DEFAULT("\x03", readline.CmdInterrupt)
  ensures [C12] DEFAULT("\x04", readline.CmdDeleteOrAbort)
  ensures [C12] DEFAULT("\x05", readline.CmdEndOfLine)
  ensures [C12] DEFAULT("\x06", readline.CmdForwardChar)
  ensures [C12] DEFAULT("\x08", readline.CmdBackwardDeleteChar)
  ensures [C12] DEFAULT("\x0B", readline.CmdKillLine)
  ensures [C12] DEFAULT("\x0C", readline.CmdClearScreen)
  ensures [C12] DEFAULT("\x1B[1;5D", readline.CmdBackwardWord)
  ensures [C12] DEFAULT("\x0D", readline.CmdAcceptLine)
  ensures [C12] DEFAULT("\x0E", readline.CmdNextHistory)
  ensures [C12] DEFAULT("\x10", readline.CmdPreviousHistory)
  ensures [C12] DEFAULT("\x11", readline.CmdQuotedInsert)
  ensures [C12] DEFAULT("\x12", readline.CmdISearchBackward)
  ensures [C12] DEFAULT("\x1B[1;5C", readline.CmdForwardWord)
  ensures [C12] DEFAULT("\x14", readline.CmdSwapChar)
  ensures [C12] DEFAULT("\x15", readline.CmdUnixLineDiscard)
  ensures [C12] DEFAULT("\x1F", readline.CmdUndo)
  ensures [C12] DEFAULT("\x16", readline.CmdQuotedInsert)
  ensures [C12] DEFAULT("\x17", readline.CmdUnixWordRubout)
  ensures [C12] DEFAULT("\x19", readline.CmdYank)
  ensures [C12] DEFAULT("\x1A", readline.CmdUndo)
  ensures [C12] DEFAULT("\x1B[3~", readline.CmdDeleteChar)
  ensures [C12] DEFAULT("\x1B[B", readline.CmdNextHistory)
  ensures [C12] DEFAULT("\x1B[F", readline.CmdEndOfLine)
  ensures [C12] DEFAULT("\x1B", readline.CmdKillWholeLine)
  ensures [C12] DEFAULT("\x1B[H", readline.CmdBeginningOfLine)
  ensures [C12] DEFAULT("\x1B[D", readline.CmdBackwardChar)
  ensures [C12] DEFAULT("\x1B[C", readline.CmdForwardChar)
  ensures [C12] DEFAULT("\x1B[A", readline.CmdPreviousHistory)
  ensures [C12] forall(n, "Str", imp(sel(mapdom(readline.GlobalKeyMap.table), n), n == "\x1Bb" || n == "\x1Bf" || n == "\x1Bv" || n == "\x1By" || n == "\x7F" || n == "\x01" || n == "\x02" || n == "\x03" || n == "\x04" || n == "\x05" || n == "\x06" || n == "\x08" || n == "\x0B" || n == "\x0C" || n == "\x1B[1;5D" || n == "\x0D" || n == "\x0E" || n == "\x10" || n == "\x11" || n == "\x12" || n == "\x1B[1;5C" || n == "\x14" || n == "\x15" || n == "\x1F" || n == "\x16" || n == "\x17" || n == "\x19" || n == "\x1A" || n == "\x1B[3~" || n == "\x1B[B" || n == "\x1B[F" || n == "\x1B" || n == "\x1B[H" || n == "\x1B[D" || n == "\x1B[C" || n == "\x1B[A"), sel(mapdom(readline.GlobalKeyMap.table), n))
