// A session: ReadLine from opening to closing the terminal.

// terminals opened and closed
ghostvar topen Int
ghostvar tclose Int
// the answer of the last command and the text it left
ghostvar lrc Int
ghostvar ltext Str
// 1 while a mutex is held
ghostvar Locked (Array Int Int)
// what was sent to the terminal
ghostvar flushed (Array Int Str)

extern sync.(*Mutex).Lock(m)
  requires [C17] Locked(ref(m)) == 0
  modifies Locked(ref(m))
  ensures Locked(ref(m)) == 1
  why definition of a lock used by one thread: taking it twice blocks for ever

extern sync.(*Mutex).Unlock(m)
  requires [C17] Locked(ref(m)) == 1
  modifies Locked(ref(m))
  ensures Locked(ref(m)) == 0
  why definition of a lock

iface readline.ITty.Open(t, f) (err) trusted
  requires t != nil
  requires [C17] topen == tclose
  modifies topen, lasterr
  ensures topen == old(topen) + ite(err == nil, 1, 0)
  ensures err == lasterr
  why the ghost variables record the calls

iface readline.ITty.Close(t) (err) trusted
  requires t != nil
  requires [C17] topen == tclose + 1
  modifies tclose
  ensures tclose == old(tclose) + 1
  why the ghost variables record the calls

iface readline.ITty.Size(t) (w, h, err) trusted
  requires t != nil
  modifies lasterr
  ensures err == lasterr
  why the ghost variables record the calls

value readline.Editor.LineFeedWriter(rc, w) (n, err)
  modifies Out(w)
  why a line feed writer only writes to the writer it is given

assumption commands bound by the user keep the line valid, as every built-in command is proved to

iface readline.Command.Call(f, ctx, this) (rc) trusted
  requires f != nil && okB(this) && okH(this)
  requires [C07] SUF(this)
  requires [C01,C04,C10] chain(this)
  requires [C17] lrc == 0
  modifies MOVE(this), EDIT(this), TTY(), this.historyPointer, this.modifiedHistory, mapof(this.modifiedHistory), this.topColumn, this.pending, prompt, Clip, lrc, ltext
  modifies [C01,C04,C10] hist(ref(this))
  modifies [C17] flushed
  ensures okB(this) && okH(this)
  ensures base(this.Buffer) == old(base(this.Buffer)) || isfresh(base(this.Buffer))
  ensures [C07] rc != 0 || SUF(this)
  ensures [C01,C04,C10] chain(this)
  ensures nkeys >= old(nkeys)
  ensures [C17] lrc == rc && ltext == flat(M(this.Buffer))
  why every built-in command is verified under the same conditions; see the assumption on user commands

// the text ends with switching the cursor on
define ENDSON(s) = endsin(s, "\x1B[?25h\x1B[s\x1B[u") || endsin(s, "\x1B[?25h")

define okW(E) = imp(E.Writer != nil && istype(E.Writer, "*bufio.Writer"), payload(E.Writer, "*bufio.Writer") != nil)

func readline.(*Editor).Init(E) root
  requires E != nil && WT() && okW(E)
  modifies E.Writer, E.Out, E.History, E.Tty, E.Coloring, E.Predictor
  ensures [*,C17] okE(E)
  ensures [C17] imp(old(E.Tty) != nil, E.Tty == old(E.Tty)) && imp(old(E.Out) != nil, E.Out == old(E.Out))

func readline.(*Editor).ReadLine(E, ctx) (text, err) root top entry=C04,C05,C07,C10
  requires E != nil && WT() && okW(E) && E.Cursor >= 0
  requires KMOK(E.KeyMap) && KMOK(readline.GlobalKeyMap)
  requires [C17] Locked(ref(E.mutex)) == 0 && topen == tclose && lrc == 0
  ensures [C17] Locked(ref(E.mutex)) == 0
  ensures [C17] tclose == topen && topen <= old(topen) + 1
  ensures [C17] imp(lrc == 0, text == "" && err != nil && err == lasterr)
  ensures [C17] imp(lrc == 1, text == ltext && err == nil)
  ensures [C17] imp(lrc == 2, text == ltext && err == io.EOF)
  ensures [C17] imp(lrc == 3, text == ltext && err == readline.CtrlC)
  ensures [C17] flushed(ref(E.Out)) == Out(E.Out)
  ensures [C17] ENDSON(Out(E.Out))
  loop b:outer:*readline.Buffer => okB(b) && okH(b)
  loop [C07] b:outer:*readline.Buffer => SUF(b)
  loop [C01,C04,C10] b:outer:*readline.Buffer => chain(b)
  loop [C17] Locked(ref(E.mutex)) == 0
  loop [C17] tclose == old(tclose) && topen == old(topen) + 1
  loop [C17] lrc == 0

// ---- what the handler of size changes calls ----

func readline.(*Buffer).RepaintLastLine(B) root
  requires okB(B)
  requires [C07] SUFOFF(B)
  modifies PAINT(B), prompt
  modifies [C17] flushed
  ensures okB(B)
  ensures [C07] SUF(B)

func readline.(*Buffer).RepaintAfterPrompt(B) root
  requires okL(B) && 0 <= B.Cursor && B.Cursor <= len(B.Buffer)
  requires [C07] SUFOFF(B)
  modifies PAINT(B), B.ViewStart
  ensures okB(B)
  ensures [C07] SUF(B)
