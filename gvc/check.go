package main

// The check of one property: workers verify the functions the property
// depends on; contracts of internal helpers that no longer hold are replaced
// by the helper's body; what then still fails is reported.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type workReq struct {
	Task    string
	Dropped []string
}

type taskInfo struct {
	Name  string
	Key   string
	Entry bool
	Root  bool
}

type workReady struct {
	Tasks   []taskInfo
	Missing []string
	Funcs   int
	Init    string
	Err     string
}

// ---- worker ----

var slotDir string

// slot limits the solvers running at the same time over all workers.
func slot() func() {
	if slotDir == "" {
		return func() {}
	}
	n := solverSlots()
	for {
		for i := 0; i < n; i++ {
			f, err := os.OpenFile(filepath.Join(slotDir, strconv.Itoa(i)), os.O_CREATE|os.O_RDWR, 0o600)
			if err != nil {
				return func() {}
			}
			if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
				return func() { f.Close() }
			}
			f.Close()
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func solverSlots() int { return runtime.NumCPU() + 1 }

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("p", "", "")
	tier := fs.String("tier", "quick", "")
	dir := fs.String("c", "", "")
	fs.StringVar(&slotDir, "slots", "", "")
	fs.StringVar(&repoDir, "repo", repoDir, "")
	fs.Parse(args)
	out := json.NewEncoder(os.Stdout)
	v, err := func() (v *Verifier, err error) {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("%v", e)
			}
		}()
		return newVerifier(*dir, *prop, *tier)
	}()
	if err != nil {
		out.Encode(workReady{Err: err.Error()})
		return
	}
	v.timeout = 60 * time.Second
	if *tier == "thorough" {
		v.rlimit *= 2
	}
	tasks, missing := v.tasks()
	rd := workReady{Missing: missing, Funcs: len(v.allFns), Init: v.init.err}
	byName := map[string]*Task{}
	for _, t := range tasks {
		rd.Tasks = append(rd.Tasks, taskInfo{t.name, t.ct.key, v.entry(t.ct), t.ct.root})
		byName[t.name] = t
	}
	out.Encode(rd)
	in := json.NewDecoder(os.Stdin)
	for {
		var rq workReq
		if in.Decode(&rq) != nil {
			return
		}
		v.dropped = map[string]bool{}
		for _, d := range rq.Dropped {
			v.dropped[d] = true
		}
		if rq.Task == "lemmas" {
			out.Encode(v.proveLemmas())
			continue
		}
		r := v.verify(byName[rq.Task])
		out.Encode(r)
	}
}

func (v *Verifier) proveLemmas() *TaskResult {
	r := &TaskResult{Name: "lemmas"}
	start := time.Now()
	q0, t0 := statQueries, statTime
	for _, l := range v.lemmaTasks() {
		s0 := time.Now()
		ok, s, d := l.run(v)
		r.Obls = append(r.Obls, OblResult{Name: "lemma " + l.name, Kind: "lemma", OK: ok, Solver: s, Detail: d, MS: time.Since(s0).Milliseconds()})
	}
	r.Queries = statQueries - q0
	r.SolverMS = (statTime - t0).Milliseconds()
	r.WallMS = time.Since(start).Milliseconds()
	return r
}

// ---- coordinator ----

type workProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func (w *workProc) send(rq workReq) (*TaskResult, error) {
	b, _ := json.Marshal(rq)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	l, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	r := &TaskResult{}
	return r, json.Unmarshal(l, r)
}

type checker struct {
	prop, tier string
	dir        string
	seed       int
	start      time.Time
	deadline   time.Time
	ready      workReady
	ws         []*workProc
	results    map[string]*TaskResult
	dropped    map[string]string // contract -> reason
	log        io.Writer
	searched   string
}

func (r *TaskResult) bad() bool {
	if r.Err != "" || r.Unsup != "" || r.Vacuous != "" {
		return true
	}
	for _, o := range r.Obls {
		if !o.OK {
			return true
		}
	}
	return false
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("p", "", "property")
	dir := fs.String("c", "/verif/contracts", "contract directory")
	fs.StringVar(&repoDir, "repo", repoDir, "repository")
	verbose := fs.Bool("v", false, "verbose")
	noSearch := fs.Bool("nosearch", false, "no search for failing inputs")
	fs.Parse(args)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &checker{prop: *prop, tier: tier, dir: *dir, seed: seed, start: time.Now(), results: map[string]*TaskResult{}, dropped: map[string]string{}, log: io.Discard}
	c.deadline = c.start.Add(560 * time.Second)
	if *verbose {
		c.log = os.Stderr
	}
	os.Exit(c.run(*noSearch))
}

func (c *checker) fail(f string, a ...any) int {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	c.stop()
	return 2
}

func (c *checker) stop() {
	for _, w := range c.ws {
		w.in.Close()
		w.cmd.Process.Kill()
		w.cmd.Wait()
	}
	c.ws = nil
}

func (c *checker) startWorkers() error {
	self, err := os.Executable()
	if err != nil {
		return err
	}
	slots, err := os.MkdirTemp("", "gvc-slots")
	if err != nil {
		return err
	}
	slotDir = slots
	n := runtime.NumCPU()
	for i := 0; i < n; i++ {
		cmd := exec.Command(self, "worker", "-p", c.prop, "-tier", c.tier, "-c", c.dir, "-slots", slots, "-repo", repoDir)
		cmd.Stderr = os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		in, err := cmd.StdinPipe()
		if err != nil {
			return err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return err
		}
		if err := cmd.Start(); err != nil {
			return err
		}
		c.ws = append(c.ws, &workProc{cmd, in, bufio.NewReaderSize(out, 1<<20)})
	}
	for i, w := range c.ws {
		l, err := w.out.ReadBytes('\n')
		if err != nil {
			return fmt.Errorf("worker: %v", err)
		}
		var rd workReady
		if err := json.Unmarshal(l, &rd); err != nil {
			return err
		}
		if rd.Err != "" {
			return fmt.Errorf("%s", rd.Err)
		}
		if i == 0 {
			c.ready = rd
		}
	}
	return nil
}

func (c *checker) droppedList() []string { return sortedKeys(c.dropped) }

// pass verifies every task that is reachable from the entry tasks and has no result yet.
func (c *checker) pass() error {
	byName := map[string]taskInfo{}
	byKey := map[string][]string{}
	for _, t := range c.ready.Tasks {
		byName[t.Name] = t
		byKey[t.Key] = append(byKey[t.Key], t.Name)
	}
	queued := map[string]bool{}
	var queue []string
	push := func(n string) {
		if !queued[n] {
			queued[n] = true
			queue = append(queue, n)
		}
	}
	// reachable from known results
	var follow func(n string)
	follow = func(n string) {
		if r := c.results[n]; r != nil {
			if queued[n] {
				return
			}
			queued[n] = true
			for _, u := range r.Used {
				for _, m := range byKey[u] {
					follow(m)
				}
			}
			return
		}
		push(n)
	}
	if c.results["lemmas"] == nil {
		push("lemmas")
	}
	for _, t := range c.ready.Tasks {
		if t.Entry {
			follow(t.Name)
		}
	}
	type done struct {
		w   int
		r   *TaskResult
		n   string
		err error
	}
	ch := make(chan done)
	var idle []int
	for i := range c.ws {
		idle = append(idle, i)
	}
	busy := 0
	for len(queue) > 0 || busy > 0 {
		for len(queue) > 0 && len(idle) > 0 {
			n := queue[0]
			queue = queue[1:]
			w := idle[len(idle)-1]
			idle = idle[:len(idle)-1]
			busy++
			go func() {
				r, err := c.ws[w].send(workReq{n, c.droppedList()})
				ch <- done{w, r, n, err}
			}()
		}
		var d done
		select {
		case d = <-ch:
		case <-time.After(time.Until(c.deadline)):
			return errDeadline
		}
		busy--
		if d.err != nil {
			return fmt.Errorf("worker died on %s: %v", d.n, d.err)
		}
		idle = append(idle, d.w)
		c.results[d.n] = d.r
		st := "ok  "
		if d.r.bad() {
			st = "FAIL"
		}
		fmt.Fprintf(c.log, "%6.1fs %s %s (%d obligations, %d exits, %d queries, %.1fs) %s%s%s\n", time.Since(c.start).Seconds(), st, d.n, len(d.r.Obls), d.r.Exits, d.r.Queries, float64(d.r.WallMS)/1000, d.r.Err, d.r.Unsup, d.r.Vacuous)
		if d.r.bad() {
			for _, o := range d.r.Obls {
				if !o.OK {
					fmt.Fprintf(c.log, "        FAILED %s %s @%s\n", o.Kind, o.Name, o.Pos)
				}
			}
		}
		for _, u := range d.r.Used {
			for _, m := range byKey[u] {
				follow(m)
			}
		}
	}
	// forget results that are no longer reachable
	for n := range c.results {
		if !queued[n] && n != "lemmas" {
			delete(c.results, n)
		}
	}
	return nil
}

var errDeadline = fmt.Errorf("time limit")

// repair drops contracts of helpers that failed; it reports whether anything changed.
func (c *checker) repair() bool {
	info := map[string]taskInfo{}
	for _, t := range c.ready.Tasks {
		info[t.Name] = t
	}
	changed := map[string]bool{}
	for _, n := range sortedKeys(c.results) {
		r := c.results[n]
		if !r.bad() || n == "lemmas" {
			continue
		}
		t := info[n]
		if r.ErrKey != "" && r.ErrKey != t.Key && c.dropped[r.ErrKey] == "" {
			c.dropped[r.ErrKey] = "does not fit the code: " + r.Err
			changed[r.ErrKey] = true
			continue
		}
		if t.Root || strings.Contains(n, "|") {
			continue
		}
		if c.dropped[t.Key] == "" {
			why := r.Err + r.Unsup + r.Vacuous
			for _, o := range r.Obls {
				if !o.OK {
					why = o.Name
					break
				}
			}
			c.dropped[t.Key] = "does not hold: " + why
			changed[t.Key] = true
		}
	}
	if len(changed) == 0 {
		return false
	}
	for n, r := range c.results {
		for _, u := range r.Used {
			if changed[u] {
				delete(c.results, n)
				break
			}
		}
		if changed[r.ErrKey] || changed[info[n].Key] {
			delete(c.results, n)
		}
	}
	fmt.Fprintf(c.log, "        without the contracts of %v\n", sortedKeys(changed))
	return true
}

func (c *checker) run(noSearch bool) int {
	defer func() {
		if slotDir != "" {
			os.RemoveAll(slotDir)
		}
	}()
	os.Remove(filepath.Join(filepath.Dir(c.dir), "replay", c.prop+".txt"))
	// why is what keeps the obligations of this source from being discharged at all
	var why string
	if err := c.startWorkers(); err != nil {
		if strings.HasPrefix(err.Error(), "load: ") {
			return c.fail("%v", err)
		}
		why = err.Error()
	}
	late := false
	first := map[string]*TaskResult{}
	for round := 0; why == ""; round++ {
		err := c.pass()
		if err == errDeadline {
			late = true
			break
		}
		if err != nil {
			why = err.Error()
			break
		}
		for n, r := range c.results {
			if r.bad() && first[n] == nil {
				first[n] = r
			}
		}
		if round > 8 || !c.repair() {
			break
		}
	}
	c.stop()
	if r := c.results["lemmas"]; r != nil && r.bad() {
		for _, o := range r.Obls {
			if !o.OK {
				return c.fail("%s is not proved: %s", o.Name, o.Detail)
			}
		}
	}
	type failing struct {
		task string
		r    *TaskResult
	}
	var fails []failing
	for _, n := range sortedKeys(c.results) {
		if c.results[n].bad() && n != "lemmas" {
			fails = append(fails, failing{n, c.results[n]})
		}
	}
	// roots whose function is gone
	var gone []string
	for _, m := range c.ready.Missing {
		if strings.HasPrefix(m, "root ") {
			gone = append(gone, strings.TrimPrefix(m, "root "))
		}
	}
	if late && len(fails) == 0 {
		if len(first) == 0 {
			why = "not finished within the time limit"
		}
		for _, n := range sortedKeys(first) {
			fails = append(fails, failing{n, first[n]})
		}
	}
	if why != "" {
		gone = append(gone, "not verifiable: "+why)
	}
	viol := len(fails) + len(gone)
	rc := 0
	rdir := filepath.Join(filepath.Dir(c.dir), "replay")
	path := filepath.Join(rdir, c.prop+".txt")
	if viol == 0 && !noSearch {
		// The harness also drives what is not under contract, for a short time.
		secs := 15
		if c.tier == "thorough" {
			secs = 60
		}
		if out, found := c.search(secs); found {
			viol, rc = 1, 1
			os.MkdirAll(rdir, 0o755)
			os.WriteFile(path, []byte(fmt.Sprintf("property %s: every obligation is discharged, but this input fails (bounded search)\n\n%s\n", c.prop, out)), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		}
	} else if viol > 0 {
		rc = 1
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: obligations that the verifier does not discharge\n\n", c.prop)
		for _, g := range gone {
			fmt.Fprintf(&sb, "%s\n", g)
		}
		for _, f := range fails {
			fmt.Fprintf(&sb, "function %s\n", f.task)
			if s := f.r.Err + f.r.Unsup + f.r.Vacuous; s != "" {
				fmt.Fprintf(&sb, "  not verifiable: %s\n", s)
			}
			for _, o := range f.r.Obls {
				if o.OK {
					continue
				}
				fmt.Fprintf(&sb, "  obligation (%s): %s\n    at %s\n    verifier: %s\n    path:\n", o.Kind, o.Name, o.Pos, o.Detail)
				for j := len(o.Trace) - 1; j >= 0; j-- {
					fmt.Fprintf(&sb, "      %s\n", o.Trace[j])
				}
			}
		}
		if len(c.dropped) > 0 {
			fmt.Fprintf(&sb, "\ncontracts that no longer hold (their functions were examined inside the callers):\n")
			for _, k := range sortedKeys(c.dropped) {
				fmt.Fprintf(&sb, "  %s: %s\n", k, c.dropped[k])
			}
		}
		os.MkdirAll(rdir, 0o755)
		found := false
		if !noSearch {
			var out string
			out, found = c.search(60)
			if found {
				sb.WriteString("\nfailing input, run against the code in " + repoDir + ":\n" + out + "\n")
			} else {
				sb.WriteString("\nno failing input was found: " + out + "\n")
			}
		}
		os.WriteFile(path, []byte(sb.String()), 0o644)
		fmt.Fprint(c.log, sb.String())
		shown := 0
		for _, f := range fails {
			for _, o := range f.r.Obls {
				if !o.OK && shown < 8 {
					fmt.Printf("not discharged (%s): %s\n", o.Kind, o.Name)
					shown++
				}
			}
		}
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", c.prop, path)
		if !found {
			line += " no-failing-input-found"
		}
		fmt.Println(line)
	}
	if err := c.evidence(viol); err != nil {
		return c.fail("%v", err)
	}
	return rc
}

// search runs the black-box harness of the property for a failing input.
func (c *checker) search(seconds int) (string, bool) {
	script := filepath.Join(filepath.Dir(c.dir), "harness", "search.sh")
	if _, err := os.Stat(script); err != nil {
		return "no harness", false
	}
	cmd := exec.Command("bash", script, c.prop, repoDir, strconv.Itoa(c.seed), c.tier)
	cmd.Env = append(os.Environ(), "SEARCH_SECONDS="+strconv.Itoa(seconds))
	b, err := cmd.CombinedOutput()
	if err == nil {
		c.searched = strings.TrimSpace(string(b))
		return c.searched, false
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 1 {
		c.searched = "failing input found"
		return string(b), true
	}
	c.searched = "harness: " + err.Error()
	return c.searched + "\n" + string(b), false
}

func (c *checker) evidence(viol int) error {
	obl, dis, queries := 0, 0, 0
	var solver int64
	by := map[string]int{}
	kinds := map[string]int{}
	var funcs []string
	ext := map[string]bool{}
	inl := map[string]bool{}
	var undis []string
	for _, n := range sortedKeys(c.results) {
		r := c.results[n]
		queries += r.Queries
		solver += r.SolverMS
		if n != "lemmas" {
			funcs = append(funcs, n)
		}
		for _, o := range r.Obls {
			obl++
			kinds[o.Kind]++
			if o.OK {
				dis++
				by[o.Solver]++
			} else if len(undis) < 50 {
				undis = append(undis, o.Name)
			}
		}
		for _, u := range r.Used {
			if strings.HasPrefix(u, "extern ") {
				ext[strings.TrimPrefix(u, "extern ")] = true
			}
		}
		for _, u := range r.Inlined {
			inl[u] = true
		}
	}
	sp, err := loadSpec(c.dir)
	if err != nil {
		return err
	}
	var assume []string
	for _, a := range sp.assume {
		if strings.HasPrefix(a, "[") {
			tags, text, _ := strings.Cut(a[1:], "]")
			if !hasTag(strings.Split(tags, ","), c.prop) {
				continue
			}
			a = strings.TrimSpace(text)
		}
		assume = append(assume, a)
	}
	for _, k := range sortedKeys(ext) {
		s := "assumed contract: " + k
		if ct := sp.contracts[k]; ct != nil && ct.why != "" {
			s += " (" + ct.why + ")"
		}
		assume = append(assume, s)
	}
	sort.Strings(funcs)
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": obl, "discharged": dis,
			"checker_cmd":              "bash /verif/check.sh " + c.prop,
			"trusted_base":             trustedBase,
			"functions_under_contract": funcs,
			"functions_inlined":        sortedKeys(inl),
			"discharged_by":            by,
			"obligation_kinds":         kinds,
			"solver_queries":           queries,
			"solver_seconds":           float64(solver) / 1000,
			"undischarged":             undis,
			"bounded_search":           c.searched + " (public interface, random; not counted as proof)",
			"contracts_replaced_by_bodies": func() []string {
				out := []string{}
				for _, k := range sortedKeys(c.dropped) {
					out = append(out, k+": "+c.dropped[k])
				}
				return out
			}(),
		},
		"assumptions": assume,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	d := filepath.Join(filepath.Dir(c.dir), "evidence")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(d, c.prop+".json"), append(b, '\n'), 0o644)
}

var trustedBase = []string{
	"gvc (/verif/gvc): translation of the SSA form of the Go code in /repo into verification conditions",
	"golang.org/x/tools/go/ssa and the Go type checker: SSA form of the source",
	"z3 5.3.2, z3 4.8.12, cvc5 1.1.2: validity of the verification conditions",
	"axioms of sequences, strings and UTF-8 in /verif/gvc/prelude.go and of the specification functions in /verif/contracts/*.smt",
}
