// Package core is the exploration driver shared by all checks: it enumerates the units of a check,
// runs them in crash-isolated worker processes, merges what they covered and reports violations.
package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"
)

// Violation is one disagreement between the real code and the property's oracle.
type Violation struct {
	Key    string `json:"key"`    // identifies the failing input (stable across runs)
	Detail string `json:"detail"` // what was expected and what happened
	Unit   string `json:"unit"`
	Input  string `json:"input,omitempty"` // the failing input written out
}

// Rec accumulates what a unit covered.
type Rec struct {
	Evals       int             `json:"evals"`       // executions of the real code compared with the oracle
	Transitions int             `json:"transitions"` // model steps taken
	States      map[uint64]bool `json:"states"`      // distinct abstract states / outcomes
	Viol        []Violation     `json:"viol,omitempty"`
	NViol       int             `json:"nviol"`
	Samples     []string        `json:"samples,omitempty"`
	Stats       map[string]int  `json:"stats,omitempty"`
	Partial     bool            `json:"partial,omitempty"`
	Mark        func(string)    `json:"-"`
	unit        string
}

func newRec(unit string) *Rec {
	return &Rec{States: map[uint64]bool{}, Stats: map[string]int{}, unit: unit, Mark: func(string) {}}
}

// Hash is the state hash.
func Hash(s string) uint64 { h := fnv.New64a(); io.WriteString(h, s); return h.Sum64() }

// State records a visited abstract state.
func (r *Rec) State(s string) { r.States[Hash(s)] = true }

// Sample keeps a few cases for the evidence file.
func (r *Rec) Sample(s string) {
	if len(r.Samples) < 2 {
		if len(s) > 900 {
			s = s[:900] + "..."
		}
		r.Samples = append(r.Samples, s)
	}
}

var maxViol = func() int {
	if os.Getenv("VH_ALL") != "" {
		return 5000
	}
	return 20
}()

// Violate records a violation.
func (r *Rec) Violate(key, input, format string, a ...any) {
	r.NViol++
	if len(r.Viol) < maxViol && !slices.ContainsFunc(r.Viol, func(v Violation) bool { return v.Key == key }) {
		r.Viol = append(r.Viol, Violation{Key: key, Detail: fmt.Sprintf(format, a...), Unit: r.unit, Input: input})
	}
}

// Env is what a check sees.
type Env struct {
	Tier     string
	Seed     string
	Repo     string
	Verif    string
	Scratch  string            // private scratch directory of the whole run
	Data     map[string]string // handed from Prepare to the workers
	Thorough bool
}

// Check is one property's check.
type Check struct {
	ID               string
	Level            string
	Rule             string
	Bounds           string
	Assumptions      []string
	Prepare          func(*Env) error
	Units            func(*Env) []string
	Run              func(*Env, string, *Rec)
	Workers          int
	UnitTimeout      time.Duration
	NoCrashViolation bool
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.ID] = c }

type reply struct {
	Unit int
	Rec  *Rec
}

// Main is the entry point of the vh binary.
func Main() {
	log.SetFlags(0)
	if len(os.Args) < 3 {
		log.Fatal("usage: vh <ID> <tier> | vh worker <ID> <tier> | vh replay <file> | vh list x")
	}
	if os.Args[1] == "worker" {
		worker(os.Args[2], os.Args[3])
		return
	}
	if os.Args[1] == "list" {
		for id := range registry {
			fmt.Println(id)
		}
		return
	}
	only := ""
	id, tier := os.Args[1], os.Args[2]
	if id == "replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			log.Fatal(err)
		}
		var f struct {
			Property, Tier string
			Violation      Violation
		}
		if err := json.Unmarshal(b, &f); err != nil {
			log.Fatal(err)
		}
		id, tier, only = f.Property, f.Tier, f.Violation.Unit
	}
	os.Exit(parent(id, tier, only))
}

func makeEnv(tier string) *Env {
	e := &Env{Tier: tier, Seed: os.Getenv("VERIF_SEED"), Repo: repoDir(), Verif: os.Getenv("VERIF_DIR"), Data: map[string]string{}, Thorough: tier == "thorough"}
	if e.Verif == "" {
		e.Verif = "/verif"
	}
	return e
}

func worker(id, tier string) {
	debug.SetMaxStack(48 << 20)
	debug.SetGCPercent(200)
	c := registry[id]
	e := makeEnv(tier)
	e.Scratch = os.Getenv("VH_SCRATCH")
	if err := json.Unmarshal([]byte(os.Getenv("VH_DATA")), &e.Data); err != nil {
		log.Fatal(err)
	}
	markf, err := os.OpenFile(os.Getenv("VH_MARK"), os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		log.Fatal(err)
	}
	out := os.NewFile(3, "results")
	units := c.Units(e)
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		var n int
		fmt.Sscan(in.Text(), &n)
		r := newRec(units[n])
		r.Mark = func(s string) {
			b := []byte(fmt.Sprintf("%08d%s", len(s), s))
			markf.WriteAt(b, 0)
		}
		r.Mark("")
		c.Run(e, units[n], r)
		b, err := json.Marshal(reply{n, r})
		if err != nil {
			log.Fatal(err)
		}
		out.Write(append(b, '\n'))
	}
}

func readMark(path string) string {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return ""
	}
	var n int
	fmt.Sscanf(string(b[:8]), "%d", &n)
	if 8+n > len(b) {
		n = len(b) - 8
	}
	return string(b[8 : 8+n])
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	lines  chan []byte
	errBuf *tail
	mark   string
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 8<<10 { // keep the head: Go prints the reason of a crash first
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}

func start(e *Env, id string, n int) (*proc, error) {
	self, _ := os.Executable()
	if b := e.Data["worker_bin"]; b != "" { // built with an overlay of the instrumented sources
		self = b
	}
	return startBin(e, self, id, n)
}

// RunUnitIn runs one unit in another build of the worker.
func RunUnitIn(e *Env, bin, id, unit string, env ...string) (*Rec, error) {
	for n, u := range registry[id].Units(e) {
		if u != unit {
			continue
		}
		p, err := startBin(e, bin, id, 1000+os.Getpid(), env...)
		if err != nil {
			return nil, err
		}
		defer p.stop()
		rec, out := p.runUnit(n, 20*time.Minute)
		if out != "" {
			return nil, fmt.Errorf("%s: %s", out, p.errBuf.buf)
		}
		return rec, nil
	}
	return nil, fmt.Errorf("no unit %s", unit)
}

// MergeInto adds what the record covered to another one.
func (r *Rec) MergeInto(t *Rec) {
	t.Evals += r.Evals
	t.Transitions += r.Transitions
	for s := range r.States {
		t.States[s] = true
	}
	t.NViol += r.NViol
	for _, v := range r.Viol {
		v.Unit = t.unit
		t.Viol = append(t.Viol, v)
	}
	for k, v := range r.Stats {
		t.Stats[k] += v
	}
	t.Partial = t.Partial || r.Partial
}

func startBin(e *Env, self, id string, n int, env ...string) (*proc, error) {
	p := &proc{cmd: exec.Command(self, "worker", id, e.Tier), errBuf: &tail{}, mark: filepath.Join(e.Scratch, fmt.Sprintf("mark%d", n))}
	data, _ := json.Marshal(e.Data)
	p.cmd.Env = append(os.Environ(), "VH_SCRATCH="+e.Scratch, "VH_DATA="+string(data), "VH_MARK="+p.mark, "GOTRACEBACK=single")
	p.cmd.Env = append(p.cmd.Env, env...)
	p.cmd.Stderr = p.errBuf
	p.cmd.Stdout = p.errBuf
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p.cmd.ExtraFiles = []*os.File{w}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	p.lines = make(chan []byte, 1)
	go func() {
		br := bufio.NewReaderSize(r, 1<<20)
		for {
			b, err := br.ReadBytes('\n')
			if err != nil {
				break
			}
			p.lines <- b
		}
		close(p.lines)
		r.Close()
	}()
	return p, nil
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// runUnit runs one unit in the worker; outcome is "", "crash" or "hang".
func (p *proc) runUnit(n int, timeout time.Duration) (*Rec, string) {
	if _, err := fmt.Fprintln(p.in, n); err != nil {
		return nil, "crash"
	}
	select {
	case b, ok := <-p.lines:
		if !ok {
			p.cmd.Wait()
			return nil, "crash"
		}
		var rp reply
		if err := json.Unmarshal(b, &rp); err != nil {
			return nil, "crash"
		}
		return rp.Rec, ""
	case <-time.After(timeout):
		return nil, "hang"
	}
}

func parent(id, tier, only string) int {
	t0 := time.Now()
	c := registry[id]
	if c == nil {
		log.Printf("unknown check %s", id)
		return 2
	}
	e := makeEnv(tier)
	dir, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		log.Print(err)
		return 2
	}
	e.Scratch = dir
	defer os.RemoveAll(dir)
	if c.Prepare != nil {
		if err := c.Prepare(e); err != nil {
			log.Printf("prepare: %v", err)
			return 2
		}
	}
	units := c.Units(e)
	timeout := c.UnitTimeout
	if timeout == 0 {
		timeout = 150 * time.Second
	}
	if !e.Thorough && timeout > 200*time.Second {
		timeout = 200 * time.Second // several times what the longest unit of a quick run takes
	}
	nw := c.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if nw > len(units) {
		nw = len(units)
	}
	budget := 600 * time.Second
	if e.Thorough {
		budget = 6 * time.Hour
	}
	total := newRec("")
	var mu sync.Mutex
	next := 0
	hung := false
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if hung { // a unit which hangs twice is a violation: the others would take as long
			total.Partial = true
			return -1
		}
		for next < len(units) {
			n := next
			next++
			if only != "" && units[n] != only {
				continue
			}
			if time.Since(t0) > budget {
				total.Partial = true
				return -1
			}
			return n
		}
		return -1
	}
	done := 0
	var infra error
	merge := func(r *Rec) {
		mu.Lock()
		defer mu.Unlock()
		done++
		total.Evals += r.Evals
		total.Transitions += r.Transitions
		for s := range r.States {
			total.States[s] = true
		}
		total.NViol += r.NViol
		total.Viol = append(total.Viol, r.Viol...)
		for k, v := range r.Stats {
			total.Stats[k] += v
		}
		if r.Partial {
			total.Partial = true
		}
		for _, s := range r.Samples {
			if len(total.Samples) < 6 {
				total.Samples = append(total.Samples, s)
			}
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				n := take()
				if n < 0 {
					return
				}
				var rec *Rec
				var out, mark, msg string
				for try := 0; try < 3; try++ { // a crash or hang counts only when it repeats
					if p == nil {
						var err error
						if p, err = start(e, id, w); err != nil {
							infra = err
							return
						}
					}
					rec, out = p.runUnit(n, timeout)
					if out == "" {
						break
					}
					mark, msg = readMark(p.mark), string(p.errBuf.buf)
					p.stop()
					p = nil
					if out == "hang" && try > 0 {
						mu.Lock()
						hung = true
						mu.Unlock()
						break
					}
				}
				if out != "" {
					rec = newRec(units[n])
					if strings.Contains(msg, "VH-INFRA") {
						infra = fmt.Errorf("unit %s: %s", units[n], msg)
						return
					}
					if len(msg) > 3000 {
						msg = msg[:3000]
					}
					rec.Violate(out+": "+markKey(mark), mark, "scanner %s (in every attempt) in unit %s\n%s", out, units[n], msg)
				}
				merge(rec)
			}
		}(w)
	}
	wg.Wait()
	if infra != nil {
		log.Printf("infrastructure error: %v", infra)
		return 2
	}
	return finish(c, e, total, len(units), done, t0, only != "")
}

func markKey(m string) string {
	if i := strings.IndexByte(m, '\n'); i >= 0 {
		m = m[:i]
	}
	return m
}

func finish(c *Check, e *Env, t *Rec, nUnits, done int, t0 time.Time, replay bool) int {
	known := loadKnown(e, c.ID)
	sort.SliceStable(t.Viol, func(i, j int) bool {
		if len(t.Viol[i].Input) != len(t.Viol[j].Input) {
			return len(t.Viol[i].Input) < len(t.Viol[j].Input)
		}
		return t.Viol[i].Key < t.Viol[j].Key
	})
	knownHit := map[string]bool{}
	var fresh []Violation
	for _, v := range t.Viol {
		if what, ok := known[v.Key]; ok {
			if !knownHit[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
			}
			knownHit[v.Key] = true
			continue
		}
		fresh = append(fresh, v)
	}
	nfresh := 0
	rdir := filepath.Join(e.Verif, "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	seen := map[string]bool{}
	for _, v := range fresh {
		if seen[v.Key] {
			continue
		}
		seen[v.Key] = true
		nfresh++
		if nfresh > 8 {
			continue
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", c.ID, Hash(v.Key)))
		b, _ := json.MarshalIndent(map[string]any{"property": c.ID, "tier": e.Tier, "violation": v,
			"replay": fmt.Sprintf("./check.sh replay %s", path)}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		d := v.Detail
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		fmt.Printf("  case %s\n  %s\n", v.Key, strings.ReplaceAll(d, "\n", "\n  "))
	}
	if nfresh > 8 {
		fmt.Printf("  ... %d distinct violating cases kept (%d raw)\n", nfresh, t.NViol)
	}
	if f := os.Getenv("VH_ALL"); f != "" { // everything, for development
		b, _ := json.MarshalIndent(fresh, "", " ")
		os.WriteFile(f, b, 0o644)
	}
	exhaustive := !t.Partial && done == nUnits
	cov := map[string]any{"samples": t.Samples, "exhaustive": exhaustive, "units": done, "bounds": c.Bounds, "rule": c.Rule}
	if len(t.Samples) == 0 {
		cov["samples"] = []string{"(none recorded)"}
	}
	if c.Level == "model_checking" {
		cov["states"] = len(t.States)
		cov["transitions"] = t.Transitions
		cov["traces_validated_against_impl"] = t.Evals
	} else {
		cov["evaluations"] = t.Evals
		cov["distinct_nontrivial"] = len(t.States)
	}
	for k, v := range t.Stats {
		cov["n_"+k] = v
	}
	seed := 1
	fmt.Sscan(e.Seed, &seed)
	ev := map[string]any{"property": c.ID, "tier": e.Tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nfresh}
	if ev["assumptions"] == nil || len(c.Assumptions) == 0 {
		delete(ev, "assumptions")
	}
	if !replay {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(e.Verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
			log.Print(err)
			return 2
		}
	}
	fmt.Printf("%s %s: units=%d/%d executions=%d states=%d transitions=%d violations=%d known=%d exhaustive=%v %.1fs\n",
		c.ID, e.Tier, done, nUnits, t.Evals, len(t.States), t.Transitions, nfresh, len(knownHit), exhaustive, time.Since(t0).Seconds())
	if nfresh > 0 {
		return 1
	}
	if t.Evals == 0 {
		log.Print("nothing was explored")
		return 2
	}
	return 0
}

// loadKnown reads /verif/known_findings.txt: "open: property=<id> key=<key> :: <what>".
func loadKnown(e *Env, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(e.Verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "open: property="+id+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " :: ")
		out[key] = what
	}
	return out
}

// Infra aborts the worker with an infrastructure error (never a violation).
func Infra(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "VH-INFRA "+format+"\n", a...)
	os.Exit(3)
}

// Broken aborts the worker because the code under test does not do what the whole unit builds on; three such attempts
// are reported as a violation.
func Broken(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "the scanner is broken: "+format+"\n", a...)
	os.Exit(4)
}

// repoDir is the tree under test; VERIF_REPO names another one while checks are developed.
func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
