package harness

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

var (
	flagProp   = flag.String("prop", "", "property to check")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagReplay = flag.String("replay", "", "replay file")
	flagOut    = flag.String("out", "/verif", "directory which receives evidence and replays")
	flagCases  = flag.Int("cases", 0, "override the number of cases")
	flagTarget = flag.String("target", "", "restrict to one target")
	flagShards = flag.Int("shards", 0, "number of shards")
	flagLimit  = flag.Duration("limit", 0, "time limit for the exploration")
	flagOne    = flag.Int("one", -1, "run a single case index, verbosely")
	flagTrace  = flag.Bool("trace", false, "print the trace of replays")

	flagShard  = flag.Int("shard", -1, "internal: shard index")
	flagResult = flag.String("result", "", "internal: shard result file")
)

type failure struct {
	Property string          `json:"property"`
	Target   string          `json:"target"`
	Index    int             `json:"index"`
	Seed     uint64          `json:"seed"`
	Class    string          `json:"class"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Original json.RawMessage `json:"original,omitempty"`
	Repro    string          `json:"repro,omitempty"`
	Shrinks  int             `json:"shrink_runs"`
}

type shardResult struct {
	Evaluations int               `json:"evaluations"`
	Invalid     int               `json:"invalid"`
	Distinct    []string          `json:"distinct"`
	PerTarget   map[string]int    `json:"per_target"`
	Counters    map[string]int    `json:"counters"`
	Samples     []json.RawMessage `json:"samples"`
	Failure     *failure          `json:"failure"`
	HarnessErr  string            `json:"harness_err"`
	Complete    bool              `json:"complete"`
}

func seedFromEnv() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if n == 0 {
		n = 1
	}
	return n
}

func TestMain(m *testing.M) {
	flag.Parse()
	if *flagProp == "" {
		fmt.Fprintln(os.Stderr, "missing -prop")
		os.Exit(2)
	}
	p := properties[*flagProp]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *flagProp)
		os.Exit(2)
	}
	// No real name lookups: they'd escape the simulated network.
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(context.Context, string, string) (net.Conn, error) {
		return nil, errors.New("no DNS in the simulation")
	}}
	net.LookupHost("verif.invalid") // initialize the resolver outside of any bubble
	if *flagShard >= 0 || *flagReplay != "" || *flagOne >= 0 {
		os.Exit(m.Run())
	}
	os.Exit(parent(p))
}

func (p *property) numCases() int {
	if *flagCases > 0 {
		return *flagCases
	}
	if *flagTier == "thorough" {
		return p.thor
	}
	return p.quick
}

func timeLimit() time.Duration {
	if *flagLimit > 0 {
		return *flagLimit
	}
	if *flagTier == "thorough" {
		return 40 * time.Minute
	}
	return 240 * time.Second
}

// TestShard is executed in child processes.
func TestShard(t *testing.T) {
	p := properties[*flagProp]
	if *flagReplay != "" {
		replay(t, p, *flagReplay)
		return
	}
	if *flagOne >= 0 {
		one(t, p, *flagOne)
		return
	}
	if *flagShard < 0 {
		t.Skip("not a shard")
	}
	res := runShard(t, p)
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintf(os.Stderr, "cannot marshal result: %v\n", err)
		os.Exit(2)
	}
	if err := os.WriteFile(*flagResult, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func drawCase(p *property, seed uint64, i int) (*target, any) {
	g := NewG(caseSeed(seed, p.id, i))
	tg := p.pick(g)
	return tg, tg.gen(g)
}

func one(t *testing.T, p *property, i int) {
	tg, c := drawCase(p, seedFromEnv(), i)
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Printf("target %s\n%s\n", tg.name, b)
	r := &R{T: t, tracing: true}
	err := tg.exec(r, c)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	fmt.Printf("nontrivial=%v counters=%v err=%v\n", r.nontrivial, r.counters, err)
	if err != nil {
		os.Exit(1)
	}
}

func replay(t *testing.T, p *property, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tg := p.target(f.Target)
	if tg == nil {
		fmt.Fprintf(os.Stderr, "unknown target %q\n", f.Target)
		os.Exit(2)
	}
	c, err := tg.decode(f.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := &R{T: t, tracing: true}
	err = tg.exec(r, c)
	if *flagTrace {
		for _, l := range r.Trace {
			fmt.Println(l)
		}
	}
	if err == nil {
		fmt.Printf("replay of %s: property %s holds\n", path, p.id)
		return
	}
	fmt.Printf("%v\n", err)
	if _, ok := err.(*hErr); ok {
		os.Exit(2)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	os.Exit(1)
}

func currentPath() string { return *flagResult + ".current" }

func writeCurrent(p *property, tg *target, i int, c any) []byte {
	b, _ := json.Marshal(c)
	return b
}

type curWriter struct {
	f *os.File
}

func (w *curWriter) write(f *failure) {
	if w.f == nil {
		w.f, _ = os.Create(currentPath())
	}
	if w.f == nil {
		return
	}
	b, _ := json.Marshal(f)
	w.f.Truncate(0)
	w.f.WriteAt(b, 0)
}

func runShard(t *testing.T, p *property) *shardResult {
	seed := seedFromEnv()
	n := p.numCases()
	res := &shardResult{PerTarget: map[string]int{}, Counters: map[string]int{}}
	distinct := map[string]bool{}
	deadline := time.Now().Add(timeLimit())
	var cw curWriter
	var wdMu sync.Mutex
	var started time.Time
	go func() { // watchdog: aborts on a case which never ends
		for {
			time.Sleep(time.Second)
			wdMu.Lock()
			s := started
			wdMu.Unlock()
			if !s.IsZero() && time.Since(s) > 60*time.Second {
				buf := make([]byte, 8<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "WATCHDOG: case does not end\n")
				for _, gr := range strings.Split(string(buf), "\n\n") {
					head, _, _ := strings.Cut(gr, "\n")
					if strings.Contains(head, "synctest bubble") && !strings.Contains(head, "(durable)") {
						fmt.Fprintf(os.Stderr, "STUCK %s\n\n", gr)
					}
				}
				os.Exit(3)
			}
		}
	}()
	res.Complete = true
	for i := *flagShard; i < n; i += *flagShards {
		if time.Now().After(deadline) {
			res.Complete = false
			break
		}
		tg, c := drawCase(p, seed, i)
		if *flagTarget != "" && tg.name != *flagTarget {
			continue
		}
		b, err := json.Marshal(c)
		if err != nil {
			res.HarnessErr = fmt.Sprintf("cannot marshal case: %v", err)
			return res
		}
		f := &failure{Property: p.id, Target: tg.name, Index: i, Seed: seed, Case: b}
		cw.write(f)
		wdMu.Lock()
		started = time.Now()
		wdMu.Unlock()
		// execute the decoded form: exactly what a replay would run
		dec, err := tg.decode(b)
		if err != nil {
			res.HarnessErr = fmt.Sprintf("cannot decode case: %v", err)
			return res
		}
		r := &R{T: t}
		err = tg.exec(r, dec)
		wdMu.Lock()
		started = time.Time{}
		wdMu.Unlock()
		if err != nil {
			switch err.(type) {
			case errInvalid:
				res.Invalid++
				continue
			case *violation:
				if isKnown(p.id, violationClass(err)) {
					res.Counters["known:"+violationClass(err)]++
					continue
				}
				again := 0
				for k := 0; k < 3; k++ {
					if e := tg.exec(&R{T: t}, dec); e != nil && violationClass(e) == violationClass(err) {
						again++
					}
				}
				budget, runs := 45*time.Second, 1500
				sc, serr, nruns := shrink(t, tg, dec, err, budget, runs)
				sb, _ := json.Marshal(sc)
				f.Original = f.Case
				f.Case = sb
				f.Class = violationClass(serr)
				f.Error = serr.Error()
				f.Repro = fmt.Sprintf("%d/3", again)
				f.Shrinks = nruns
				res.Failure = f
				return res
			default:
				res.HarnessErr = fmt.Sprintf("case %d (%s): %v\ncase: %s", i, tg.name, err, b)
				return res
			}
		}
		res.Evaluations++
		res.PerTarget[tg.name]++
		for k, v := range r.counters {
			res.Counters[k] += v
		}
		if r.nontrivial {
			h := hashJSON(b)
			if !distinct[h] {
				distinct[h] = true
				res.Distinct = append(res.Distinct, h)
				if len(res.Samples) < 3 && len(b) < 6000 {
					s, _ := json.Marshal(map[string]any{"target": tg.name, "index": i, "case": json.RawMessage(b)})
					res.Samples = append(res.Samples, s)
				}
			}
		}
	}
	os.Remove(currentPath())
	return res
}

type knownFinding struct{ prop, class, text string }

// loadKnown reads /verif/known_findings.txt. Lines look like
//
//	known: property=C01 class=<failure class> <description>
//	fixed: property=C01 <commit> <description>
//
// Only "known" lines suppress a failure, and only one of the listed class.
func loadKnown(dir string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(line, "known: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "class="), f[2]})
	}
	return out
}

var knownOnce = sync.OnceValue(func() []knownFinding { return loadKnown(*flagOut) })

// isKnown reports whether a failure class is listed as a known finding.
func isKnown(id, class string) bool {
	for _, kf := range knownOnce() {
		if kf.prop == id && kf.class == class {
			return true
		}
	}
	return false
}

func parent(p *property) int {
	start := time.Now()
	shards := *flagShards
	if shards <= 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
	}
	tmp, err := os.MkdirTemp("", "verif-"+p.id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type outcome struct {
		shard  int
		res    *shardResult
		err    error
		stderr string
		cur    *failure
	}
	ch := make(chan outcome, shards)
	for i := 0; i < shards; i++ {
		i := i
		rf := filepath.Join(tmp, fmt.Sprintf("shard%d.json", i))
		args := []string{
			"-test.run=^TestShard$", "-test.timeout=0", "-prop", p.id, "-tier", *flagTier,
			"-shard", strconv.Itoa(i), "-shards", strconv.Itoa(shards), "-result", rf, "-cases", strconv.Itoa(p.numCases()),
			"-limit", timeLimit().String(), "-target", *flagTarget, "-out", *flagOut,
		}
		cmd := exec.CommandContext(ctx, self, args...)
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "GOMAXPROCS=2", "GOTRACEBACK=all")
		var errBuf tailBuffer
		cmd.Stderr = &errBuf
		cmd.Stdout = &errBuf
		go func() {
			err := cmd.Run()
			o := outcome{shard: i, err: err, stderr: errBuf.String()}
			if b, e := os.ReadFile(rf); e == nil {
				var r shardResult
				if json.Unmarshal(b, &r) == nil {
					o.res = &r
				}
			}
			if o.res == nil {
				if b, e := os.ReadFile(rf + ".current"); e == nil {
					var f failure
					if json.Unmarshal(b, &f) == nil {
						o.cur = &f
					}
				}
			}
			ch <- o
		}()
	}

	total := &shardResult{PerTarget: map[string]int{}, Counters: map[string]int{}, Complete: true}
	distinct := map[string]bool{}
	var fails []*failure
	var harnessErrs []string
	for k := 0; k < shards; k++ {
		o := <-ch
		if o.res == nil {
			if ctx.Err() != nil {
				continue
			}
			// the process died
			if o.cur != nil && crashedInSoju(o.stderr) {
				o.cur.Class = "process-crash"
				o.cur.Error = "the process crashed:\n" + crashExcerpt(o.stderr)
				fails = append(fails, o.cur)
				// let the other shards finish for a few seconds only
				time.AfterFunc(5*time.Second, cancel)
				continue
			}
			if o.cur != nil && hungInSoju(o.stderr) {
				o.cur.Class = "hang"
				o.cur.Error = "the bouncer hangs:\n" + tail(o.stderr, 3000)
				fails = append(fails, o.cur)
				time.AfterFunc(5*time.Second, cancel)
				continue
			}
			harnessErrs = append(harnessErrs, fmt.Sprintf("shard %d died: %v\n%s", o.shard, o.err, head(o.stderr, 2500)))
			continue
		}
		r := o.res
		total.Evaluations += r.Evaluations
		total.Invalid += r.Invalid
		for k, v := range r.PerTarget {
			total.PerTarget[k] += v
		}
		for k, v := range r.Counters {
			total.Counters[k] += v
		}
		for _, h := range r.Distinct {
			distinct[h] = true
		}
		total.Samples = append(total.Samples, r.Samples...)
		total.Complete = total.Complete && r.Complete
		if r.Failure != nil {
			fails = append(fails, r.Failure)
			time.AfterFunc(5*time.Second, cancel)
		}
		if r.HarnessErr != "" {
			harnessErrs = append(harnessErrs, r.HarnessErr)
		}
	}

	known := loadKnown(*flagOut)
	exit := 0
	violations := 0
	sort.Slice(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
	seenClass := map[string]bool{}
	for _, f := range fails {
		suppressed := false
		for _, kf := range known {
			if kf.prop == p.id && kf.class == f.Class {
				suppressed = true
			}
		}
		if suppressed || seenClass[f.Class] {
			continue
		}
		seenClass[f.Class] = true
		violations++
		dir := filepath.Join(*flagOut, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", p.id, f.Target, hashJSON(f.Case)))
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s\ncase (%s, shrunk in %d runs): %s\n", f.Error, f.Target, f.Shrinks, f.Case)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		exit = 1
	}
	for _, kf := range known {
		if kf.prop == p.id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, kf.text)
		}
	}
	if exit == 0 && len(harnessErrs) > 0 {
		for i, e := range harnessErrs {
			if i == 2 {
				break
			}
			fmt.Fprintln(os.Stderr, e)
		}
		exit = 2
	}

	sort.Slice(total.Samples, func(i, j int) bool { return len(total.Samples[i]) < len(total.Samples[j]) })
	samples := total.Samples
	if len(samples) > 6 {
		samples = append(append([]json.RawMessage{}, samples[:3]...), samples[len(samples)-3:]...)
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	assume := p.assume
	if assume == nil {
		assume = []string{}
	}
	ev := map[string]any{
		"property": p.id,
		"tier":     *flagTier,
		"seed":     seedFromEnv(),
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": len(distinct),
			"rule":                p.rule,
			"samples":             samples,
			"per_target":          total.PerTarget,
			"counters":            total.Counters,
			"planned_cases":       p.numCases(),
			"complete":            total.Complete,
		},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
		"assumptions": assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*flagOut, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*flagOut, "evidence", p.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if exit == 0 {
			exit = 2
		}
	}
	fmt.Printf("%s %s: %d cases (%d distinct non-trivial), %d targets, %.1fs, exit %d\n",
		p.id, *flagTier, total.Evaluations, len(distinct), len(total.PerTarget), time.Since(start).Seconds(), exit)
	return exit
}

type tailBuffer struct {
	mu  sync.Mutex
	buf []byte
}

func (b *tailBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.buf = append(b.buf, p...)
	if len(b.buf) > 1<<20 { // keep the beginning: that's where the panic is
		b.buf = b.buf[:1<<20]
	}
	return len(p), nil
}

func (b *tailBuffer) String() string { b.mu.Lock(); defer b.mu.Unlock(); return string(b.buf) }

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// hungInSoju reports whether the watchdog found a goroutine which is neither
// waiting for input nor for time, and which is in soju code.
func hungInSoju(out string) bool {
	i := strings.Index(out, "WATCHDOG:")
	if i < 0 {
		return false
	}
	for _, b := range strings.Split(out[i:], "STUCK ")[1:] {
		if firstFrameIsSoju(b) {
			return true
		}
	}
	return false
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// crashedInSoju reports whether the first goroutine of a crash dump is in soju
// code (before reaching any harness frame).
func crashedInSoju(out string) bool {
	i := strings.Index(out, "panic: ")
	if i < 0 {
		i = strings.Index(out, "fatal error: ")
	}
	if i < 0 {
		return false
	}
	out = out[i:]
	j := strings.Index(out, "\ngoroutine ")
	if j < 0 {
		return false
	}
	block := out[j+1:]
	if k := strings.Index(block, "\n\n"); k >= 0 {
		block = block[:k]
	}
	return firstFrameIsSoju(block)
}

func crashExcerpt(out string) string {
	i := strings.Index(out, "panic: ")
	if i < 0 {
		i = strings.Index(out, "fatal error: ")
	}
	if i < 0 {
		i = 0
	}
	out = out[i:]
	if len(out) > 4000 {
		out = out[:4000]
	}
	return out
}
