// waterverif drives the real meilihao/water library with generated workloads
// and judges what it observes with oracles written from /verif/properties.jsonl.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one property's check.
type Prop struct {
	ID     string
	Rule   string // what a case is, what makes one non-trivial
	Quick  int    // cases
	Thor   int    // cases in the thorough tier
	Serial bool   // cases share process globals: one worker
	// Need lists counters that must be non-zero, or the run observed nothing.
	Need []string
	Case func(c *C)
	// Before/After run once around all cases (in the child).
	Before func(e *Env)
	After  func(e *Env)
	Assume []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Env is shared by the cases of one run.
type Env struct {
	P       *Prop
	Seed    uint64
	Tier    string
	Dir     string // scratch directory of this run
	mu      sync.Mutex
	counts  map[string]int64
	seen    map[uint64]struct{}
	samples []any
	viol    []Violation
	evals   atomic.Int64
	stop    atomic.Bool
	prog    atomic.Int64
}

type Violation struct {
	Property string `json:"property"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Case     int    `json:"case"`
	Sig      string `json:"signature"`
	Detail   string `json:"detail"`
}

func (e *Env) Thorough() bool { return e.Tier == "thorough" }

// C is one case: everything random in it comes from R.
type C struct {
	*Env
	R
	N      int
	failed bool
	mu2    sync.Mutex
}

// Count adds to a named counter of observed events.
func (e *Env) Count(name string, n int) {
	e.mu.Lock()
	e.counts[name] += int64(n)
	e.mu.Unlock()
}

// Eval says one execution was judged.
func (e *Env) Eval() { e.evals.Add(1) }

// Seen records a distinct non-trivial case by its fingerprint.
func (e *Env) Seen(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	e.mu.Lock()
	e.seen[h.Sum64()] = struct{}{}
	e.mu.Unlock()
}

// Sample keeps a few written-out cases for the evidence.
func (c *C) Sample(f func() any) {
	c.mu.Lock()
	full := len(c.samples) >= 4
	c.mu.Unlock()
	if full || c.N%37 != 0 && c.N > 2 {
		return
	}
	v := f()
	c.mu.Lock()
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Fail records a violation. sig identifies what failed (used to match known findings).
func (c *C) Fail(sig, format string, a ...any) {
	d := fmt.Sprintf(format, a...)
	if len(d) > 12000 {
		d = d[:8000] + "\n...\n" + d[len(d)-3000:]
	}
	c.mu2.Lock()
	c.failed = true
	c.mu2.Unlock()
	c.mu.Lock()
	if len(c.viol) < 20 {
		c.viol = append(c.viol, Violation{c.P.ID, c.Seed, c.Tier, c.N, sig, d})
	}
	n := len(c.viol)
	c.mu.Unlock()
	if n >= 5 {
		c.stop.Store(true)
	}
}

func (c *C) Failed() bool {
	c.mu2.Lock()
	defer c.mu2.Unlock()
	return c.failed
}

// R is a deterministic source with helpers.
type R struct{ *rand.Rand }

func newR(seed uint64, prop string, n int) R {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return R{rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+h.Sum64(), uint64(n)*0xD1342543DE82EF95+1))}
}

func (r R) Pct(percent int) bool   { return r.IntN(100) < percent }
func (r R) Str(a ...string) string { return a[r.IntN(len(a))] }
func (r R) Rng(lo, hi int) int     { return lo + r.IntN(hi-lo+1) }

// Tail is mostly Rng(lo, hi); two times in a hundred it is anything up to max, small magnitudes as likely as big ones.
func (r R) Tail(lo, hi, max int) int {
	if !r.Pct(2) {
		return r.Rng(lo, hi)
	}
	return hi + int(math.Exp(r.Float64()*math.Log(float64(max-hi+1)))) - 1
}

// OneIn is true once in n, for what is too dear to do more often.
func (r R) OneIn(n int) bool { return r.IntN(n) == 0 }
func (r R) Bytes(n int) []byte {
	b := make([]byte, n)
	i := 0
	for ; i+8 <= n; i += 8 {
		x := r.Uint64()
		for k := 0; k < 8; k++ {
			b[i+k] = byte(x >> (8 * k))
		}
	}
	for ; i < n; i++ {
		b[i] = byte(r.Uint32())
	}
	return b
}
func (r R) From(alpha string, n int) string {
	rs := []rune(alpha)
	o := make([]rune, n)
	for i := range o {
		o[i] = rs[r.IntN(len(rs))]
	}
	return string(o)
}
func (r R) Word() string { return r.From("abcdefghijklmnopqrstuvwxyz", r.Rng(1, 8)) }

func pick[T any](r R, a []T) T { return a[r.IntN(len(a))] }

// ---------------------------------------------------------------- child

type result struct {
	Counts  map[string]int64 `json:"counts"`
	Evals   int64            `json:"evals"`
	Seen    int              `json:"seen"`
	Samples []any            `json:"samples"`
	Viol    []Violation      `json:"viol"`
	Err     string           `json:"err"`
	Cases   int64            `json:"cases"`
}

const waterPath = "github.com/meilihao/water"

// waterFrame finds a frame of the library in a stack, above (deeper than) the harness's own frames.
var frameRe = regexp.MustCompile(`(?m)^(` + regexp.QuoteMeta(waterPath) + `[^\s(]*(?:\([^)]*\))?[^\s(]*)`)

func waterFrame(stack string) string {
	m := frameRe.FindString(stack)
	return m
}

// innermostOwn reports whether the first non-runtime, non-std frame after the panic is the library's or
// is below the library (called by it) rather than a plain bug of the harness.
func panicInWater(stack string) bool {
	// frames after "panic(" line, innermost first
	i := strings.LastIndex(stack, "\npanic(")
	if i >= 0 {
		stack = stack[i+1:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, waterPath) {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

type stuck struct{ stack string }

// await waits for a handler the client's side of the exchange says must have run or be running.
func await[T any](done <-chan T) {
	if !awaited(done) {
		panic(stuck{string(debug.Stack())})
	}
}

func awaited[T any](done <-chan T) bool {
	select {
	case <-done:
		return true
	case <-time.After(60 * time.Second):
		return false
	}
}

func runCase(e *Env, n int) (err error) { return guarded(e, n, e.P.Case) }

func guarded(e *Env, n int, f func(*C)) (err error) {
	c := &C{Env: e, R: newR(e.Seed, e.P.ID, n), N: n}
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if p, ok := p.(stuck); ok {
				c.Fail("stuck", "a handler did not run, or did not come to its end, for a minute after the exchange\n%s", p.stack)
				return
			}
			if panicInWater(st) {
				c.Fail("crash", "the library crashed outside any handler: %v\n%s", p, st)
				return
			}
			err = fmt.Errorf("harness panic in case %d: %v\n%s", n, p, st)
		}
	}()
	f(c)
	return nil
}

func childMain(p *Prop, seed uint64, tier string, only int, from, to int, out, dir string, workers int) {
	e := &Env{P: p, Seed: seed, Tier: tier, Dir: dir, counts: map[string]int64{}, seen: map[uint64]struct{}{}}
	debug.SetMemoryLimit(12 << 30)
	inflight, _ := os.Create(filepath.Join(dir, "inflight"))
	if p.Serial {
		workers = 1
	}
	type slot struct {
		n     atomic.Int64
		since atomic.Int64
	}
	slots := make([]slot, workers)
	go func() { // a generous wall-clock watchdog; its firing is judged by the parent from the stacks
		for {
			time.Sleep(5 * time.Second)
			now := time.Now().UnixNano()
			for i := range slots {
				s := slots[i].since.Load()
				if s != 0 && now-s > int64(150*time.Second) {
					fmt.Fprintf(os.Stderr, "WATCHDOG case %d stuck\n", slots[i].n.Load())
					buf := make([]byte, 16<<20)
					os.Stderr.Write(buf[:runtime.Stack(buf, true)])
					os.Exit(97)
				}
			}
		}
	}()
	var res result
	fail := func(err error) { e.mu.Lock(); res.Err += err.Error() + "\n"; e.mu.Unlock(); e.stop.Store(true) }
	if p.Before != nil {
		if err := guarded(e, from, func(*C) { p.Before(e) }); err != nil {
			fail(err)
		}
		if len(e.viol) > 0 { // the engines of all cases cannot be had
			e.stop.Store(true)
		}
	}
	var next, done atomic.Int64
	next.Store(int64(from))
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !e.stop.Load() {
				n := int(next.Add(1) - 1)
				if n >= to {
					return
				}
				if only >= 0 {
					if n > from {
						return
					}
					n = only
				}
				slots[w].n.Store(int64(n))
				slots[w].since.Store(time.Now().UnixNano())
				if inflight != nil {
					inflight.WriteAt([]byte(fmt.Sprintf("%15d\n", n)), int64(w*16))
				}
				if err := runCase(e, n); err != nil {
					fail(err)
				}
				done.Add(1)
				slots[w].since.Store(0)
			}
		}(w)
	}
	wg.Wait()
	if p.After != nil {
		p.After(e)
	}
	res.Counts, res.Evals, res.Seen, res.Samples, res.Viol = e.counts, e.evals.Load(), len(e.seen), e.samples, e.viol
	res.Cases = done.Load()
	sort.Slice(res.Viol, func(i, j int) bool { return res.Viol[i].Case < res.Viol[j].Case })
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(98)
	}
	if err := os.WriteFile(out, b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(98)
	}
}

// ---------------------------------------------------------------- parent

type known struct {
	Findings []struct {
		Property  string `json:"property"`
		Signature string `json:"signature"`
		What      string `json:"what"`
	} `json:"findings"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	verif := flag.String("verif", "/verif", "verif dir")
	child := flag.String("child", "", "internal: result file")
	dir := flag.String("dir", "", "internal: scratch dir")
	only := flag.Int("case", -1, "run one case only")
	from := flag.Int("from", 0, "first case")
	n := flag.Int("n", 0, "number of cases (default: by tier)")
	replay := flag.String("replay", "", "replay file")
	workers := flag.Int("workers", min(8, runtime.NumCPU()), "workers")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if f := os.Getenv("WV_FRESH"); f != "" {
		c38freshMain(f)
		return
	}
	if *list {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	p := props[*prop]
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	seed := uint64(1)
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		var v Violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Println("replay:", err)
			os.Exit(2)
		}
		seed, tier, *only = v.Seed, v.Tier, v.Case
	}
	cases := p.Quick
	if tier == "thorough" {
		cases = p.Thor
	}
	if *n > 0 {
		cases = *n
	}
	if *child != "" {
		childMain(p, seed, tier, *only, *from, *from+cases, *child, *dir, *workers)
		return
	}
	os.Exit(parentMain(p, seed, tier, *only, *from, cases, *verif, *workers, *replay != ""))
}

func parentMain(p *Prop, seed uint64, tier string, only, from, cases int, verif string, workers int, isReplay bool) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "waterverif-")
	if err != nil {
		fmt.Println("ERROR", err)
		return 3
	}
	defer os.RemoveAll(scratch)
	out := filepath.Join(scratch, "result.json")
	errf, _ := os.Create(filepath.Join(scratch, "stderr"))
	devnull, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	self, _ := os.Executable()
	cmd := exec.Command(self, "-prop", p.ID, "-child", out, "-dir", scratch, "-case", strconv.Itoa(only),
		"-from", strconv.Itoa(from), "-n", strconv.Itoa(cases), "-workers", strconv.Itoa(workers))
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.FormatUint(seed, 10), "VERIF_TIER="+tier,
		"TMPDIR="+scratch, "GOTRACEBACK=all",
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(scratch, "race"))
	cmd.Stdout, cmd.Stderr, cmd.Stdin = devnull, errf, devnull
	cmd.Dir = scratch
	runErr := cmd.Run()
	errf.Close()
	stderr := readCap(filepath.Join(scratch, "stderr"), 4<<20)

	var res result
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(b, &res)
	}
	var viol []Violation
	inconclusive := ""
	if rerr != nil {
		// the child died: a fatal error of the runtime, or the watchdog
		infl := readCap(filepath.Join(scratch, "inflight"), 4096)
		cs := []string{}
		for _, l := range strings.Fields(infl) {
			cs = append(cs, l)
		}
		cn := -1
		if len(cs) == 1 {
			cn, _ = strconv.Atoi(cs[0])
		}
		if m := regexp.MustCompile(`WATCHDOG case (\d+)`).FindStringSubmatch(stderr); m != nil {
			cn, _ = strconv.Atoi(m[1])
		}
		detail := fmt.Sprintf("the process died (%v), cases in flight: %v\n%s", runErr, cs, head(stderr, 6000))
		if fr := fatalWaterFrame(stderr); fr != "" {
			viol = append(viol, Violation{p.ID, seed, tier, cn, "fatal", "in " + fr + ": " + detail})
		} else if corruptRe.MatchString(stderr) {
			viol = append(viol, Violation{p.ID, seed, tier, cn, "fatal", "memory was corrupted, the harness touches none unsafely: " + detail})
		} else {
			inconclusive = detail
		}
	} else {
		viol = res.Viol
		inconclusive = res.Err
	}
	races, _ := filepath.Glob(filepath.Join(scratch, "race.*"))
	nraces := 0
	for _, f := range races {
		for _, blk := range strings.Split(readCap(f, 16<<20), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			nraces++
			fr := regexp.MustCompile(regexp.QuoteMeta(waterPath) + `[^\s]*`).FindString(blk)
			// the harness's handlers touch only atomics and their own request, so a race with the library
			// on the stack means the library shared something between requests
			if fr != "" {
				if len(viol) < 20 {
					viol = append(viol, Violation{p.ID, seed, tier, -1, "race", "data race, library frame " + fr + "\n" + head(blk, 6000)})
				}
			} else if inconclusive == "" {
				inconclusive = "data race in the harness:\n" + head(blk, 4000)
			}
		}
	}

	// known findings
	var kf known
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("ERROR known_findings.json:", err)
			return 3
		}
	}
	rest := []Violation{}
	printed := map[string]bool{}
	for _, v := range viol {
		k := false
		for _, f := range kf.Findings {
			if f.Property == v.Property && f.Signature == v.Sig {
				k = true
				if !printed[f.Signature] {
					printed[f.Signature] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.What)
				}
			}
		}
		if !k {
			rest = append(rest, v)
		}
	}

	if !isReplay {
		cov := map[string]any{
			"evaluations": res.Evals, "distinct_nontrivial": res.Seen, "rule": p.Rule, "samples": res.Samples,
			"cases": res.Cases, "events": res.Counts,
		}
		if res.Samples == nil {
			cov["samples"] = []any{}
		}
		if raceEnabled {
			cov["race_reports"] = nraces
		}
		ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
			"wall_s": time.Since(start).Seconds(), "violations": len(rest)}
		if len(p.Assume) > 0 {
			ev["assumptions"] = p.Assume
		}
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0o644)
		}
		if err != nil {
			fmt.Println("ERROR evidence:", err)
			return 3
		}
	}
	if len(rest) > 0 {
		os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
		for i, v := range rest {
			if i >= 5 {
				break
			}
			f := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d-%d.json", p.ID, seed, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
			fmt.Printf("  case %d [%s] %s\n", v.Case, v.Sig, head(v.Detail, 1500))
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s\n%s\n", p.ID, head(inconclusive, 6000))
		return 3
	}
	if only < 0 {
		if res.Evals == 0 || res.Seen == 0 {
			fmt.Printf("INCONCLUSIVE property=%s: nothing was observed\n", p.ID)
			return 3
		}
		for _, k := range p.Need {
			if res.Counts[k] == 0 {
				fmt.Printf("INCONCLUSIVE property=%s: no event %q observed\n", p.ID, k)
				return 3
			}
		}
	}
	keys := []string{}
	for k := range res.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := ""
	for _, k := range keys {
		s += fmt.Sprintf(" %s=%d", k, res.Counts[k])
	}
	fmt.Printf("OK property=%s held on what was observed: cases=%d evaluations=%d distinct=%d%s (%.1fs)\n",
		p.ID, res.Cases, res.Evals, res.Seen, s, time.Since(start).Seconds())
	return 0
}

// fatalWaterFrame looks for a frame of the library in the goroutine that died, or, after the watchdog, in
// the goroutines.
var corruptRe = regexp.MustCompile(`fatal error: (fault|found bad pointer|sweep increased|unexpected signal|invalid pointer|.*span.*|.*allocCount)`)

func fatalWaterFrame(s string) string {
	if strings.Contains(s, "WATCHDOG") {
		return waterFrame(s)
	}
	i := strings.Index(s, "goroutine ")
	if i < 0 {
		return ""
	}
	blk := s[i:]
	if j := strings.Index(blk, "\n\n"); j > 0 {
		blk = blk[:j]
	}
	return waterFrame(blk)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func readCap(f string, n int64) string {
	h, err := os.Open(f)
	if err != nil {
		return ""
	}
	defer h.Close()
	b, _ := io.ReadAll(io.LimitReader(h, n))
	return string(b)
}
