// Package main is a property-based testing harness for github.com/lafriks/go-svg.
//
// Every property is decided by one or more sub-checks. A sub-check is a rapid
// generator that produces a plain JSON-able case, and a check function that
// runs the code under test on that case and compares the outcome with an
// explicit oracle. The shrunk failing case is saved as JSON and can be re-run
// without rapid (harness replay FILE).
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Rec collects what a single evaluation did: labels, whether the case was
// non-trivial under the sub-check's rule, and a human readable sample.
type Rec struct {
	labels     []string
	nontrivial bool
	sample     string
}

func (r *Rec) Label(format string, args ...any) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	r.labels = append(r.labels, format)
}
func (r *Rec) NonTrivial(b bool) {
	if b {
		r.nontrivial = true
	}
}
func (r *Rec) Sample(s string) { r.sample = s }

// errSkip marks a case outside the domain of the property (counted, not checked).
var errSkip = errors.New("skip")

// Sub is one generated check.
type Sub struct {
	Name            string
	Quick, Thorough int // number of generated cases over all shards
	Rule            string
	gen             func(t *rapid.T) any
	decode          func(b []byte) (any, error)
	check           func(c any, r *Rec) error
	fixed           []any // deterministic cases run first in every shard 0
}

func NewSub[C any](name string, quick, thorough int, rule string, gen func(*rapid.T) C, check func(C, *Rec) error, fixed ...C) *Sub {
	s := &Sub{
		Name: name, Quick: quick, Thorough: thorough, Rule: rule,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		check: func(c any, r *Rec) error { return check(c.(C), r) },
	}
	for _, f := range fixed {
		s.fixed = append(s.fixed, f)
	}
	return s
}

// Prop is a property: its identifier and its sub-checks.
type Prop struct {
	ID   string
	Subs []*Sub
}

var registry = map[string]*Prop{}

func register(id string, subs ...*Sub) {
	p := registry[id]
	if p == nil {
		p = &Prop{ID: id}
		registry[id] = p
	}
	for _, s := range subs {
		if f := quickTimes[id]; f > 1 {
			s.Quick *= f
			s.Thorough = max(s.Thorough, 8*s.Quick)
		}
	}
	p.Subs = append(p.Subs, subs...)
}

// quickTimes multiplies the number of quick cases of the properties that are decided fast,
// so that every check takes about half a minute.
var quickTimes = map[string]int{"C02": 8, "C03": 8, "C05": 5, "C06": 4, "C07": 8, "C08": 3, "C09": 4, "C10": 4, "C11": 4, "C13": 4, "C14": 2, "C15": 3, "C17": 5,
	"C18": 3, "C19": 2, "C20": 2, "C21": 2, "C22": 3, "C23": 2, "C25": 3}

// ---- result of a shard ----

type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Shard    int             `json:"shard"`
	Shards   int             `json:"shards"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Checks   int             `json:"checks"`
}

type SubStat struct {
	Evaluations int            `json:"evaluations"`
	Skipped     int            `json:"skipped"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Rule        string         `json:"rule"`
	Truncated   bool           `json:"truncated"`
	Invalid     string         `json:"invalid,omitempty"`
}

type ShardResult struct {
	Property string              `json:"property"`
	Shard    int                 `json:"shard"`
	Stats    map[string]*SubStat `json:"stats"`
	Failures []Failure           `json:"failures"`
	Done     bool                `json:"done"`
}

// ---- trace of the case being run, so that a fatal crash can be replayed ----

const traceSize = 4 << 20

type tracer struct {
	buf []byte
}

func newTracer(path string) (*tracer, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(traceSize); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, traceSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &tracer{buf: b}, nil
}

// write stores "len sub\n case" in the shared mapping.
func (t *tracer) write(sub string, c []byte) {
	if t == nil {
		return
	}
	hdr := fmt.Sprintf("%d %s\n", len(c), sub)
	if len(hdr)+len(c) > len(t.buf) {
		copy(t.buf, "-1 "+sub+"\n")
		return
	}
	n := copy(t.buf, hdr)
	copy(t.buf[n:], c)
}

// ---- watchdog ----

var (
	caseStartCPU atomic.Int64 // CPU time (ns) at the start of the running case, 0 when idle
	caseLimitCPU = int64(40 * time.Second)
	rssLimit     = int64(3 << 30)
)

const (
	exitHang   = 41
	exitMemory = 42
)

func cpuNow() int64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func rssNow() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func watchdog() {
	for {
		time.Sleep(100 * time.Millisecond)
		if s := caseStartCPU.Load(); s != 0 {
			if cpuNow()-s > caseLimitCPU {
				fmt.Fprintln(os.Stderr, "WATCHDOG: case exceeded its CPU budget")
				os.Exit(exitHang)
			}
		}
		if rssNow() > rssLimit {
			fmt.Fprintln(os.Stderr, "WATCHDOG: memory budget exceeded")
			os.Exit(exitMemory)
		}
	}
}

// runCase evaluates one case, converting panics into errors.
func runCase(s *Sub, c any, r *Rec) (err error) {
	caseStartCPU.Store(max(cpuNow(), 1))
	defer caseStartCPU.Store(0)
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(rapidStop); ok {
				panic(p)
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return s.check(c, r)
}

type rapidStop struct{}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") || strings.Contains(l, "go-svg") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---- rapid.TB implementation ----

type fakeTB struct {
	name   string
	failed bool
	logs   []string
}

type tbStop struct{}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return f.name }
func (f *fakeTB) Logf(format string, a ...any) {
	if len(f.logs) < 100 {
		f.logs = append(f.logs, fmt.Sprintf(format, a...))
	}
}
func (f *fakeTB) Log(a ...any)                   { f.Logf("%s", fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(format string, a ...any)  { panic(tbStop{}) }
func (f *fakeTB) Skip(a ...any)                  { panic(tbStop{}) }
func (f *fakeTB) SkipNow()                       { panic(tbStop{}) }
func (f *fakeTB) Errorf(format string, a ...any) { f.Logf(format, a...); f.failed = true }
func (f *fakeTB) Error(a ...any)                 { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(format string, a ...any) { f.Errorf(format, a...); panic(tbStop{}) }
func (f *fakeTB) Fatal(a ...any)                 { f.Error(a...); panic(tbStop{}) }
func (f *fakeTB) FailNow()                       { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fail()                          { f.failed = true }
func (f *fakeTB) Failed() bool                   { return f.failed }

func mix(vals ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vals {
		h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 29
	}
	h &= (1 << 62) - 1
	if h == 0 {
		h = 1
	}
	return h
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	_, _ = io.WriteString(h, s)
	return h.Sum64()
}

func runSub(p *Prop, s *Sub, tier string, seed uint64, shard, shards, checks int, tr *tracer, deadline time.Time) (*SubStat, *Failure) {
	st := &SubStat{Labels: map[string]int{}, Rule: s.Rule}
	hashes := map[uint64]struct{}{}
	var best *Failure
	failing := false

	one := func(c any) error {
		js, err := json.Marshal(c)
		if err != nil {
			panic(fmt.Sprintf("harness: cannot marshal case: %v", err))
		}
		tr.write(s.Name, js)
		r := &Rec{}
		err = runCase(s, c, r)
		if !failing {
			if errors.Is(err, errSkip) {
				st.Skipped++
				return nil
			}
			st.Evaluations++
			seen := map[string]bool{}
			for _, l := range r.labels {
				if !seen[l] {
					seen[l] = true
					st.Labels[l]++
				}
			}
			if r.nontrivial {
				st.NonTrivial++
				h := strHash(string(js))
				if _, dup := hashes[h]; !dup {
					hashes[h] = struct{}{}
					if len(st.Samples) < 4 || (len(st.Samples) < 8 && len(hashes)%97 == 0) {
						sm := r.sample
						if sm == "" {
							sm = string(js)
						}
						if len(sm) > 600 {
							sm = sm[:600] + "..."
						}
						st.Samples = append(st.Samples, sm)
					}
				}
			}
		}
		if errors.Is(err, errSkip) {
			return nil
		}
		if err != nil {
			failing = true
			if best == nil || len(js) < len(best.Case) {
				best = &Failure{Property: p.ID, Sub: s.Name, Error: err.Error(), Case: js,
					Shard: shard, Shards: shards, Seed: seed, Tier: tier, Checks: checks}
			}
		}
		return err
	}

	if shard == 0 {
		for _, c := range s.fixed {
			if one(c) != nil {
				break
			}
		}
	}
	// rapid adds the iteration number to the seed: chunks keep the seeds of
	// different shards apart and allow a soft wall-clock stop between chunks.
	const chunk = 250
	for done, k := 0, 0; done < checks && !failing; k++ {
		if time.Now().After(deadline) {
			st.Truncated = true
			break
		}
		n := min(chunk, checks-done)
		must(flag.Set("rapid.checks", strconv.Itoa(n)))
		must(flag.Set("rapid.seed", strconv.FormatUint(mix(seed, strHash(p.ID+"/"+s.Name), uint64(shard), uint64(k)), 10)))
		tb := &fakeTB{name: p.ID + "_" + s.Name}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(tbStop); !ok {
						panic(e)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c := s.gen(t)
				if err := one(c); err != nil {
					t.Fatalf("violation")
				}
			})
		}()
		if tb.failed && !failing {
			st.Invalid = strings.Join(tb.logs, "\n")
			break
		}
		done += n
	}
	for h := range hashes {
		st.Hashes = append(st.Hashes, h)
	}
	sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
	if len(st.Hashes) > 200000 {
		st.Hashes = st.Hashes[:200000]
	}
	return st, best
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	testing.Init()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|replay|list ...")
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	log.SetOutput(io.Discard)
	go watchdog()
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, s := range registry[id].Subs {
				fmt.Println(id, s.Name, s.Quick, s.Thorough)
			}
		}
	case "run":
		cmdRun(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	only := fs.String("sub", "", "only this sub-check")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed")
	shard := fs.Int("shard", 0, "shard")
	shards := fs.Int("shards", 1, "number of shards")
	out := fs.String("out", "", "result file")
	trace := fs.String("trace", "", "trace file")
	budget := fs.Duration("budget", 10*time.Minute, "soft wall-clock budget")
	scale := fs.Float64("scale", 1, "multiply the number of cases")
	_ = fs.Parse(args)
	flag.CommandLine = nopFlags(flag.CommandLine)
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "12s"))
	must(flag.Set("rapid.steps", "30"))
	runtime.GOMAXPROCS(2)
	p := registry[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	var tr *tracer
	if *trace != "" {
		var err error
		tr, err = newTracer(*trace)
		must(err)
	}
	res := ShardResult{Property: p.ID, Shard: *shard, Stats: map[string]*SubStat{}}
	deadline := time.Now().Add(*budget)
	for _, s := range p.Subs {
		if *only != "" && s.Name != *only {
			continue
		}
		n := s.Quick
		if *tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * *scale)
		per := (n + *shards - 1) / *shards
		t0 := time.Now()
		st, f := runSub(p, s, *tier, *seed, *shard, *shards, per, tr, deadline)
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "%s/%s shard %d: %d cases in %v\n", p.ID, s.Name, *shard, st.Evaluations, time.Since(t0))
		}
		res.Stats[s.Name] = st
		if f != nil {
			res.Failures = append(res.Failures, *f)
		}
	}
	res.Done = true
	b, err := json.Marshal(res)
	must(err)
	if *out == "" {
		os.Stdout.Write(b)
	} else {
		must(os.WriteFile(*out, b, 0o644))
	}
}

// nopFlags parses an empty command line so that testing.Short is usable.
func nopFlags(f *flag.FlagSet) *flag.FlagSet {
	_ = f.Parse(nil)
	return f
}

// cmdReplay re-runs a saved case: exit 1 if it fails, 0 if it passes.
func cmdReplay(args []string) {
	if len(args) < 1 {
		os.Exit(2)
	}
	b, err := os.ReadFile(args[0])
	must(err)
	var f Failure
	must(json.Unmarshal(b, &f))
	p := registry[f.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		os.Exit(2)
	}
	for _, s := range p.Subs {
		if s.Name != f.Sub {
			continue
		}
		c, err := s.decode(f.Case)
		must(err)
		r := &Rec{}
		err = runCase(s, c, r)
		if err != nil && !errors.Is(err, errSkip) {
			fmt.Printf("FAIL %s/%s: %v\n", f.Property, f.Sub, err)
			if r.sample != "" {
				fmt.Println("input:", r.sample)
			}
			os.Exit(1)
		}
		fmt.Println("PASS")
		return
	}
	fmt.Fprintln(os.Stderr, "unknown sub-check")
	os.Exit(2)
}
