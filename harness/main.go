package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A check runs a fixed number of cases. Each case drives the real code from its own
// random source and reports what its monitors saw.
type check struct {
	id string
	// cases for the quick and thorough tiers, and when the binary was built with the race detector.
	quick, thorough, raceQuick, raceThorough int
	// serial checks run one case at a time, as when they measure the whole process.
	serial bool
	// rule describes what a case is, and which are nontrivial.
	rule string
	// floors are the least number of observations of each class in a quick run without
	// races, without which a run decides nothing.
	floors map[string]int
	run    func(c *cse)
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

// cse is a case being run.
type cse struct {
	*rand.Rand
	check *check
	n     int
	seed  uint64
	tier  string
	race  bool

	mu       sync.Mutex
	counts   map[string]int
	trace    []string
	findings []string
	shape    map[string]bool
	sample   string
	trivial  bool
	noSeen   map[string]bool
	opened   map[opened]finder
}

// count records observations of a class.
func (c *cse) count(class string, n int) {
	c.mu.Lock()
	c.counts[class] += n
	c.mu.Unlock()
}

// log adds to the history which a violation reports.
func (c *cse) log(f string, args ...any) {
	c.mu.Lock()
	if len(c.trace) < 4000 {
		c.trace = append(c.trace, fmt.Sprintf(f, args...))
	}
	c.mu.Unlock()
}

// feature notes an aspect of a case, the set of which tells it from others.
func (c *cse) feature(f string) {
	c.mu.Lock()
	c.shape[f] = true
	c.mu.Unlock()
}

// violated records a violation of the property.
func (c *cse) violated(f string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.findings) < 20 {
		c.findings = append(c.findings, fmt.Sprintf(f, args...))
		c.trace = append(c.trace, "VIOLATED: "+fmt.Sprintf(f, args...))
	}
}

func (c *cse) failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.findings) > 0
}

func (c *cse) oneIn(n int) bool      { return c.IntN(n) == 0 }
func (c *cse) chance(p float64) bool { return c.Float64() < p }

func pick[T any](c *cse, xs []T) T { return xs[c.IntN(len(xs))] }

// harnessError is a fault of the harness, never of the code under test.
type harnessError struct{ msg string }

func bug(f string, args ...any) { panic(harnessError{fmt.Sprintf(f, args...)}) }

// guarded runs one operation of the code under test. A panic out of it is a violation of
// whatever the operation was to establish. It returns false if it panicked.
func (c *cse) guarded(what string, f func()) (ok bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if he, is := r.(harnessError); is {
			panic(he)
		}
		stack := string(debug.Stack())
		if !strings.Contains(afterPanic(stack), "github.com/dball/destructive/internal/") &&
			!strings.Contains(afterPanic(stack), "github.com/dball/destructive/pkg/") &&
			!strings.Contains(afterPanic(stack), "github.com/google/btree") {
			panic(harnessError{fmt.Sprintf("%v\n%s", r, stack)})
		}
		c.violated("%s panicked: %v\n%s", what, r, trim(afterPanic(stack), 1500))
	}()
	f()
	return true
}

// afterPanic is the part of a stack between the panic and the harness.
func afterPanic(stack string) string {
	i := strings.Index(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	var out []string
	lines := strings.Split(stack, "\n")
	for i := 0; i+1 < len(lines); i += 2 {
		if strings.Contains(lines[i], "internal/vrt.") || strings.HasPrefix(lines[i], "main.") {
			if len(out) > 2 {
				break
			}
			continue
		}
		out = append(out, lines[i], lines[i+1])
	}
	return strings.Join(out, "\n")
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type violation struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Race     bool     `json:"race"`
	Case     int      `json:"case"`
	What     []string `json:"what"`
	Trace    []string `json:"trace"`
}

type report struct {
	Property   string         `json:"property"`
	Seed       uint64         `json:"seed"`
	Tier       string         `json:"tier"`
	Race       bool           `json:"race"`
	Cases      int            `json:"cases"`
	Distinct   int            `json:"distinct"`
	Rule       string         `json:"rule"`
	Counts     map[string]int `json:"counts"`
	Samples    []string       `json:"samples"`
	Violations []violation    `json:"violations"`
	Harness    []string       `json:"harness_errors"`
	Short      []string       `json:"short"`
}

func cpu() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func main() {
	prop := flag.String("property", "", "")
	seed := flag.Uint64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	only := flag.Int("case", -1, "run only this case")
	race := flag.Bool("race-build", false, "")
	out := flag.String("out", "", "")
	status := flag.String("status", "", "directory for the cases in progress")
	cases := flag.Int("cases", -1, "")
	flag.Parse()
	ch := checks[*prop]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "no such check", *prop)
		os.Exit(2)
	}
	debug.SetMaxStack(128 << 20)
	debug.SetTraceback("all")

	n := ch.quick
	switch {
	case *tier == "thorough" && *race:
		n = ch.raceThorough
	case *tier == "thorough":
		n = ch.thorough
	case *race:
		n = ch.raceQuick
	}
	if *cases >= 0 {
		n = *cases
	}
	rep := &report{Property: *prop, Seed: *seed, Tier: *tier, Race: *race, Rule: ch.rule, Counts: map[string]int{}}
	shapes := map[string]bool{}
	workers := runtime.NumCPU()
	if ch.serial {
		workers = 1
	}
	list := make([]int, 0, n)
	for i := range n {
		list = append(list, i)
	}
	if *only >= 0 {
		list = []int{*only}
	}
	var next atomic.Int64
	var stop atomic.Bool
	var mu sync.Mutex
	var wg sync.WaitGroup
	started := make([]atomic.Int64, workers) // unix nanos
	startedCPU := make([]atomic.Int64, workers)
	current := make([]atomic.Int64, workers)
	dump := func() {
		data, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			if err := os.WriteFile(*out, data, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		} else {
			fmt.Println(string(data))
		}
	}
	var live []*cse = make([]*cse, workers)
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var f *os.File
			if *status != "" {
				var err error
				f, err = os.Create(filepath.Join(*status, fmt.Sprintf("worker%d", w)))
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
				defer f.Close()
			}
			for !stop.Load() {
				k := int(next.Add(1) - 1)
				if k >= len(list) {
					break
				}
				i := list[k]
				if f != nil {
					_, _ = f.WriteAt([]byte(fmt.Sprintf("%-12d\n", i)), 0)
				}
				c := newCase(ch, i, *seed, *tier, *race)
				mu.Lock()
				live[w] = c
				mu.Unlock()
				current[w].Store(int64(i))
				startedCPU[w].Store(int64(cpu()))
				started[w].Store(time.Now().UnixNano())
				herr := runCase(c)
				started[w].Store(0)
				if f != nil {
					_, _ = f.WriteAt([]byte(fmt.Sprintf("%-12d\n", -1)), 0)
				}
				mu.Lock()
				rep.Cases++
				for k, v := range c.counts {
					rep.Counts[k] += v
				}
				if !c.trivial {
					shapes[c.signature()] = true
				}
				if c.sample != "" && len(rep.Samples) < 3 {
					rep.Samples = append(rep.Samples, fmt.Sprintf("case %d: %s", i, c.sample))
				}
				if len(c.findings) > 0 {
					rep.Violations = append(rep.Violations, c.violation())
					if len(rep.Violations) >= 5 {
						stop.Store(true)
					}
				} else if herr != "" {
					rep.Harness = append(rep.Harness, fmt.Sprintf("case %d: %s", i, herr))
					stop.Store(true)
				}
				mu.Unlock()
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	// The watchdog only fires for operations some thousands of times slower than any observed.
	tick := time.NewTicker(time.Second)
	var ms runtime.MemStats
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			runtime.ReadMemStats(&ms)
			for w := range workers {
				t := started[w].Load()
				if t == 0 {
					continue
				}
				wall := time.Since(time.Unix(0, t))
				limit := 150 * time.Second
				if *race || *tier == "thorough" {
					limit = 300 * time.Second
				}
				hung := wall > limit
				huge := ms.HeapAlloc > 10<<30 && wall > 10*time.Second
				if !hung && !huge {
					continue
				}
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				mu.Lock()
				c := live[w]
				why := "hung"
				if huge {
					why = "allocates without end"
				}
				stack := string(buf)
				inRepo := strings.Contains(stack, "github.com/dball/destructive/internal/") || strings.Contains(stack, "github.com/dball/destructive/pkg/")
				c.mu.Lock()
				v := violation{*prop, *seed, *tier, *race, c.n, []string{fmt.Sprintf("an operation of case %d %s after %v", c.n, why, wall.Round(time.Second))}, append(append([]string{}, c.trace...), trim(stack, 20000))}
				c.mu.Unlock()
				if inRepo {
					rep.Violations = append(rep.Violations, v)
				} else {
					rep.Harness = append(rep.Harness, v.What[0])
				}
				dump()
				os.Exit(3)
			}
		}
	}
	rep.Distinct = len(shapes)
	if *only < 0 && !stop.Load() {
		var names []string
		for name := range ch.floors {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			floor := ch.floors[name]
			if *cases >= 0 || *race {
				if ch.quick > 0 {
					floor = floor * n / ch.quick / 2
				}
			}
			if got := rep.Counts[name]; got < floor {
				rep.Short = append(rep.Short, fmt.Sprintf("%s: observed %d, fewer than %d", name, got, floor))
			}
		}
	}
	sort.Slice(rep.Violations, func(i, j int) bool { return rep.Violations[i].Case < rep.Violations[j].Case })
	dump()
}

func newCase(ch *check, i int, seed uint64, tier string, race bool) *cse {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", ch.id, seed, i)
	return &cse{
		Rand: rand.New(rand.NewPCG(seed, h.Sum64())), check: ch, n: i, seed: seed, tier: tier, race: race,
		counts: map[string]int{}, shape: map[string]bool{},
	}
}

func runCase(c *cse) (herr string) {
	defer func() {
		r := recover()
		if r != nil {
			herr = fmt.Sprintf("%v\n%s", r, debug.Stack())
			if he, ok := r.(harnessError); ok {
				herr = he.msg + "\n" + string(debug.Stack())
			}
		}
	}()
	c.check.run(c)
	return
}

func (c *cse) signature() string {
	var fs []string
	for f := range c.shape {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return strings.Join(fs, "|")
}

func (c *cse) violation() violation {
	return violation{c.check.id, c.seed, c.tier, c.race, c.n, c.findings, c.trace}
}
