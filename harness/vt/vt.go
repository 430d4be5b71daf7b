// Package vt is the common part of the checks: counting what was generated,
// driving rapid with a seed derived from VERIF_SEED, journalling the case that
// is about to run (so that a crash of the whole process can be attributed) and
// detecting cases which never end.
package vt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Stats is what one process measured.
type Stats struct {
	Evaluations int                 `json:"evaluations"`
	Labels      map[string]int      `json:"labels"`
	Samples     []string            `json:"samples"`
	Known       map[string]string   `json:"known"`
	Tests       map[string]int      `json:"tests"`
	hashes      map[uint64]struct{} // distinct non-trivial cases
	sampleEvery int
}

var (
	mu       sync.Mutex
	stats    = Stats{Labels: map[string]int{}, Known: map[string]string{}, Tests: map[string]int{}, hashes: map[uint64]struct{}{}}
	dir      = os.Getenv("VERIF_OUT")
	seed     = envInt("VERIF_SEED", 1)
	shard    = envInt("VERIF_SHARD", 0)
	shards   = max(envInt("VERIF_SHARDS", 1), 1)
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	replay   = os.Getenv("VERIF_REPLAY") != ""
	scale    = envFloat("VERIF_SCALE", 1)

	caseStart atomic.Int64 // wall, unix nanoseconds; 0 when idle
	caseCPU   atomic.Int64
)

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}

	return def
}

func envFloat(name string, def float64) float64 {
	if n, err := strconv.ParseFloat(os.Getenv(name), 64); err == nil {
		return n
	}

	return def
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return thorough }

// Shard returns the index of this process and the number of processes.
func Shard() (int, int) { return shard, shards }

// Case collects facts about one generated case.
type Case struct {
	name   string
	parts  [][]any
	labels []string
	sample string
}

// NonTrivial marks the case as non-trivial; key identifies the case. When called
// several times, each stands for a case of its own.
func (c *Case) NonTrivial(key ...any) {
	c.parts = append(c.parts, key)
}

// Label classifies the case.
func (c *Case) Label(l string) { c.labels = append(c.labels, l) }

// LabelIf classifies the case if b.
func (c *Case) LabelIf(b bool, l string) {
	if b {
		c.Label(l)
	}
}

// Sample sets the written form of the case.
func (c *Case) Sample(format string, args ...any) {
	mu.Lock()
	want := len(stats.Samples) < 6 && stats.Tests[c.name] < 3 || stats.Evaluations%997 == 0 && len(stats.Samples) < 12
	mu.Unlock()

	if want {
		c.sample = fmt.Sprintf(format, args...)

		if len(c.sample) > 900 {
			c.sample = c.sample[:900] + "..."
		}
	}
}

func (c *Case) done() {
	mu.Lock()
	defer mu.Unlock()

	stats.Evaluations += max(1, len(c.parts))
	stats.Tests[c.name] += max(1, len(c.parts))

	for _, l := range c.labels {
		stats.Labels[l]++
	}

	if len(c.parts) == 0 {
		return
	}

	for _, p := range c.parts {
		if len(stats.hashes) < 4_000_000 {
			h := fnv.New64a()

			fmt.Fprintf(h, "%s|%v", c.name, p)

			stats.hashes[h.Sum64()] = struct{}{}
		}
	}

	if c.sample != "" {
		stats.Samples = append(stats.Samples, c.name+": "+c.sample)
	}
}

// Count records n enumerated cases, each distinct and non-trivial, without
// going through a Case for every one of them.
func Count(name string, n int, key func(i int) uint64, sample string) {
	mu.Lock()
	defer mu.Unlock()

	stats.Evaluations += n
	stats.Tests[name] += n

	for i := 0; i < n && len(stats.hashes) < 4_000_000; i++ {
		h := fnv.New64a()

		h.Write([]byte(name))
		binary.Write(h, binary.LittleEndian, key(i))

		stats.hashes[h.Sum64()] = struct{}{}
	}

	if sample != "" && len(stats.Samples) < 14 {
		stats.Samples = append(stats.Samples, name+": "+sample)
	}
}

// Once records one enumerated case.
func Once(name string, key any, sample string) {
	c := Case{name: name}
	c.NonTrivial(key)

	c.sample = ""

	mu.Lock()
	if stats.Tests[name] < 2 {
		c.sample = sample
	}
	mu.Unlock()
	c.done()
}

// Known reports a deviation that is a listed finding. It returns false when the
// finding is not listed, in which case it is a violation.
func Known(property, key, what string) bool {
	list := knownFindings()

	if !list[property+" "+key] {
		return false
	}

	mu.Lock()
	defer mu.Unlock()

	stats.Known[property+" "+key] = what

	return true
}

var (
	knownOnce sync.Once
	known     map[string]bool
	knownRe   = regexp.MustCompile(`^known: property=(\S+) key=(\S+)`)
)

func knownFindings() map[string]bool {
	knownOnce.Do(func() {
		known = map[string]bool{}

		b, _ := os.ReadFile(os.Getenv("VERIF_KNOWN"))

		for _, l := range strings.Split(string(b), "\n") {
			if m := knownRe.FindStringSubmatch(l); m != nil {
				known[m[1]+" "+m[2]] = true
			}
		}
	})

	return known
}

func rapidSeed(name string) uint64 {
	h := fnv.New64a()

	fmt.Fprintf(h, "%d/%s/%d", seed, name, shard)

	if s := h.Sum64(); s != 0 {
		return s
	}

	return 1
}

// N gives the number of cases to run in this process.
func N(quick, thoroughN int) int {
	n := quick
	if thorough {
		n = thoroughN
	}

	n = int(float64(n) * scale)

	return max(1, (n+shards-1)/shards)
}

// Check runs the property over generated cases: quick of them in the quick
// tier and thoroughN in the thorough tier, spread over the processes.
func Check(t *testing.T, quick, thoroughN int, prop func(*rapid.T, *Case)) {
	t.Helper()

	if !replay {
		flag.Set("rapid.checks", strconv.Itoa(N(quick, thoroughN)))
		flag.Set("rapid.seed", strconv.FormatUint(rapidSeed(t.Name()), 10))
		flag.Set("rapid.shrinktime", "20s")
	}

	rapid.Check(t, func(rt *rapid.T) {
		c := Case{name: t.Name()}

		begin()
		defer end()

		prop(rt, &c)
		c.done()
	})
}

// Guard runs one enumerated case under the watchdog.
func Guard(fn func()) {
	begin()
	defer end()

	fn()
}

func begin() {
	caseCPU.Store(int64(cpu()))
	caseStart.Store(time.Now().UnixNano())
}

func end() { caseStart.Store(0) }

func cpu() time.Duration {
	var r syscall.Rusage

	syscall.Getrusage(syscall.RUSAGE_SELF, &r)

	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

// Journal saves the input which is about to be given to the code under test.
func Journal(b []byte) {
	if dir != "" {
		os.WriteFile(filepath.Join(dir, "journal-"+strconv.Itoa(shard)), b, 0o644)
	}
}

const (
	maxCPU  = 90 * time.Second
	maxIdle = 90 * time.Second
)

func watchdog() {
	var (
		last     int64
		idleFrom time.Time
		idleCPU  time.Duration
	)

	for {
		time.Sleep(time.Second)

		s := caseStart.Load()
		if s == 0 || s != last {
			last = s
			idleFrom = time.Now()
			idleCPU = cpu()

			continue
		}

		c := cpu()

		if used := c - time.Duration(caseCPU.Load()); used > maxCPU {
			hang(fmt.Sprintf("one case has used %s of CPU time", used))
		}

		if c-idleCPU > 2*time.Second {
			idleFrom = time.Now()
			idleCPU = c
		} else if time.Since(idleFrom) > maxIdle {
			hang("one case has been blocked, using no CPU time")
		}
	}
}

func hang(what string) {
	buf := make([]byte, 1<<20)

	fmt.Fprintf(os.Stderr, "VERIF-HANG %s\n%s\n", what, buf[:runtime.Stack(buf, true)])
	os.Exit(7)
}

// Main is the TestMain of each package of checks.
func Main(m *testing.M) {
	flag.Parse()
	debug.SetGCPercent(200)

	go watchdog()

	code := m.Run()

	if dir != "" {
		mu.Lock()
		b, _ := json.Marshal(&stats)
		os.WriteFile(filepath.Join(dir, "stats-"+strconv.Itoa(shard)+".json"), b, 0o644)

		hs := make([]uint64, 0, len(stats.hashes))
		for h := range stats.hashes {
			hs = append(hs, h)
		}

		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })

		f, err := os.Create(filepath.Join(dir, "hashes-"+strconv.Itoa(shard)))
		if err == nil {
			binary.Write(f, binary.LittleEndian, hs)
			f.Close()
		}
		mu.Unlock()
	}

	os.Exit(code)
}
