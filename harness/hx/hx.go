// Package hx holds what every check needs: case accounting, known findings,
// deadlines and clients.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Tier is quick or thorough.
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Seed is the value every random choice derives from; never 0.
func Seed() uint64 {
	n, err := strconv.ParseUint(strings.TrimSpace(os.Getenv("VERIF_SEED")), 10, 64)
	if err != nil || n == 0 {
		if err != nil {
			h := fnv.New64a()
			h.Write([]byte(os.Getenv("VERIF_SEED")))
			n = h.Sum64()>>1 | 1
		} else {
			n = 0x5eed
		}
	}
	return n
}

// Rec accounts for the cases of one property.
type Rec struct {
	mu       sync.Mutex
	ID       string
	rule     []string
	evals    int
	distinct map[uint64]struct{}
	samples  []any
	nextSamp int
	classes  map[string]int
	assume   []string
	start    time.Time
	failed   bool
}

var (
	recs   = map[string]*Rec{}
	recsMu sync.Mutex
)

// For returns the account of property id.
func For(id string) *Rec {
	recsMu.Lock()
	defer recsMu.Unlock()
	r := recs[id]
	if r == nil {
		r = &Rec{ID: id, distinct: map[uint64]struct{}{}, classes: map[string]int{}, start: time.Now(), nextSamp: 1}
		recs[id] = r
	}
	return r
}

func (r *Rec) Rule(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.rule {
		if x == s {
			return
		}
	}
	r.rule = append(r.rule, s)
}

func (r *Rec) Assume(s ...string) {
	r.mu.Lock()
	r.assume = append(r.assume, s...)
	r.mu.Unlock()
}

// Case counts one evaluated case. desc identifies it; nontrivial says whether
// it meets the stated rule.
func (r *Rec) Case(desc string, nontrivial bool, classes ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	for _, c := range classes {
		r.classes[c]++
	}
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(desc))
	k := h.Sum64()
	if _, dup := r.distinct[k]; dup {
		return
	}
	r.distinct[k] = struct{}{}
	if len(r.distinct) >= r.nextSamp && len(r.samples) < 8 {
		if len(desc) > 700 {
			desc = desc[:700] + "..."
		}
		r.samples = append(r.samples, desc)
		r.nextSamp = r.nextSamp*4 + 1
	}
}

// Fail notes a violation found outside Check.
func (r *Rec) Fail() { r.mu.Lock(); r.failed = true; r.mu.Unlock() }

// Class counts a class without counting a case.
func (r *Rec) Class(cs ...string) {
	r.mu.Lock()
	for _, c := range cs {
		r.classes[c]++
	}
	r.mu.Unlock()
}

// WriteAll stores the evidence of every property touched by this process.
func WriteAll() error {
	dir := os.Getenv("VERIF_EVIDENCE_DIR")
	if dir == "" {
		return nil
	}
	recsMu.Lock()
	defer recsMu.Unlock()
	for id, r := range recs {
		if only := os.Getenv("VERIF_PROPERTY"); only != "" && only != id {
			continue
		}
		r.mu.Lock()
		viol := 0
		if r.failed {
			viol = 1
		}
		samples := r.samples
		if samples == nil {
			samples = []any{}
		}
		ev := map[string]any{
			"property": id, "tier": Tier(), "seed": int64(Seed() & 0x7fffffffffffffff), "level": "exploration",
			"coverage": map[string]any{
				"evaluations": r.evals, "distinct_nontrivial": len(r.distinct),
				"rule": strings.Join(r.rule, " | "), "samples": samples, "classes": r.classes,
			},
			"assumptions": append([]string{}, r.assume...),
			"wall_s":      time.Since(r.start).Seconds(), "violations": viol,
		}
		r.mu.Unlock()
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, id+".json"), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// Scale is the factor the thorough tier multiplies case counts with.
var Scale = 25

// Check runs a property with n cases (more in the thorough tier).
func Check(t *testing.T, id string, n int, prop func(*rapid.T)) {
	t.Helper()
	if Tier() == "thorough" {
		n *= Scale
	}
	if v := os.Getenv("VERIF_CASES"); v != "" {
		if k, err := strconv.Atoi(v); err == nil {
			n = k
		}
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	if f := flag.Lookup("rapid.seed"); f != nil && f.Value.String() == "0" {
		flag.Set("rapid.seed", strconv.FormatUint(Seed(), 10))
	}
	defer func() {
		if t.Failed() {
			For(id).failed = true
		}
	}()
	var once sync.Once
	end := time.Now().Add(500 * time.Second)
	if Tier() == "thorough" {
		end = end.Add(3 * time.Hour)
	}
	rapid.Check(t, func(rt *rapid.T) {
		defer func() {
			if rt.Failed() {
				once.Do(func() { fmt.Printf("CASE-FAILED %s\n", t.Name()) })
			}
		}()
		if time.Now().Before(end) {
			prop(rt)
		}
	})
}

// --- known findings

var findings map[string]string

// Finding reports whether finding key (property:name) is listed.
func Finding(key string) bool {
	if findings == nil {
		findings = map[string]string{}
		b, err := os.ReadFile(os.Getenv("VERIF_FINDINGS"))
		if err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				// known: property=<id> finding=<name> <what fails>
				f := strings.Fields(l)
				if len(f) > 3 && f[0] == "known:" && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "finding=") {
					findings[f[1][9:]+":"+f[2][8:]] = strings.Join(f[3:], " ")
				}
			}
		}
	}
	_, ok := findings[key]
	return ok
}

// Probe evaluates one deterministic case. bad describes the violation, or is
// empty when the property held. A listed finding is announced, anything else fails.
func Probe(t *testing.T, id, name string, f func() string) {
	t.Helper()
	var bad string
	if p := Within(time.Minute, func() { bad = f() }); p != "" {
		bad = p
	}
	For(id).Case("probe "+name, true, "probe")
	if bad == "" {
		return
	}
	if Finding(id + ":" + name) {
		fmt.Printf("KNOWN-FINDING: property=%s finding=%s %s [%s]\n", id, name, findings[id+":"+name], bad)
		return
	}
	For(id).failed = true
	t.Errorf("probe %s: %s", name, bad)
}

// Within runs f and fails with a message when it neither returns nor panics in d.
// A panic in f is returned as text.
func Within(d time.Duration, f func()) (problem string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 6000)
				buf = buf[:runtime.Stack(buf, false)]
				done <- fmt.Sprintf("panic: %v\n%s", p, buf)
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(d):
		buf := make([]byte, 200000)
		buf = buf[:runtime.Stack(buf, true)]
		var keep []string
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "gologix.") {
				keep = append(keep, g)
			}
		}
		return fmt.Sprintf("no return within %v\n%s", d, strings.Join(keep, "\n\n"))
	}
}

// Quiet is a logger that drops everything.
func Quiet() *slog.Logger {
	return slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 4}))
}

// Short shortens a description.
func Short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func exit() { os.Exit(3) }
