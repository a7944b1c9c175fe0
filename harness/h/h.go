// Package h is the machinery shared by the checks: deterministic randomness, case
// accounting, public parameter caches, generators and a reflective proof walker.
package h

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"pol/pol"

	"pgregory.net/rapid"
)

// Tier, Seed, Shard and Shards describe the run; the runner sets them.
var (
	Thorough = os.Getenv("VERIF_TIER") == "thorough"
	Seed     = envInt("VERIF_SEED", 1)
	Shard    = envInt("VERIF_SHARD", 0)
	Shards   = envInt("VERIF_SHARDS", 1)
	statsOut = os.Getenv("VERIF_STATS")
	Scratch  = os.Getenv("VERIF_SCRATCH")
)

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
		// Any text is a fine seed
		sum := sha256.Sum256([]byte(v))
		return int(binary.BigEndian.Uint32(sum[:]))
	}
	return def
}

type stats struct {
	mu          sync.Mutex
	Evaluations int                 `json:"evaluations"`
	Nontrivial  int                 `json:"nontrivial"`
	Hashes      map[string]struct{} `json:"-"`
	HashList    []string            `json:"hashes"`
	Classes     map[string]int      `json:"classes"`
	Samples     []string            `json:"samples"`
	Known       map[string]string   `json:"known"`
	Rules       map[string]string   `json:"rules"`
	Cases       map[string]int      `json:"cases"`
	CPU         map[string]float64  `json:"cpu"`
	RSS         int64               `json:"rss"`
}

var st = &stats{
	Hashes:  map[string]struct{}{},
	Classes: map[string]int{},
	Known:   map[string]string{},
	Rules:   map[string]string{},
	Cases:   map[string]int{},
}

// Main runs the tests of a package and writes what they covered.
func Main(m *testing.M) {
	installRand()
	go watch()
	pol.ParallelismEnabled = false
	rc := m.Run()
	if statsOut != "" {
		st.mu.Lock()
		for k := range st.Hashes {
			st.HashList = append(st.HashList, k)
		}
		sort.Strings(st.HashList)
		watched.Lock()
		st.CPU, st.RSS = watched.maxes, watched.rss
		watched.Unlock()
		b, _ := json.Marshal(st)
		st.mu.Unlock()
		if err := os.WriteFile(statsOut, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "cannot write stats:", err)
			os.Exit(3)
		}
	}
	os.Exit(rc)
}

// N is the number of cases of a sub-check over all shards.
type N struct{ Quick, Thorough int }

// C is one generated case.
type C struct {
	*rapid.T
	name      string
	desc      strings.Builder
	evals     int
	exploring bool
}

// Prop describes one sub-check: how cases are made and which are non-trivial.
type Prop struct {
	Name  string
	N     N
	Rule  string
	Check func(c *C)
	// Single runs the sub-check in one shard only.
	Single bool
}

// Run explores the given sub-checks one after another.
func Run(t *testing.T, props ...Prop) {
	// A sharded process gets its own cases of every sub-check
	for i, p := range props {
		p := p
		only := os.Getenv("VERIF_ONLY")
		if only != "" && only != p.Name {
			continue
		}
		n := p.N.Quick
		if Thorough {
			n = p.N.Thorough
		}
		if s := os.Getenv("VERIF_CASES"); s != "" {
			n = envInt("VERIF_CASES", n)
		} else if p.Single {
			if Shard != i%Shards {
				continue
			}
		} else {
			// Spread n over the shards, the first ones get the remainder
			k := (Shard + i) % Shards
			m := n / Shards
			if k < n%Shards {
				m++
			}
			n = m
		}
		if n == 0 {
			continue
		}
		if flag.Lookup("rapid.failfile").Value.String() == "" {
			sum := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s/%d/%d", Seed, t.Name(), p.Name, Shard, Shards)))
			seed := binary.BigEndian.Uint64(sum[:])>>1 | 1
			if s := os.Getenv("VERIF_RAPID_SEED"); s != "" {
				v, err := strconv.ParseUint(s, 10, 64)
				if err != nil {
					t.Fatal(err)
				}
				seed = v
			}
			flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
			flag.Set("rapid.checks", strconv.Itoa(n))
		}
		flag.Set("rapid.shrinktime", "15s")
		st.mu.Lock()
		st.Rules[p.Name] = p.Rule
		st.mu.Unlock()
		ok := t.Run(p.Name, func(t *testing.T) {
			progress("start", t.Name(), n)
			idx := 0
			failed := false
			rapid.Check(t, func(rt *rapid.T) {
				idx++
				c := &C{T: rt, name: p.Name, exploring: !failed}
				SetRand(rapid.Uint64().Draw(rt, "entropy"))
				NextSetup(c)
				done := false
				beginCase(t.Name())
				defer func() {
					endCase(p.Name)
					if !done {
						failed = true
					}
				}()
				p.Check(c)
				if rt.Failed() {
					return
				}
				done = true
				if c.evals == 0 {
					c.Eval(false, "")
				}
				if c.exploring {
					st.mu.Lock()
					st.Cases[p.Name]++
					st.mu.Unlock()
				}
			})
		})
		if !ok {
			return
		}
	}
}

func progress(what, name string, n int) {
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%s %s n=%d\n", what, name, n)
	}
}

// Desc appends to the description of the case.
func (c *C) Desc(format string, args ...interface{}) {
	fmt.Fprintf(&c.desc, format, args...)
	c.desc.WriteByte(' ')
}

// Eval records one evaluation of the oracle in this case.
func (c *C) Eval(nontrivial bool, format string, args ...interface{}) {
	c.evals++
	if !c.exploring {
		return
	}
	text := c.name + ": " + c.desc.String() + fmt.Sprintf(format, args...)
	st.mu.Lock()
	defer st.mu.Unlock()
	st.Evaluations++
	if !nontrivial {
		return
	}
	st.Nontrivial++
	sum := sha256.Sum256([]byte(text))
	k := hex.EncodeToString(sum[:8])
	if _, dup := st.Hashes[k]; dup {
		return
	}
	st.Hashes[k] = struct{}{}
	n := 0
	for _, s := range st.Samples {
		if strings.HasPrefix(s, c.name+": ") {
			n++
		}
	}
	if n < 2 {
		if len(text) > 700 {
			text = text[:700] + "…"
		}
		st.Samples = append(st.Samples, text)
	}
}

// Class counts a case in a class.
func (c *C) Class(format string, args ...interface{}) {
	if !c.exploring {
		return
	}
	st.mu.Lock()
	st.Classes[c.name+"/"+fmt.Sprintf(format, args...)]++
	st.mu.Unlock()
}

// Known reports a failure which is identified by a key. Whether it is a listed
// finding is decided by the list the runner passes; otherwise the case fails.
func (c *C) Known(key, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k != "" && k == key {
			st.mu.Lock()
			st.Known[key] = msg
			st.mu.Unlock()
			return
		}
	}
	c.Fatalf("%s: %s", key, msg)
}

// Panics tells whether f panics with a recoverable panic, and the message. Run time
// errors such as nil dereferences are reported separately.
func Panics(f func()) (panicked bool, runtimeErr bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			_, runtimeErr = r.(runtime.Error)
			msg = fmt.Sprint(r)
		}
	}()
	f()
	return
}

// TempDir makes a scratch directory which the runner removes.
func TempDir(prefix string) string {
	base := Scratch
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, prefix)
	if err != nil {
		panic(err)
	}
	abs, err := filepath.Abs(d)
	if err != nil {
		panic(err)
	}
	return abs
}

// Pick draws one of the options.
func Pick[E any](c *C, name string, options ...E) E {
	return options[rapid.IntRange(0, len(options)-1).Draw(c.T, name)]
}

// Int draws an integer in [lo, hi].
func Int(c *C, name string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(c.T, name)
}

// Bool draws a boolean.
func Bool(c *C, name string) bool { return rapid.Bool().Draw(c.T, name) }

// Chance is true in about one of n cases (never when shrunk).
func Chance(c *C, name string, n int) bool {
	return rapid.IntRange(0, n-1).Draw(c.T, name) == n-1
}
