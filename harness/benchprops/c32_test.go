package benchprops

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pol/pol"

	"pgregory.net/rapid"

	"verif/harness/h"
)

// settings are the readers of the environment, by the variable they read.
func settings() map[string]func() interface{} {
	res := map[string]func() interface{}{}
	if verifTreeType != nil {
		res["TREETYPE"] = func() interface{} { return verifTreeType() }
	}
	if verifIterations != nil {
		res["ITERATIONS"] = func() interface{} { return verifIterations() }
	}
	if verifParallelism != nil {
		res["PARALLELISM"] = func() interface{} {
			verifParallelism()
			return pol.ParallelismEnabled
		}
	}
	return res
}

func TestMain(m *testing.M) {
	// A child process only reads one setting
	if name := os.Getenv("VERIF_CHILD"); name != "" {
		fmt.Printf("\nread %v\n", settings()[name]())
		os.Exit(0)
	}
	h.Main(m)
}

// accepted tells whether the program goes on with a setting.
func accepted(c *h.C, name, value string) bool {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+name, name+"="+value)
	out, err := cmd.CombinedOutput()
	if err == nil {
		return strings.Contains(string(out), "\nread ")
	}
	if _, ok := err.(*exec.ExitError); !ok {
		panic("harness: " + err.Error())
	}
	return false
}

// quietly runs f and returns what it printed.
func quietly(f func()) string {
	file, err := os.CreateTemp(h.TempDir("out"), "out")
	if err != nil {
		panic("harness: " + err.Error())
	}
	old := os.Stdout
	os.Stdout = file
	defer func() {
		os.Stdout = old
		file.Close()
		os.Remove(file.Name())
	}()
	f()
	file.Seek(0, io.SeekStart)
	text, err := io.ReadAll(file)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(text)
}

func names[E any](m map[string]E) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

func setenv(c *h.C, name, value string) func() {
	old, was := os.LookupEnv(name)
	os.Setenv(name, value)
	return func() {
		if was {
			os.Setenv(name, old)
		} else {
			os.Unsetenv(name)
		}
	}
}

func drawBytes(c *h.C, name string, max int) []byte {
	return rapid.SliceOfN(rapid.Byte(), 0, max).Draw(c.T, name)
}

// blob is a value of the given length, made of a few drawn bytes.
func blob(c *h.C, n int) []byte {
	seed := rapid.Uint64().Draw(c.T, "blob")
	v := make([]byte, n)
	for i := range v {
		seed = seed*6364136223846793005 + 1442695040888963407
		v[i] = byte(seed >> 56)
	}
	return v
}

var averaged = regexp.MustCompile(`\((\d+), (-?\d+)\)`)

// reported parses "what: (fan-out, number)(fan-out, number)...".
func reported(c *h.C, text, what string) (fs []int, xs []int) {
	for _, line := range strings.Split(text, "\n") {
		if !strings.HasPrefix(line, what+":") {
			continue
		}
		for _, m := range averaged.FindAllStringSubmatch(line, -1) {
			f, _ := strconv.Atoi(m[1])
			x, _ := strconv.Atoi(m[2])
			fs, xs = append(fs, f), append(xs, x)
		}
		return fs, xs
	}
	c.Fatalf("the program does not report %q:\n%s", what, text)
	return nil, nil
}

func TestC32(t *testing.T) {
	stores := names(verifStores)
	averages := names(verifAverages)
	envs := names(settings())

	h.Run(t, h.Prop{
		Name: "stores", N: h.N{Quick: 400, Thorough: 20000},
		Rule: "histories of up to 60 puts, overwrites and gets on one of the program's stores with keys of 0 to 40 bytes (prefixes of each other, equal but for a byte, empty) and values of 0 to 70000 bytes, against a map; a store made after the first was destroyed is empty; non-trivial if a key is overwritten and another never put is looked up",
		Check: func(c *h.C) {
			if len(stores) == 0 {
				return
			}
			kind := h.Pick(c, "store", stores...)
			s, destroy := verifStores[kind]()
			destroyed := false
			defer func() {
				if !destroyed {
					destroy()
				}
			}()
			model := map[string][]byte{}
			var keys [][]byte
			overwritten, missing := false, false
			key := func() []byte {
				if len(keys) > 0 {
					k := append([]byte{}, keys[h.Int(c, "known", 0, len(keys)-1)]...)
					switch h.Int(c, "relation", 0, 5) {
					case 0:
						return append(k, byte(h.Int(c, "extra", 0, 255)))
					case 1:
						if len(k) > 0 {
							return k[:len(k)-1]
						}
					case 2:
						if len(k) > 0 {
							k[h.Int(c, "at", 0, len(k)-1)] ^= byte(h.Int(c, "flip", 1, 255))
							return k
						}
					case 3, 4:
						return k
					}
				}
				return drawBytes(c, "key", 40)
			}
			for i := h.Int(c, "n", 1, 60); i > 0; i-- {
				k := key()
				if h.Int(c, "op", 0, 2) > 0 {
					n := h.Int(c, "length", 0, 200)
					if h.Int(c, "long", 0, 19) == 19 {
						n = h.Int(c, "long length", 4000, 70000)
					}
					v := blob(c, n)
					_, had := model[string(k)]
					overwritten = overwritten || had
					s.Put(append([]byte{}, k...), append([]byte{}, v...))
					model[string(k)] = v
					keys = append(keys, k)
				}
				for _, k := range [][]byte{k, key()} {
					want, had := model[string(k)]
					missing = missing || !had
					if got := s.Get(append([]byte{}, k...)); !bytes.Equal(got, want) {
						c.Fatalf("%s has %d bytes under %x instead of %d", kind, len(got), k, len(want))
					} else if !had && got != nil {
						c.Fatalf("%s has a value under %x, which was never put", kind, k)
					}
				}
			}
			for k, want := range model {
				if !bytes.Equal(s.Get([]byte(k)), want) {
					c.Fatalf("%s lost %x", kind, k)
				}
			}
			destroy()
			destroyed = true
			if len(verifOS.refused) > 0 {
				c.Fatalf("destroying %s removes %q", kind, verifOS.refused)
			}
			fresh, end := verifStores[kind]()
			defer end()
			for k := range model {
				if fresh.Get([]byte(k)) != nil {
					c.Fatalf("a new %s has what a destroyed one had under %x", kind, k)
				}
			}
			c.Class("%s", kind)
			c.Eval(overwritten && missing, "%s with %d keys", kind, len(model))
		},
	}, h.Prop{
		Name: "volume", N: h.N{Quick: 16, Thorough: 300},
		Rule: "150 to 400 puts of 100 to 60000 bytes under 1 to 300 keys, which exceed what a store buffers in memory, against a map; non-trivial if keys were overwritten",
		Check: func(c *h.C) {
			if len(stores) == 0 {
				return
			}
			kind := h.Pick(c, "store", stores...)
			s, destroy := verifStores[kind]()
			defer destroy()
			model := map[string][]byte{}
			puts, keys := h.Int(c, "puts", 150, 400), h.Int(c, "keys", 1, 300)
			size := h.Pick(c, "size", 100, 5000, 30000, 60000)
			for i := 0; i < puts; i++ {
				k := fmt.Sprintf(".%d.%d", (i*7919)%keys, i%3)
				v := append([]byte(k), blob(c, size)...)
				s.Put([]byte(k), v)
				model[k] = append([]byte{}, v...)
			}
			for k, want := range model {
				if !bytes.Equal(s.Get([]byte(k)), want) {
					c.Fatalf("%s does not have the last value of %s", kind, k)
				}
			}
			c.Class("%s", kind)
			c.Eval(len(model) < puts, "%s with %d puts of %d bytes under %d keys", kind, puts, size, len(model))
		},
	}, h.Prop{
		Name: "sets", N: h.N{Quick: 32, Thorough: 600},
		Rule: "1 to 12 assignments to a liability set over one of the program's stores: identifiers have their last amounts, and the proven total is their sum; non-trivial with at least two identifiers",
		Check: func(c *h.C) {
			if len(stores) == 0 {
				return
			}
			kind := h.Pick(c, "store", stores...)
			s, destroy := verifStores[kind]()
			defer destroy()
			_, params := pol.GeneratePublicParams(3, pol.Dense)
			ls := pol.NewLiabilitySet(params, s, h.Path)
			model := map[string]int64{}
			for i := h.Int(c, "n", 1, 12); i > 0; i-- {
				id := h.PathID([]uint16{uint16(h.Int(c, "a", 0, 2)), uint16(h.Int(c, "b", 0, 2)), uint16(h.Int(c, "c", 0, 2))})
				x := int64(h.Int(c, "x", 0, 1<<40))
				ls.Set(id, x)
				model[id] = x
			}
			total := int64(0)
			for id, x := range model {
				total += x
				if got, ok := ls.Get(id); !ok || got != x {
					c.Fatalf("over %s, %s has %d, %v instead of %d", kind, id, got, ok, x)
				}
			}
			V, _ := ls.Root()
			tot := ls.ProveTot()
			if err := tot.Verify(params, V); err != nil || int64(tot.Sum) != total {
				c.Fatalf("over %s, total %d instead of %d: %v", kind, tot.Sum, total, err)
			}
			c.Class("%s", kind)
			c.Eval(len(model) > 1, "%s with %d identifiers", kind, len(model))
		},
	}, h.Prop{
		Name: "averages", N: h.N{Quick: 4000, Thorough: 400000},
		Rule: "lists of 1 to 200 measurements between 0 and 2^52: the average is the sum divided by their number, rounded down, and the list is unchanged; non-trivial if not all are equal",
		Check: func(c *h.C) {
			if len(averages) == 0 {
				return
			}
			kind := h.Pick(c, "kind", averages...)
			n := h.Int(c, "n", 1, 20)
			if h.Int(c, "many", 0, 9) == 9 {
				n = h.Int(c, "n of many", 21, 200)
			}
			bits := h.Int(c, "bits", 1, 52)
			sum := new(big.Int)
			var xs []int64
			varied := false
			for i := 0; i < n; i++ {
				x := rapid.Int64Range(0, 1<<uint(bits)).Draw(c.T, "x")
				varied = varied || x != xs0(xs, x)
				xs = append(xs, x)
				sum.Add(sum, big.NewInt(x))
			}
			want := sum.Div(sum, big.NewInt(int64(n))).Int64()
			if got := verifAverages[kind](xs); got != want {
				c.Fatalf("the average of %v is %d, not %d", xs, want, got)
			}
			c.Class("%s", kind)
			c.Eval(varied, "%s of %d up to 2^%d", kind, n, bits)
		},
	}, h.Prop{
		Name: "settings", N: h.N{Quick: 160, Thorough: 4000},
		Rule: "drawn values of the documented environment variables: what is named or the default is chosen, anything else ends the program (in a child process); non-trivial if the variable is not empty",
		Check: func(c *h.C) {
			if len(envs) == 0 {
				return
			}
			name := h.Pick(c, "name", envs...)
			value := ""
			var want interface{}
			junk := func(not ...string) string {
				v := rapid.StringMatching(`[A-Za-z0-9 _.-]{1,12}`).Draw(c.T, "junk")
				for _, n := range not {
					if v == n {
						return n + "x"
					}
				}
				return v
			}
			switch name {
			case "TREETYPE":
				switch h.Int(c, "value", 0, 4) {
				case 0:
					want = pol.TreeType(pol.Sparse)
				case 1:
					value, want = "SPARSE", pol.TreeType(pol.Sparse)
				case 2:
					value, want = "DENSE", pol.TreeType(pol.Dense)
				case 3:
					value = h.Pick(c, "near", "dense", "sparse", "Dense", "DENSE ", "SPARS", "0", "DENSESPARSE")
				default:
					value = junk("SPARSE", "DENSE")
				}
			case "PARALLELISM":
				switch h.Int(c, "value", 0, 4) {
				case 0:
					want = true
				case 1:
					value, want = "0", false
				case 2:
					value, want = "1", true
				case 3:
					value = h.Pick(c, "near", "2", "-1", "00", "true", "10", "01", " 1")
				default:
					value = junk("0", "1")
				}
			default:
				switch h.Int(c, "value", 0, 4) {
				case 0:
					want = 10
				case 1, 2:
					n := h.Int(c, "n", 1, 1<<31-1)
					if h.Bool(c, "small") {
						n = 1 + n%200
					}
					value, want = strconv.Itoa(n), n
					if h.Bool(c, "zeroes") {
						value = "00" + value
					}
				default:
					// Several of them, since each is a mistake of its own
					for _, near := range []string{"ten", "1e3", "1.5", "0x10", "0b11", "0o17", "1_000", "99999999999999999999", "2147483648", "10 ", " 10", "3,000", "--1"} {
						if h.Bool(c, "near") && accepted(c, name, near) {
							c.Fatalf("the program goes on with %s=%q", name, near)
						}
					}
					value = h.Pick(c, "another", "ten", "0x1F", "4e2", "7L", "+-1", "½")
				}
			}
			if want == nil {
				if accepted(c, name, value) {
					c.Fatalf("the program goes on with %s=%q", name, value)
				}
				c.Class("%s refused", name)
			} else {
				restore := setenv(c, name, value)
				was := pol.ParallelismEnabled
				pol.ParallelismEnabled = h.Bool(c, "parallel before")
				var got interface{}
				quietly(func() { got = settings()[name]() })
				pol.ParallelismEnabled = was
				restore()
				if got != want {
					c.Fatalf("%s=%q selects %v instead of %v", name, value, got, want)
				}
				c.Class("%s", name)
			}
			c.Eval(value != "", "%s=%q", name, value)
		},
	}, h.Prop{
		Name: "population", N: h.N{Quick: 8, Thorough: 80},
		Rule: "populating a set with 1000 to 3000 liabilities under distinct identifiers of the workload generator: that many identifiers are asked for with 32 fresh random bytes each, and the amounts 0 to 999 are assigned equally often; every case is non-trivial",
		Check: func(c *h.C) {
			if verifPopulate == nil {
				return
			}
			n := 1000 * h.Pick(c, "thousands", 1, 1, 1, 2)
			if h.Thorough {
				n = 1000 * h.Int(c, "more thousands", 1, 3)
			}
			_, params := pol.GeneratePublicParams(63, pol.Dense)
			ls := pol.NewLiabilitySet(params, h.MemDB{}, h.Path)
			offset := h.Int(c, "offset", 0, 63*63-1)
			var ids []string
			seen := map[string]bool{}
			quietly(func() {
				verifPopulate(n, ls, func(buff []byte) string {
					if len(buff) != 32 || seen[string(buff)] {
						c.Fatalf("the identifier is not made from 32 fresh random bytes but from %x", buff)
					}
					seen[string(buff)] = true
					k := (offset + len(ids)*64) % (63 * 63)
					if len(ids) >= 63*63 {
						c.Fatalf("more than %d identifiers", n)
					}
					id := h.PathID([]uint16{uint16(k / 63), uint16(k % 63)})
					ids = append(ids, id)
					return id
				})
			})
			if len(ids) != n {
				c.Fatalf("%d identifiers instead of %d", len(ids), n)
			}
			times := map[int64]int{}
			for _, id := range ids {
				x, ok := ls.Get(id)
				if !ok {
					c.Fatalf("%s was not assigned", id)
				}
				times[x]++
			}
			for x := int64(0); x < 1000; x++ {
				if times[x] != n/1000 {
					c.Fatalf("%d was assigned %d times", x, times[x])
				}
			}
			if tot := ls.ProveTot(); int(tot.Sum) != n/1000*499500 {
				c.Fatalf("the total is %d", tot.Sum)
			}
			c.Eval(true, "%d liabilities", n)
		},
	}, h.Prop{
		Name: "program", N: h.N{Quick: 1, Thorough: 6}, Single: true,
		Rule: "the whole program for dense identifiers with its list of fan-outs shortened: it ends, one number per fan-out is reported, sizes are those of such parameters and proofs, as many proofs are made as there are iterations, and no part of a proof takes longer than the whole; every case is non-trivial",
		Check: func(c *h.C) {
			if verifMain == nil || verifFanouts == nil {
				return
			}
			fs := []uint16{h.Pick[uint16](c, "f", 7, 3)}
			iterations := 2
			if h.Thorough {
				fs = [][]uint16{{3, 7}, {15}, {7, 31}, {31}, {15, 3}}[h.Int(c, "fs", 0, 4)]
				iterations = h.Int(c, "iterations", 2, 4)
			}
			parallel := h.Pick(c, "parallelism", "0", "1", "")
			old, was := *verifFanouts, pol.ParallelismEnabled
			*verifFanouts = fs
			defer func() { *verifFanouts, pol.ParallelismEnabled = old, was }()
			defer setenv(c, "TREETYPE", "DENSE")()
			defer setenv(c, "ITERATIONS", strconv.Itoa(iterations))()
			defer setenv(c, "PARALLELISM", parallel)()
			start := time.Now()
			text := quietly(verifMain)
			wall := int(time.Since(start).Milliseconds()) + 1

			get := func(what string) []int {
				at, xs := reported(c, text, what)
				for i := range fs {
					if len(at) != len(fs) || at[i] != int(fs[i]) {
						c.Fatalf("%s are reported for fan-outs %v instead of %v", what, at, fs)
					}
				}
				return xs
			}
			ppSizes, proofSizes := get("PP sizes"), get("Proof sizes")
			gens, proofs, verifies := get("PP gen times"), get("proof times"), get("verify times")
			eqs, sums := get("equality proof times"), get("sum proof times")
			veqs, vsums := get("verify equality times"), get("verify sum times")
			for i, f := range fs {
				id2Path, params := pol.GeneratePublicParams(f, pol.Dense)
				if want := params.Size() / 1024; ppSizes[i] != want {
					c.Fatalf("parameters of fan-out %d are reported to be of %d KB instead of %d", f, ppSizes[i], want)
				}
				ls := pol.NewLiabilitySet(params, h.MemDB{}, id2Path)
				ls.Set("123456789", 1)
				pol.ParallelismEnabled = was
				_, proof, _, ok := ls.ProveLiability("123456789")
				if !ok {
					c.Fatalf("no proof")
				}
				if want := proof.Size() / 1024; proofSizes[i] != want {
					c.Fatalf("proofs of fan-out %d are reported to be of %d KB instead of %d", f, proofSizes[i], want)
				}
				for _, x := range []int{gens[i], proofs[i], verifies[i], eqs[i], sums[i], veqs[i], vsums[i]} {
					if x < 0 || x > wall {
						c.Fatalf("%d ms are reported in a run of %d ms", x, wall)
					}
				}
				if eqs[i]+sums[i] > proofs[i] || veqs[i]+vsums[i] > verifies[i] {
					c.Fatalf("parts of a proof or verification take %d+%d or %d+%d ms, the whole %d or %d ms", eqs[i], sums[i], veqs[i], vsums[i], proofs[i], verifies[i])
				}
				if iterations*(proofs[i]+verifies[i]) > wall || iterations*proofs[i] == 0 {
					c.Fatalf("%d times %d and %d ms are reported in a run of %d ms", iterations, proofs[i], verifies[i], wall)
				}
			}
			c.Class("parallelism %q", parallel)
			c.Eval(true, "fan-outs %v, %d iterations", fs, iterations)
		},
	})
}

// xs0 is the first of the list, or x.
func xs0(xs []int64, x int64) int64 {
	if len(xs) == 0 {
		return x
	}
	return xs[0]
}
