package props

import (
	"strings"

	"verif/harness/h"
)

// round is what a prover sends before it is challenged, and what it answers.
type round struct {
	messages, answers []string
}

func under(l h.Leaf, names []string) bool {
	for _, n := range names {
		if strings.HasPrefix(l.Pattern, n) {
			return true
		}
	}
	return false
}

// parts returns the elements of a proof below the names, by their path.
func parts(proof interface{}, names []string) map[string]string {
	res := map[string]string{}
	for _, l := range h.Elements(proof) {
		if under(l, names) {
			res[l.Path] = string(l.Bytes())
		}
	}
	return res
}

// sameParts returns a path at which two proofs are the same, and whether they differ at all.
func sameParts(a, b map[string]string) (same string, differ bool) {
	for at, x := range a {
		if b[at] == x {
			if same == "" || at < same {
				same = at
			}
		} else {
			differ = true
		}
	}
	return same, differ || len(a) != len(b)
}

// reacts checks that no answer of a prover is independent of what it was to be bound by:
// wherever other randomness changes a message, all later answers change. A challenge that
// leaves out a message would let answers stay the same. It returns the number of rounds
// in which messages changed.
func reacts(c *h.C, make func() interface{}, rounds []round, draw func(reads int) int, times int) int {
	seed := uint64(h.Int(c, "seed", 0, 1<<30))
	h.SetRand(seed)
	base := make()
	_, reads := h.Drawn()
	defer h.SetRand(seed + 1<<41)
	changed := 0
	for k := 0; k < times; k++ {
		at := draw(reads)
		h.SetRand(seed)
		h.FlipDraw(at)
		other := make()
		changed += answered(c, base, other, rounds, "random draw %d of %d", at, reads)
	}
	return changed
}

// answered checks that in each round whose messages differ, no answer is the same.
func answered(c *h.C, base, other interface{}, rounds []round, why string, args ...interface{}) int {
	changed := 0
	for _, r := range rounds {
		if _, differ := sameParts(parts(base, r.messages), parts(other, r.messages)); !differ && len(r.messages) > 0 {
			continue
		}
		changed++
		a := parts(base, r.answers)
		if len(a) == 0 {
			c.Class("unknown structure")
			continue
		}
		if same, _ := sameParts(a, parts(other, r.answers)); same != "" {
			what := strings.Join(r.messages, " or ")
			if what == "" {
				what = "the statement"
			}
			c.Fatalf("%s does not react to another %s ("+why+")", append([]interface{}{same, what}, args...)...)
		}
	}
	return changed
}
