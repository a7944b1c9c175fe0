package h

import (
	"fmt"
	"strconv"
	"strings"
	"sync"

	math "github.com/IBM/mathlib"

	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
)

var (
	ppCache   = map[string]*pol.PublicParams{}
	ppDense   = map[int]func(string) []uint16{}
	ppPrints  = map[string]string{}
	vcCache   = map[string]*pp.PP{}
	cacheLock sync.Mutex
)

// setup is the number of the trusted setup whose parameters the case at hand uses.
// Parameters of the same size from several setups take turns in every process.
var setup int

// NextSetup draws the setup whose parameters are used from here on.
func NextSetup(c *C) {
	setup = 0
	if Int(c, "setup", 0, 3) == 3 {
		setup = 1
	}
}

// Setup returns the number of the setup in use.
func Setup() int { return setup }

// setupOf returns the setup to use for a fan-out: there is only one for those whose
// parameters take long to make.
func setupOf(fanOut int) int {
	if fanOut > 15 {
		return 0
	}
	return setup
}

// PP returns generated public parameters of the given fan-out and their dense mapping.
func PP(fanOut int) (*pol.PublicParams, func(string) []uint16) {
	n := setupOf(fanOut)
	key := fmt.Sprintf("dense/%d/%d", fanOut, n)
	if _, ok := ppCache[key]; !ok {
		withRand(uint64(Seed)<<20+uint64(fanOut)+uint64(n)<<40, func() {
			id2Path, params := pol.GeneratePublicParams(uint16(fanOut), pol.Dense)
			ppCache[key] = params
			ppDense[fanOut] = id2Path
		})
		ppPrints[key] = Fingerprint(ppCache[key])
	}
	return ppCache[key], ppDense[fanOut]
}

// ShortPP returns public parameters for identifier mappings of a caller, whose
// paths have the given depth.
func ShortPP(fanOut, depth int) *pol.PublicParams {
	key := fmt.Sprintf("short/%d/%d/%d", fanOut, depth, setupOf(fanOut))
	if _, ok := ppCache[key]; !ok {
		base, _ := PP(fanOut)
		m := 2
		for m < depth-1 {
			m *= 2
		}
		params := *base
		params.POEPP = &poe.PP{
			PP: base.PPPP,
			G:  common.RandGenVec(m, "POE G"),
			H:  common.RandGenVec(m, "POE H"),
			F:  common.RandGenVec(1, "POE F")[0],
		}
		params.POEPP.SetupDigest()
		ppCache[key] = &params
		ppPrints[key] = Fingerprint(&params)
	}
	return ppCache[key]
}

// FreshPP generates parameters like those of ShortPP, which nothing has used.
func FreshPP(fanOut, depth int) *pol.PublicParams {
	_, params := pol.GeneratePublicParams(uint16(fanOut), pol.Dense)
	own := ShortPP(fanOut, depth).POEPP
	params.POEPP = &poe.PP{PP: params.PPPP, G: own.G, H: own.H, F: own.F}
	params.POEPP.SetupDigest()
	return params
}

// OtherPP returns parameters of the same fan-out as ShortPP from another setup.
func OtherPP(fanOut, depth int) *pol.PublicParams {
	key := fmt.Sprintf("other/%d/%d/%d", fanOut, depth, setupOf(fanOut))
	if _, ok := ppCache[key]; !ok {
		withRand(uint64(Seed)<<20+uint64(fanOut)+uint64(setupOf(fanOut))<<40+1<<50, func() {
			_, params := pol.GeneratePublicParams(uint16(fanOut), pol.Dense)
			own := ShortPP(fanOut, depth).POEPP
			params.POEPP = &poe.PP{PP: params.PPPP, G: own.G, H: own.H, F: own.F}
			params.POEPP.SetupDigest()
			ppCache[key] = params
		})
	}
	return ppCache[key]
}

// PPUnchanged returns the first cached parameters which were modified since they were made.
func PPUnchanged() error {
	for k, print := range ppPrints {
		if Fingerprint(ppCache[k]) != print {
			return fmt.Errorf("public parameters %s were modified", k)
		}
	}
	return nil
}

// VC returns vector commitment parameters of size n; instances are separate setups.
func VC(n, instance int) *pp.PP {
	instance += 16 * setup
	key := fmt.Sprintf("%d/%d", n, instance)
	if _, ok := vcCache[key]; !ok {
		withRand(uint64(Seed)<<30+uint64(n)<<8+uint64(instance), func() {
			vcCache[key] = pp.NewPublicParams(n)
		})
	}
	return vcCache[key]
}

// PathID is an identifier of the mapping Path.
func PathID(path []uint16) string {
	s := make([]string, len(path))
	for i, p := range path {
		s[i] = strconv.Itoa(int(p))
	}
	return strings.Join(s, ".")
}

// Path maps identifiers such as "1.0.2" to paths.
func Path(id string) []uint16 {
	parts := strings.Split(id, ".")
	res := make([]uint16, len(parts))
	for i, p := range parts {
		n, err := strconv.Atoi(p)
		if err != nil {
			panic("malformed identifier " + id)
		}
		res[i] = uint16(n)
	}
	return res
}

// MemDB is an in-memory store that returns exactly what was put.
type MemDB map[string][]byte

// Get returns the last bytes put.
func (m MemDB) Get(k []byte) []byte { return m[string(k)] }

// Put stores bytes.
func (m MemDB) Put(k, v []byte) { m[string(k)] = v }

// Set is a liability set with its model.
type Set struct {
	*pol.LiabilitySet
	PP      *pol.PublicParams
	ID2Path func(string) []uint16
	Model   map[string]int64
	Store   MemDB
	Order   []string
}

// NewSet makes an empty set.
func NewSet(params *pol.PublicParams, id2Path func(string) []uint16) *Set {
	db := MemDB{}
	return &Set{
		LiabilitySet: pol.NewLiabilitySet(params, db, id2Path),
		PP:           params,
		ID2Path:      id2Path,
		Model:        map[string]int64{},
		Store:        db,
	}
}

// Put assigns in the set and in the model.
func (s *Set) Put(id string, v int64) {
	s.LiabilitySet.Set(id, v)
	if _, ok := s.Model[id]; !ok {
		s.Order = append(s.Order, id)
	}
	s.Model[id] = v
}

// Total is the model's sum.
func (s *Set) Total() int64 {
	var t int64
	for _, v := range s.Model {
		t += v
	}
	return t
}

// Room is how much the liability of an identifier may be at most.
func (s *Set) Room(id string) int64 {
	const max = 1<<63 - 1
	return max - (s.Total() - s.Model[id])
}

// VerifyLiability verifies a proof against a root; panics are turned into errors only
// where the caller asks for it.
func VerifyLiability(proof pol.LiabilityProof, params *pol.PublicParams, id string, V, W *math.G1, id2Path func(string) []uint16) error {
	_, err := proof.Verify(params, id, V, W, id2Path)
	return err
}
