package h

import (
	"crypto/aes"
	"crypto/cipher"
	crand "crypto/rand"
	"encoding/binary"
	"errors"
	"io"
	"runtime"
	"strings"
	"sync"

	math "github.com/IBM/mathlib"
)

// drbg is the deterministic source of every random scalar the code under test draws.
type drbg struct {
	mu     sync.Mutex
	stream cipher.Stream
	drawn  int // bytes drawn
	fail   bool
	budget int // bytes until failing, if fail
	flip   int // index of the draw to alter, or -1
	draws  int
	record bool
	log    [][]byte
	replay []byte
	// owner is the goroutine that recorded; foreign tells if another one drew
	owner   string
	foreign bool
	// equal makes all draws of a size the same, so that their order does not matter
	equal bool
	seed  uint64
}

var rnd = &drbg{flip: -1}

var realRand io.Reader

func newStream(seed uint64, domain byte) cipher.Stream {
	var key [16]byte
	binary.BigEndian.PutUint64(key[:], seed)
	key[15] = domain
	b, err := aes.NewCipher(key[:])
	if err != nil {
		panic(err)
	}
	return cipher.NewCTR(b, make([]byte, 16))
}

func installRand() {
	realRand = crand.Reader
	rnd.stream = newStream(0, 0)
	crand.Reader = rnd
}

func (d *drbg) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.replay != nil {
		return copy(p, d.replay), nil
	}
	if d.fail {
		if d.budget < len(p) {
			return 0, errors.New("no randomness")
		}
		d.budget -= len(p)
	}
	for i := range p {
		p[i] = 0
	}
	if d.record && goroutine() != d.owner {
		d.foreign = true
	}
	if d.equal {
		d.stream = newStream(d.seed, 3)
	}
	d.stream.XORKeyStream(p, p)
	if d.draws == d.flip && len(p) > 0 {
		p[0] ^= 0x55
		p[len(p)-1] ^= 0x55
	}
	if d.record {
		d.log = append(d.log, append([]byte{}, p...))
	}
	d.draws++
	d.drawn += len(p)
	return len(p), nil
}

// SetRand restarts the randomness of the process.
func SetRand(seed uint64) {
	rnd.mu.Lock()
	defer rnd.mu.Unlock()
	rnd.stream = newStream(seed, 1)
	rnd.seed, rnd.equal = seed, false
	rnd.drawn, rnd.draws = 0, 0
	rnd.fail, rnd.flip = false, -1
	rnd.record, rnd.log = false, nil
}

// RecordDraws keeps what is drawn until the next SetRand.
func RecordDraws() {
	rnd.mu.Lock()
	defer rnd.mu.Unlock()
	rnd.record, rnd.log = true, nil
	rnd.owner, rnd.foreign = goroutine(), false
}

// EqualDraws makes all draws until the next SetRand the same.
func EqualDraws() {
	rnd.mu.Lock()
	defer rnd.mu.Unlock()
	rnd.equal = true
}

// DrawnElsewhere tells if another goroutine drew since RecordDraws, so that the order
// of draws may differ from one run to another.
func DrawnElsewhere() bool {
	rnd.mu.Lock()
	defer rnd.mu.Unlock()
	return rnd.foreign
}

// goroutine names the current goroutine.
func goroutine() string {
	var buf [64]byte
	f := strings.Fields(string(buf[:runtime.Stack(buf[:], false)]))
	if len(f) < 2 {
		return ""
	}
	return f[1]
}

// DrawnScalars returns the scalars made of the recorded draws.
func DrawnScalars() []*math.Zr {
	rnd.mu.Lock()
	log := rnd.log
	rnd.mu.Unlock()
	var res []*math.Zr
	for _, b := range log {
		if len(b) != 32 {
			continue
		}
		rnd.mu.Lock()
		rnd.replay = b
		rnd.mu.Unlock()
		res = append(res, Curve.NewRandomZr(crand.Reader))
	}
	rnd.mu.Lock()
	rnd.replay = nil
	rnd.mu.Unlock()
	return res
}

// FlipDraw alters the n-th draw counted from the last SetRand.
func FlipDraw(n int) {
	rnd.mu.Lock()
	defer rnd.mu.Unlock()
	rnd.flip = n
}

// FailRandAfter makes the source fail once n more bytes are drawn.
func FailRandAfter(n int) {
	rnd.mu.Lock()
	defer rnd.mu.Unlock()
	rnd.fail, rnd.budget = true, n
}

// Drawn returns the number of bytes and of reads since the last SetRand.
func Drawn() (bytes, reads int) {
	rnd.mu.Lock()
	defer rnd.mu.Unlock()
	return rnd.drawn, rnd.draws
}

// withRand runs f on a stream of its own, leaving the current one where it was.
func withRand(seed uint64, f func()) {
	rnd.mu.Lock()
	saved := *(&rnd.stream)
	drawn, draws, fail, budget, flip := rnd.drawn, rnd.draws, rnd.fail, rnd.budget, rnd.flip
	rnd.stream = newStream(seed, 2)
	rnd.fail, rnd.flip = false, -1
	rnd.mu.Unlock()
	defer func() {
		rnd.mu.Lock()
		rnd.stream = saved
		rnd.drawn, rnd.draws, rnd.fail, rnd.budget, rnd.flip = drawn, draws, fail, budget, flip
		rnd.mu.Unlock()
	}()
	f()
}
