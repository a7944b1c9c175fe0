package h

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A case that never ends, or that takes ever more memory, breaks whatever the property
// promises about its inputs. The watch ends the process with a failure in these cases. Time is
// measured in CPU seconds of this process, so that a slow or busy machine changes nothing, and
// standstill in ticks in which the process could run but did not use the CPU.
const (
	// An ordinary case takes some seconds; the longest are listed in the evidence.
	caseCPU   = 450
	stillFor  = 120 // ticks of a second
	caseBytes = 3 << 30
)

var watched struct {
	sync.Mutex
	name  string
	since float64
	wall  time.Time
	maxes map[string]float64
	rss   int64
}

// cpu returns the CPU seconds this process used.
func cpu() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// rss returns the resident bytes of this process.
func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func beginCase(name string) {
	watched.Lock()
	defer watched.Unlock()
	watched.name, watched.since, watched.wall = name, cpu(), time.Now()
}

func endCase(sub string) {
	used := cpu()
	watched.Lock()
	defer watched.Unlock()
	watched.name = ""
	if watched.maxes == nil {
		watched.maxes = map[string]float64{}
	}
	if d := used - watched.since; d > watched.maxes[sub] {
		watched.maxes[sub] = d
	}
}

func watch() {
	limit := float64(caseCPU)
	if Thorough {
		limit *= 10
	}
	last, still, n := 0.0, 0, 0
	for {
		time.Sleep(100 * time.Millisecond)
		n++
		size := rss()
		watched.Lock()
		if size > watched.rss {
			watched.rss = size
		}
		name, since := watched.name, watched.since
		watched.Unlock()
		if name == "" {
			still = 0
			continue
		}
		if size > caseBytes {
			giveUp(name, fmt.Sprintf("takes more than %d MB of memory", caseBytes>>20))
		}
		if n%10 != 0 {
			continue
		}
		now := cpu()
		if now-since > limit {
			giveUp(name, fmt.Sprintf("does not end within %.0f CPU seconds", limit))
		}
		if now-last < 0.05 {
			still++
		} else {
			still = 0
		}
		last = now
		if still > stillFor {
			giveUp(name, "waits for ever")
		}
	}
}

// giveUp fails the case if the code under test is what is running.
func giveUp(name, what string) {
	buf := make([]byte, 1<<22)
	buf = buf[:runtime.Stack(buf, true)]
	watched.Lock()
	if watched.name != name {
		watched.Unlock()
		return
	}
	fmt.Printf("the case %s\n%s\n", what, buf)
	if !strings.Contains(string(buf), "/repo/") {
		fmt.Println("not in the code under test")
		os.Exit(3)
	}
	fmt.Printf("\n    --- FAIL: %s (the case %s)\n", name, what)
	os.Exit(1)
}
