// Package benchprops checks the benchmark program from inside. The program's sources and the
// registrations of what was found in them come in through an overlay (see benchgen).
package benchprops

import (
	"os"
	"path/filepath"
	"strings"

	"pol/pol"
)

type verifStore interface {
	Get(key []byte) []byte
	Put(key []byte, val []byte)
}

var (
	verifMain        func()
	verifFanouts     *[]uint16
	verifStores      = map[string]func() (verifStore, func()){}
	verifAverages    = map[string]func(xs []int64) int64{}
	verifTreeType    func() pol.TreeType
	verifIterations  func() int
	verifParallelism func()
	verifPopulate    func(n int, ls *pol.LiabilitySet, id func([]byte) string)
)

// verifOS stands in for calls of the program that remove files: they reach nothing outside the
// process's own scratch directory.
var verifOS removals

type removals struct{ refused []string }

func (r *removals) inside(path string) bool {
	cwd, err := os.Getwd()
	if err != nil {
		return false
	}
	abs, err := filepath.Abs(path)
	if err == nil && strings.HasPrefix(abs, cwd+string(filepath.Separator)) {
		return true
	}
	r.refused = append(r.refused, path)
	return false
}

func (r *removals) RemoveAll(path string) error {
	if !r.inside(path) {
		return os.ErrPermission
	}
	return os.RemoveAll(path)
}

func (r *removals) Remove(path string) error {
	if !r.inside(path) {
		return os.ErrPermission
	}
	return os.Remove(path)
}

func (r *removals) Rename(from, to string) error {
	if !r.inside(from) || !r.inside(to) {
		return os.ErrPermission
	}
	return os.Rename(from, to)
}
