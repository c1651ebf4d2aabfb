//go:build race

package vsync

import (
	"runtime"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// This package is compiled without race instrumentation, and the gate hands
// control over through a futex, so that the scheduler's own ordering of the
// threads is invisible to the race detector: it sees only the happens-before
// edges of the locks, reported by acquire and release.

type gate struct{ v uint32 }

func newGate() *gate { return &gate{} }

const (
	futexWait = 0 | 128
	futexWake = 1 | 128
)

func (g *gate) wait() {
	for !atomic.CompareAndSwapUint32(&g.v, 1, 0) {
		syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(&g.v)), futexWait, 0, 0, 0, 0)
	}
}

func (g *gate) signal() {
	atomic.StoreUint32(&g.v, 1)
	syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(&g.v)), futexWake, 1, 0, 0, 0)
}

func acquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func release(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// Race tells whether the race detector watches this build.
const Race = true

// Races counts the data races seen so far.
func Races() int { return runtime.RaceErrors() }
