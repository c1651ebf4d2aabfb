//go:build !race

package vsync

// gate parks one thread until it is signalled.
type gate struct{ ch chan struct{} }

func newGate() *gate { return &gate{make(chan struct{}, 1)} }

func (g *gate) wait() { <-g.ch }
func (g *gate) signal() {
	select {
	case g.ch <- struct{}{}:
	default:
	}
}

func acquire(*byte) {}
func release(*byte) {}

// Race tells whether the race detector watches this build.
const Race = false

// Races counts the data races seen so far.
func Races() int { return 0 }
