// Package boot fixes what packages read from the process when they are
// initialised. Packages are initialised in the order of their paths as far as their
// imports allow, so this one precedes the code under test.
package boot

import (
	crand "crypto/rand"
	"os"
	_ "unsafe"

	"github.com/rs/xid"
)

//go:linkname xidCounter github.com/rs/xid.objectIDCounter
var xidCounter uint32

//go:linkname xidPid github.com/rs/xid.pid
var xidPid int

//go:linkname xidMachine github.com/rs/xid.machineID
var xidMachine []byte

var _ = xid.New

type reader struct{ s uint64 }

func (d *reader) Read(p []byte) (int, error) {
	for i := range p {
		d.s = d.s*6364136223846793005 + 1442695040888963407
		p[i] = byte(d.s >> 33)
	}
	return len(p), nil
}

// Stdout and Stderr are the streams of the process. Where simulations run,
// os.Stdout and os.Stderr lead nowhere: the default loggers of the repository
// write to them.
var Stdout, Stderr = os.Stdout, os.Stderr

func init() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "worker", "replay", "shrink", "one":
			if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
				os.Stdout, os.Stderr = f, f
			}
		}
	}
	xidCounter, xidPid, xidMachine = 500, 77, []byte{1, 2, 3}
	crand.Reader = &reader{1}
}
