package gen

import (
	"os"
	"runtime"
	"time"
)

// Hang reports that a call of the library does not return, and ends the process
func Hang() {
	os.Stderr.WriteString("HANG in the library\n")
	go func() { // stopping the world can be impossible
		time.Sleep(3 * time.Second)
		os.Exit(9)
	}()
	b := make([]byte, 1<<16)
	os.Stderr.Write(b[:runtime.Stack(b, true)])
	os.Exit(9)
}
