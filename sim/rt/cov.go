package rt

import (
	"fmt"
	"os"
)

var cov [1 << 17]bool

// Cov is inserted before statements when coverage is asked for (ZZCOV).
func Cov(n int) { cov[n] = true }

// WriteCov appends the statements executed by this process to a file.
func WriteCov() {
	d := os.Getenv("ZZCOVDIR")
	if d == "" {
		return
	}
	f, err := os.Create(fmt.Sprintf("%s/%d", d, os.Getpid()))
	if err != nil {
		return
	}
	defer f.Close()
	for n, b := range cov {
		if b {
			fmt.Fprintln(f, n)
		}
	}
}
