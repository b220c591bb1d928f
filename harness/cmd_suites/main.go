// Command zsim_suites runs the simulations of the test suites and what they are made of.
package main

import (
	"os"
	"testing"

	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsuites"
)

func main() {
	testing.Init() // Else nothing can be logged by a test.
	if len(os.Args) > 1 && os.Args[1] == "explore" {
		zsuites.Explore()
		return
	}
	zcore.Main(zsuites.Props)
}
