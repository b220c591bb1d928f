// Command zsim_handlers runs the simulations of the log handlers.
package main

import (
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zhandlers"
)

func main() { zcore.Main(zhandlers.Props) }
