// Command zsim_web runs the simulations of everything but the log handlers.
package main

import (
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zweb"
)

func main() { zcore.Main(zweb.Props) }
