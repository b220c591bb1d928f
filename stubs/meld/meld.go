// Package meld stands in for a module that cannot be fetched here.
// Nothing in the simulated components depends on what it does: it only passes calls on.
package meld

import "log/slog"

// NewHandler returns the handler unchanged.
func NewHandler(h slog.Handler) slog.Handler { return h }
