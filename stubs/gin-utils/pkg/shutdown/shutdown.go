// Package shutdown stands in for gin-utils/pkg/shutdown: instead of listening on a socket and
// handling signals, Serve gives the router to the simulator, which plays the HTTP clients.
package shutdown

import "github.com/gin-gonic/gin"

// Graceful has the methods of the original that go-slog uses.
type Graceful struct{}

// OnServe receives the router.
var OnServe func(router *gin.Engine, port uint) error

// Initialize does nothing: no signals.
func (g *Graceful) Initialize() {}

// Close does nothing.
func (g *Graceful) Close() {}

// Serve hands the router over.
func (g *Graceful) Serve(router *gin.Engine, port uint) error {
	if OnServe != nil {
		return OnServe(router, port)
	}
	return nil
}
