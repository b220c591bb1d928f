// Package handler stands in for gin-utils/pkg/handler.
package handler

import "github.com/gin-gonic/gin"

// Exit would end the process; the simulator only counts the call.
func Exit(c *gin.Context) {
	Exits++
	c.String(200, "Exiting")
}

// Exits counts calls.
var Exits int
