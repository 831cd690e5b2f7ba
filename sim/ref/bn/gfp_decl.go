
package bn

// This file contains forward declarations for the architecture-specific
// assembly implementations of these functions, provided that they exist.

import (
)

//nolint:varcheck
var hasBMI2 = false

// go:noescape
func gfpNeg(c, a *gfP)

//go:noescape
func gfpAdd(c, a, b *gfP)

//go:noescape
func gfpSub(c, a, b *gfP)

//go:noescape
func gfpMul(c, a, b *gfP)
