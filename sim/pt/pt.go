// Package pt holds the preemption point that the source instrumentation puts
// before every statement of the packages under test.
package pt

// P is implemented by the runtime overlay.
func P()
