// Package auto is called before each statement of the concurrent algorithms, in monitors
// that are built with instrumented copies of them (see tools/instr).
package auto

// Fn is called at each statement if it is not nil. It must be set during initialisation.
var Fn func()

// At marks a statement.
func At() {
	if Fn != nil {
		Fn()
	}
}
