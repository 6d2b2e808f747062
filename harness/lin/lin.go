// Package lin holds the linearizability model.
package lin

import _ "github.com/anishathalye/porcupine"
