// Package zzv makes key bindings, whose type is in an internal package.
package zzv

import "github.com/phoenix-tui/phoenix/components/modal/internal/infrastructure"

// Keys returns the given bindings.
func Keys(closing, next, previous, activate []string) infrastructure.KeyBindings {
	return infrastructure.KeyBindings{Close: closing, NextButton: next, PreviousButton: previous, ActivateButton: activate}
}
