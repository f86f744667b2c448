// Package zzv makes key bindings, whose type is in an internal package.
package zzv

import "github.com/phoenix-tui/phoenix/components/table/internal/infrastructure"

// Keys returns the given bindings.
func Keys(up, down, pageUp, pageDown, home, end, clearSort []string) infrastructure.KeyBindings {
	return infrastructure.KeyBindings{Up: up, Down: down, PageUp: pageUp, PageDown: pageDown, Home: home, End: end, ClearSort: clearSort}
}
