// Package zzv makes key bindings, whose type is in an internal package.
package zzv

import "github.com/phoenix-tui/phoenix/components/list/internal/infrastructure"

// Bindings returns a binding per pair of a key and an action.
func Bindings(pairs ...[2]string) []infrastructure.KeyBinding {
	var out []infrastructure.KeyBinding
	for _, p := range pairs {
		out = append(out, infrastructure.KeyBinding{Key: p[0], Action: p[1]})
	}
	return out
}
