// Package zzv makes key handlers, which need types from an internal package.
package zzv

import (
	"github.com/phoenix-tui/phoenix/components/input"
	"github.com/phoenix-tui/phoenix/components/input/internal/input/domain/model"
	"github.com/phoenix-tui/phoenix/tea"
)

// Custom returns bindings with two handlers: F2 replaces the text, F3 moves
// the cursor only; the second also handles F2, which must not matter.
func Custom() input.KeyBindingHandler {
	return input.CustomKeyBindings(
		func(in model.TextInput, msg tea.KeyMsg) model.TextInput {
			if msg.Type == tea.KeyF2 {
				return in.SetContent("custom", 2)
			}
			return in
		},
		func(in model.TextInput, msg tea.KeyMsg) model.TextInput {
			switch msg.Type {
			case tea.KeyF3:
				return in.MoveHome()
			case tea.KeyF2:
				return in.SetContent("second handler", 5)
			}
			return in
		})
}
