// Package zzv gives the check access to the form's validators.
package zzv

import "github.com/phoenix-tui/phoenix/components/form/internal/domain/value"

type (
	FieldModel = value.FieldModel
	Validator  = value.Validator
)

var (
	Required  = value.Required
	MinLength = value.MinLength
	MaxLength = value.MaxLength
	Email     = value.Email
	Pattern   = value.Pattern
	Custom    = value.Custom
)
