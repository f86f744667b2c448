package main

import "github.com/phoenix-tui/phoenix/terminal"

var ansi, plat = terminal.NewANSI(), terminal.New()
