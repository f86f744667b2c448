#!/usr/bin/env python3
"""Writes lib/vk/eaw.go: the East Asian Width and zero-width tables of the Unicode
data that ships with Python (an oracle independent of the repository's tables)."""
import os, unicodedata
def ranges(f):
    out, s = [], None
    for c in range(0x110001):
        v = c < 0x110000 and not 0xD800 <= c <= 0xDFFF and f(chr(c))
        if v and s is None: s = c
        if not v and s is not None: out.append((s, c - 1)); s = None
    return out
wide = ranges(lambda c: unicodedata.east_asian_width(c) in "WF")
zero = ranges(lambda c: unicodedata.category(c) in ("Mn", "Me"))
amb = ranges(lambda c: unicodedata.east_asian_width(c) == "A")
una = ranges(lambda c: unicodedata.category(c) in ("Cn", "Co", "Cs", "Cc", "Cf", "Zl", "Zp"))
def emit(name, doc, rs):
    return "// %s %s\nvar %s = [][2]rune{\n%s}\n" % (name, doc, name, "".join("\t{0x%x, 0x%x},\n" % r for r in rs))
src = "package vk\n\n// Generated by tools/geneaw.py from Unicode %s.\n\n" % unicodedata.unidata_version
src += "\n".join([emit("EAWWide", "are the code points of East Asian Width W or F.", wide), emit("CombiningMarks", "are the code points of category Mn or Me.", zero),
  emit("EAWAmbiguous", "are the code points of East Asian Width A.", amb), emit("NotGraphic", "are the unassigned, private, control and format code points.", una)])
src += """
// InRanges reports whether r is in the sorted table.
func InRanges(t [][2]rune, r rune) bool {
	lo, hi := 0, len(t)
	for lo < hi {
		m := (lo + hi) / 2
		switch {
		case r < t[m][0]:
			hi = m
		case r > t[m][1]:
			lo = m + 1
		default:
			return true
		}
	}
	return false
}
"""
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "vk", "eaw.go"), "w").write(src)
