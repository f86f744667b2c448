// C29: every short text over the characters special to either format, with
// every style, encoded, read by an independent reader of the format, decoded
// and converted; every character on its own; every short malformed document.
package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/phoenix-tui/phoenix/clipboard"
	"github.com/phoenix-tui/phoenix/clipboard/internal/application"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/service"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
	"github.com/phoenix-tui/phoenix/clipboard/zzverif/vk"
)

type styles = value.TextStyles

// readHTML is an independent reader of the small HTML the codec writes: the
// text, and the styles which every character of it has.
func readHTML(doc string) (string, styles, error) {
	var out strings.Builder
	var open []string
	var st styles
	color := ""
	first := true
	for i := 0; i < len(doc); {
		switch c := doc[i]; {
		case c == '<':
			e := strings.IndexByte(doc[i:], '>')
			if e < 0 {
				return "", st, fmt.Errorf("unterminated tag")
			}
			tag := doc[i+1 : i+e]
			i += e + 1
			if strings.HasPrefix(tag, "/") {
				if len(open) == 0 || open[len(open)-1] != tag[1:] {
					return "", st, fmt.Errorf("tag %q closes nothing", tag)
				}
				open = open[:len(open)-1]
				continue
			}
			name, attr, _ := strings.Cut(tag, " ")
			open = append(open, name)
			if attr != "" {
				a := strings.NewReplacer(" ", "", `"`, "", "'", "", ";", "").Replace(attr)
				if name != "span" || !strings.HasPrefix(a, "style=color:") {
					return "", st, fmt.Errorf("unknown attribute %q", attr)
				}
				color = a[len("style=color:"):]
			}
			continue
		default:
			now := styles{}
			for _, t := range open {
				switch t {
				case "strong", "b":
					now.Bold = true
				case "em", "i":
					now.Italic = true
				case "u":
					now.Underline = true
				case "span":
					now.Color = color
				}
			}
			if !first && !now.Equals(st) {
				return "", st, fmt.Errorf("the style changes inside the text")
			}
			first, st = false, now
			if c != '&' {
				out.WriteByte(c)
				i++
				continue
			}
			e := strings.IndexByte(doc[i:], ';')
			if e < 0 {
				return "", st, fmt.Errorf("bare ampersand")
			}
			ent := doc[i+1 : i+e]
			i += e + 1
			switch {
			case ent == "amp":
				out.WriteByte('&')
			case ent == "lt":
				out.WriteByte('<')
			case ent == "gt":
				out.WriteByte('>')
			case ent == "quot":
				out.WriteByte('"')
			case ent == "apos":
				out.WriteByte('\'')
			case strings.HasPrefix(ent, "#x"):
				n, err := strconv.ParseInt(ent[2:], 16, 32)
				if err != nil {
					return "", st, err
				}
				out.WriteRune(rune(n))
			case strings.HasPrefix(ent, "#"):
				n, err := strconv.Atoi(ent[1:])
				if err != nil {
					return "", st, err
				}
				out.WriteRune(rune(n))
			default:
				return "", st, fmt.Errorf("unknown entity %q", ent)
			}
		}
	}
	if len(open) > 0 {
		return "", st, fmt.Errorf("tags left open: %v", open)
	}
	return out.String(), st, nil
}

// readRTF is an independent reader of RTF.
func readRTF(doc string) (string, styles, error) {
	if !strings.HasPrefix(doc, `{\rtf1`) {
		return "", styles{}, fmt.Errorf("no header")
	}
	var st, now styles
	var out strings.Builder
	var units []uint16
	var colors []string
	first := true
	flush := func() {
		if len(units) > 0 {
			out.WriteString(string(utf16.Decode(units)))
			units = nil
		}
	}
	mixed := false
	char := func() {
		if !first && now != st {
			mixed = true
		}
		first, st = false, now
	}
	depth, table, skip := 0, -1, 0
	cur := [3]int{-1, -1, -1}
	i := 0
	for i < len(doc) {
		switch c := doc[i]; {
		case c == '{':
			depth++
			i++
		case c == '}':
			if depth--; depth < 0 {
				return "", st, fmt.Errorf("a group closes too often")
			}
			if table > depth {
				table = -1
			}
			i++
		case c == '\r' || c == '\n':
			i++
		case c == '\\':
			if i++; i >= len(doc) {
				return "", st, fmt.Errorf("ends in a backslash")
			}
			if strings.IndexByte("\\{}", doc[i]) >= 0 {
				if skip > 0 {
					skip--
				} else {
					flush()
					char()
					out.WriteByte(doc[i])
				}
				i++
				continue
			}
			s := i
			for i < len(doc) && (doc[i] >= 'a' && doc[i] <= 'z' || doc[i] >= 'A' && doc[i] <= 'Z') {
				i++
			}
			word := doc[s:i]
			if word == "" {
				return "", st, fmt.Errorf("unknown symbol %q", doc[s:])
			}
			s = i
			if i < len(doc) && doc[i] == '-' {
				i++
			}
			for i < len(doc) && doc[i] >= '0' && doc[i] <= '9' {
				i++
			}
			par, has := 0, i > s
			if has {
				par, _ = strconv.Atoi(doc[s:i])
			}
			if i < len(doc) && doc[i] == ' ' {
				i++
			}
			on := !has || par != 0
			switch word {
			case "b":
				now.Bold = on
			case "i":
				now.Italic = on
			case "ul":
				now.Underline = on
			case "ulnone":
				now.Underline = false
			case "cf":
				now.Color = ""
				if par > 0 {
					if par >= len(colors) {
						return "", st, fmt.Errorf("colour %d is not in the table", par)
					}
					now.Color = colors[par]
				}
			case "colortbl":
				table = depth
			case "red", "green", "blue":
				cur[strings.Index("r g b ", word[:1])/2] = par
			case "u":
				char()
				units = append(units, uint16(int16(par)))
				if par > 32767 || par < -32768 {
					return "", st, fmt.Errorf("\\u%d is out of range", par)
				}
				skip = 1
			case "line", "par":
				flush()
				char()
				out.WriteByte('\n')
			case "tab":
				flush()
				char()
				out.WriteByte('\t')
			case "rtf", "ansi", "deff", "uc", "plain", "pard":
			default:
				return "", st, fmt.Errorf("unknown word %q", word)
			}
		default:
			_, n := utf8.DecodeRuneInString(doc[i:])
			switch {
			case table >= 0:
				if c == ';' {
					if cur[0] < 0 {
						colors = append(colors, "")
					} else {
						colors = append(colors, fmt.Sprintf("#%02X%02X%02X", cur[0], cur[1], cur[2]))
					}
					cur = [3]int{-1, -1, -1}
				}
			case skip > 0:
				skip--
			default:
				if n > 1 {
					return "", st, fmt.Errorf("a character that is not ASCII: %q", doc[i:i+n])
				}
				flush()
				char()
				out.WriteString(doc[i : i+n])
			}
			i += n
		}
	}
	flush()
	if depth != 0 {
		return "", st, fmt.Errorf("%d groups left open", depth)
	}
	if mixed {
		return "", st, fmt.Errorf("the style changes inside the text")
	}
	return out.String(), st, nil
}

var codec = service.NewRichTextCodec()

type reader func(string) (string, styles, error)

// one encodes text with a style in both formats and decodes it every way.
func one(c *vk.C, text string, st styles) {
	c.Evals.Add(1)
	noCR := strings.ReplaceAll(text, "\r", "") // RTF has no carriage return of its own
	var label, doc string
	diff := func(how string, want string, f reader, d string) {
		var got string
		var gs styles
		var err error
		p := vk.Guard(func() { got, gs, err = f(d) })
		ws := st
		if want == "" {
			ws = styles{}
			gs = ws // nothing carries the style
		}
		if p != "" || err != nil || got != want || !gs.Equals(ws) {
			c.Fail(label+" "+how, fmt.Sprintf("%s of %q, %s, %s: %q, %s, error %v%s; encoded as %q", label, text, st, how, got, gs, err, p, doc), []any{text, st.String()})
		}
	}
	var html, rtf string
	var err error
	if p := vk.Guard(func() { html, err = codec.EncodeHTML(text, st) }); p != "" || err != nil {
		c.Fail("HTML", fmt.Sprintf("encoding %q, %s: %v%s", text, st, err, p), text)
		return
	}
	label, doc = "HTML", html
	diff("read independently", text, readHTML, html)
	diff("decoded", text, codec.DecodeHTML, html)
	diff("stripped", text, func(d string) (string, styles, error) { t, e := codec.StripHTMLTags(d); return t, st, e }, html)
	if p := vk.Guard(func() { rtf, err = codec.EncodeRTF(text, st) }); p != "" || err != nil {
		c.Fail("RTF", fmt.Sprintf("encoding %q, %s: %v%s", text, st, err, p), text)
		return
	}
	if text == "" {
		return
	}
	label, doc = "RTF", rtf
	diff("read independently", noCR, readRTF, rtf)
	diff("decoded", noCR, codec.DecodeRTF, rtf)
	diff("stripped", noCR, func(d string) (string, styles, error) { t, e := codec.StripRTFFormatting(d); return t, st, e }, rtf)
	label, doc = "HTML to RTF", html
	diff("decoded", noCR, func(d string) (string, styles, error) {
		r, e := codec.HTMLToRTF(d)
		if e != nil {
			return "", styles{}, e
		}
		return readRTF(r)
	}, html)
	label, doc = "RTF to HTML", rtf
	diff("decoded", noCR, func(d string) (string, styles, error) {
		r, e := codec.RTFToHTML(d)
		if e != nil {
			return "", styles{}, e
		}
		return readHTML(r)
	}, rtf)
	c.States.Add(1)
	c.Transitions.Add(8)
}

var alphabet = []string{"a", " ", "<", ">", "&", "\"", "'", ";", "#", "\\", "{", "}", "\n", "\r", "\t", "\x00", "é", "世", "😀", "\ufffd", "\u8000", "b", "u", "0", "-", "?", "/", "1"}

// longer pieces that look like markup
var words = []string{"<b>", "</strong>", "<u>", "<em>", "&amp;", "&#34;", "&lt", "&nbsp;", "<span style=\"color:#123456\">", "style=\"color:#123456\"", "\\b ", "\\b0 ", "\\i", "\\ul ", "\\line", "\\par", "\\u233?", "\\u-1?", "\\cf1 ", "{\\rtf1", "{\\colortbl ;\\red1\\green2\\blue3;}", "\\colortbl", "\\\\", "\\{", "\\'e9", "x y", "é ", " \n", "\n\n", "?"}

func allStyles(colors []string) []styles {
	var l []styles
	for m := 0; m < 8; m++ {
		for _, col := range append([]string{""}, colors...) {
			l = append(l, styles{Bold: m&1 != 0, Italic: m&2 != 0, Underline: m&4 != 0, Color: col})
		}
	}
	return l
}

func texts(c *vk.C, name string, al []string, n int, sts []styles) {
	total := 1
	for i := 0; i < n; i++ {
		total *= len(al)
	}
	done := c.Parallel(total, func(code int) {
		t := ""
		for i, v := 0, code; i < n; i, v = i+1, v/len(al) {
			t += al[v%len(al)]
		}
		for _, st := range sts {
			one(c, t, st)
		}
	})
	c.Part("%s: %d texts of %d pieces in %d styles", name, done, n, len(sts))
	if done < total {
		c.Partial("%s", name)
	}
	c.Outcome(name)
}

// store is a clipboard that keeps its text.
type store struct{ text string }

func (s *store) Read() (*model.ClipboardContent, error) { return model.NewTextContent(s.text) }
func (s *store) Write(c *model.ClipboardContent) error  { s.text = string(c.Data()); return nil }
func (s *store) IsAvailable() bool                      { return true }
func (s *store) Name() string                           { return "store" }

// through the clipboard itself
func through(c *vk.C, ts []string, sts []styles) {
	s := &store{}
	cl, err := clipboard.NewBuilder().WithOSC52(false).WithNative(false).WithProvider(s).Build()
	m, err2 := application.NewClipboardManagerWithProviders([]service.Provider{s})
	if err != nil || err2 != nil {
		c.Fail("setup", fmt.Sprint(err, err2), nil)
		return
	}
	for _, t := range ts {
		noCR := strings.ReplaceAll(t, "\r", "")
		for _, st := range sts {
			c.Evals.Add(1)
			bad := func(what string, got any, err error) {
				c.Fail("clipboard", fmt.Sprintf("%q, %s: %s gave %q, %v", t, st, what, got, err), t)
			}
			if err := m.WriteStyledText(t, st); err != nil {
				bad("writing", "", err)
				continue
			}
			if g, gs, err := m.ReadStyledText(); err != nil || g != t || !gs.Equals(st) {
				bad("reading ("+gs.String()+")", g, err)
			}
			html := s.text
			if g, err := cl.ReadHTML(); err != nil || g != html {
				bad("ReadHTML", g, err)
			}
			if g, err := cl.ReadHTMLAsPlainText(); err != nil || g != t {
				bad("ReadHTMLAsPlainText", g, err)
			}
			rtf, err := cl.ConvertHTMLToRTF(html)
			if err != nil {
				bad("ConvertHTMLToRTF", rtf, err)
				continue
			}
			if noCR == "" {
				continue
			}
			if err := cl.WriteRTF(rtf); err != nil {
				bad("WriteRTF", rtf, err)
			}
			if g, err := cl.ReadRTFAsPlainText(); err != nil || g != noCR {
				bad("ReadRTFAsPlainText", g, err)
			}
			if g, err := cl.ConvertRTFToHTML(rtf); err != nil {
				bad("ConvertRTFToHTML", g, err)
			} else if x, xs, err := readHTML(g); err != nil || x != noCR || !xs.Equals(st) {
				bad("ConvertRTFToHTML ("+xs.String()+")", g, err)
			}
		}
	}
	c.Part("%d texts in %d styles through the clipboard", len(ts), len(sts))
}

func main() {
	vk.Main("C29", "model_checking", 0, func(c *vk.C) {
		few := []string{"#FF0000", "#0a0b0c"}
		texts(c, "empty and single pieces", append(append([]string{""}, alphabet...), words...), 1, allStyles(few))
		texts(c, "pairs of pieces", append(append([]string{}, alphabet...), words...), 2, allStyles(few))
		texts(c, "triples of characters", alphabet, 3, allStyles(vk.Pick(c, few[:1], few)))
		texts(c, "triples with markup", append(append([]string{}, alphabet[:3]...), words...), 3, vk.Pick(c, allStyles(nil)[:1], allStyles(few)))
		if c.Thorough() {
			texts(c, "quadruples of characters", alphabet, 4, []styles{{}, {Bold: true, Color: "#00FF7F"}})
		}
		// long texts: one piece, and all of them in turn, up to sizes around powers of two and of ten
		pieces := append(append([]string{}, alphabet...), words...)
		sizes := []int{9, 10, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 4095, 4096, vk.Pick(c, 9000, 70000)}
		c.Parallel(len(pieces), func(i int) {
			for k, n := range sizes {
				st := allStyles(few)[(i*5+k)%24]
				one(c, strings.Repeat(pieces[i], n), st)
				var b strings.Builder
				for j := 0; j < n; j++ {
					b.WriteString(pieces[(i+j*(k+1))%len(pieces)])
				}
				one(c, b.String(), st)
			}
		})
		c.Part("long texts: %d pieces repeated, and all pieces in turn, %d sizes up to %d pieces", len(pieces), len(sizes), sizes[len(sizes)-1])
		// every character on its own and next to another
		c.Parallel(0x110, func(p int) {
			for k := 0; k < 0x1000; k++ {
				r := rune(p<<12 | k)
				if r >= 0xD800 && r < 0xE000 {
					continue
				}
				one(c, string(r), styles{})
				if p < 0x10 || c.Thorough() {
					one(c, "a"+string(r)+"b", styles{Italic: true, Color: "#ABCDEF"})
				}
			}
		})
		c.Part("every character of Unicode")
		// every value of every colour channel, in both spellings
		c.Parallel(256, func(v int) {
			for _, f := range []string{"#%02x0080", "#FF%02X00", "#0010%02x", "#%02[1]X%02[1]X%02[1]X"} {
				one(c, "a<\\", styles{Color: fmt.Sprintf(f, v), Bold: v&1 == 1})
			}
		})
		c.Part("every value of every colour channel")
		through(c, append(append([]string{}, alphabet...), words...), allStyles(few))
		malformed(c)
		c.Rule("all texts of up to 3 pieces (4 in thorough) of 28 special characters and 30 pieces of markup in all styles, every character of Unicode, all colour channels, all malformed documents of up to 4 pieces; one case per text and style")
	})
}

// malformed documents give an error or some text, never a panic, and a
// document that is not RTF is refused.
func malformed(c *vk.C) {
	al := []string{"{", "}", "\\", "<", ">", "&", "\"", "u", "b", "-", "9", " ", "\n", "\\u", "99999999999999999999", "55357", "\\'", "é", "\xff", "{\\rtf", "\\colortbl", ";\\red", "256", "\\green0", "\\blue0;", "style=\"color:", "#12345"}
	n := vk.Pick(c, 4, 5)
	total := 1
	for i := 0; i < n; i++ {
		total *= len(al)
	}
	done := c.Parallel(len(al)*len(al), func(a int) {
		for b := 0; b < total/len(al)/len(al); b++ {
			var p []string
			for i, v := 0, a; i < 2; i, v = i+1, v/len(al) {
				p = append(p, al[v%len(al)])
			}
			for i, v := 0, b; i < n-2; i, v = i+1, v/len(al) {
				p = append(p, al[v%len(al)])
			}
			d := strings.Join(p, "")
			c.Evals.Add(1)
			for i, f := range []reader{codec.DecodeHTML, codec.DecodeRTF,
				func(s string) (string, styles, error) { t, e := codec.StripHTMLTags(s); return t, styles{}, e },
				func(s string) (string, styles, error) { t, e := codec.StripRTFFormatting(s); return t, styles{}, e }} {
				var err error
				if p := vk.Guard(func() { _, _, err = f(d) }); p != "" {
					c.Fail("malformed", fmt.Sprintf("%q: %s", d, p), d)
				}
				if i == 1 && err == nil && !strings.Contains(d, "{\\rtf") {
					c.Fail("malformed", fmt.Sprintf("%q was read as RTF", d), d)
				}
			}
		}
		c.States.Add(int64(total / len(al) / len(al)))
	})
	c.Part("%d malformed documents of %d pieces", done*(total/len(al)/len(al)), n)
}
