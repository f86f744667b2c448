// C19: display width of every character, of every short sequence of text
// elements and of every short byte string.
package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/core/internal/domain/service"
	"github.com/phoenix-tui/phoenix/core/internal/domain/value"
	"github.com/phoenix-tui/phoenix/core/zzverif/vk"
)

// disputed characters are those on whose width terminals disagree: symbols
// that may be shown as emoji, characters without a glyph, spacing combining
// marks, conjoining jamo, and the two kana voicing marks.
var disputed = [][2]rune{
	{0x00a9, 0x00a9}, {0x00ad, 0x00ad}, {0x00ae, 0x00ae}, {0x0600, 0x0605}, {0x061c, 0x061c}, {0x06dd, 0x06dd}, {0x070f, 0x070f},
	{0x08e2, 0x08e2}, {0x1100, 0x11ff}, {0x180e, 0x180e}, {0x200b, 0x200f}, {0x2028, 0x202e}, {0x203c, 0x203c}, {0x2049, 0x2049},
	{0x2060, 0x2064}, {0x2066, 0x206f}, {0x2122, 0x2122}, {0x2139, 0x2139}, {0x2194, 0x2199}, {0x21a9, 0x21aa}, {0x2300, 0x23ff}, {0x24c2, 0x24c2},
	{0x25aa, 0x25ab}, {0x25b6, 0x25b6}, {0x25c0, 0x25c0}, {0x25fb, 0x25fe}, {0x2600, 0x27bf}, {0x2934, 0x2935}, {0x2b05, 0x2b07}, {0x2b1b, 0x2b1c},
	{0x2b50, 0x2b50}, {0x2b55, 0x2b55}, {0x3030, 0x3030}, {0x303d, 0x303d}, {0x3099, 0x309a}, {0x3297, 0x3297}, {0x3299, 0x3299}, {0x4dc0, 0x4dff},
	{0xa960, 0xa97f}, {0xd7b0, 0xd7ff}, {0xfe00, 0xfe0f}, {0xfeff, 0xfeff}, {0xfff9, 0xfffb}, {0x110bd, 0x110bd}, {0x110cd, 0x110cd}, {0x13430, 0x1345f}, {0x1bca0, 0x1bca3},
	{0x1d173, 0x1d17a}, {0x1d300, 0x1d376}, {0x1f000, 0x1faff}, {0xe0000, 0xe0fff},
}

// width is the width the Unicode character database gives to r; ok is false
// for characters this check does not judge.
func width(r rune) (w int, ok bool) {
	switch {
	case r < 0x20 || r >= 0x7f && r < 0xa0:
		return 0, true
	case r < 0x7f:
		return 1, true
	case r >= 0xd800 && r < 0xe000, vk.InRanges(vk.NotGraphic, r), vk.InRanges(disputed, r), unicode.Is(unicode.Mc, r), unicode.Is(unicode.Cf, r), unicode.Is(unicode.Co, r):
		return 0, false
	case vk.InRanges(vk.CombiningMarks, r):
		return 0, true
	case vk.InRanges(vk.EAWWide, r):
		return 2, true
	}
	return 1, true
}

var tokens = []struct {
	s string
	w int
}{
	{"a", 1}, {" ", 1}, {"é", 1}, {"e\u0301", 1}, {"世", 2}, {"あ", 2}, {"각", 2}, {"Ａ", 2}, {"ｱ", 1}, {"─", 1}, {"→", 1}, {"½", 1},
	{"😀", 2}, {"👋\U0001f3fb", 2}, {"👨\u200d👩\u200d👧", 2}, {"🇩🇪", 2}, {"❤\ufe0f", 2}, {"☝\ufe0f", 2}, {"🏳\ufe0f\u200d🌈", 2},
	{"\u200b", 0}, {"\t", 0}, {"\x1b", 0}, {"\n", 0}, {"\x00", 0}, {"\xff", 1}, {"Я", 1}, {"ع", 1}, {"अ", 1},
}

// measure calls the public function and checks what holds of every string.
func measure(c *vk.C, s string) (int, bool) {
	c.Evals.Add(1)
	w := -1
	if p := vk.Guard(func() { w = core.StringWidth(s) }); p != "" {
		c.Fail("panic", fmt.Sprintf("the width of %q: %s", s, p), s)
		return 0, false
	}
	if n := len([]rune(s)); w < 0 || w > 2*n {
		c.Fail("range", fmt.Sprintf("%q, %d characters, has width %d", s, n, w), s)
		return 0, false
	}
	return w, true
}

func expect(c *vk.C, key, s string, want int) {
	if w, ok := measure(c, s); ok && w != want {
		c.Fail(key, fmt.Sprintf("%q has width %d, should be %d", s, w, want), s)
	}
}

func main() {
	vk.Main("C19", "model_checking", 0, func(c *vk.C) {
		// every code point, alone and in context
		const block = 1 << 10
		svc := service.NewUnicodeService()
		narrow, wide := value.NewUnicodeConfig(), value.NewUnicodeConfig().WithEastAsianWide()
		done := c.Parallel(0x110000/block, func(b int) {
			for r := rune(b * block); r < rune(b+1)*block; r++ {
				s := string(r)
				got, ok := measure(c, s)
				if !ok {
					continue
				}
				want, judged := width(r)
				if judged && got != want {
					c.Fail("character", fmt.Sprintf("%U %q has width %d, should be %d", r, s, got, want), s)
					continue
				}
				cell := core.NewCellAuto(s)
				if cell.Content != s || cell.Width != got {
					c.Fail("cell", fmt.Sprintf("a cell with %q has width %d and content %q", s, cell.Width, cell.Content), s)
				}
				if !judged {
					continue
				}
				expect(c, "context", s+s, 2*want)
				expect(c, "context", "a"+s+"世", 3+want)
				expect(c, "context", "世"+s, 2+want)
				expect(c, "context", strings.Repeat("a", 15)+s+strings.Repeat("b", 20), 35+want)
				if n, w := svc.StringWidthWithConfig(s, narrow), svc.StringWidthWithConfig(s, wide); n != want || w < want || w > 2 {
					c.Fail("configured", fmt.Sprintf("%U has width %d, with the narrow setting %d, with the wide setting %d", r, want, n, w), s)
				} else if rep := strings.Repeat(s, 70); svc.StringWidthWithConfig(rep, narrow) != 70*n || svc.StringWidthWithConfig(rep, wide) != 70*w || svc.StringWidthWithConfig("a"+s+"世", wide) != 3+w ||
					svc.ClusterWidth(s) != n || svc.ClusterWidthWithConfig(s, narrow) != n || svc.ClusterWidthWithConfig(s, wide) != w {
					c.Fail("configured", fmt.Sprintf("%U: the widths of one, of 70 and inside a text, with the narrow and the wide setting, disagree (%d and %d)", r, n, w), s)
				}
			}
		})
		c.States.Add(0x110000)
		c.Part("all %d code points alone, doubled and in three contexts", 0x110000)
		if done < 0x110000/block {
			c.Partial("code points")
		}
		// every sequence of text elements
		depth := vk.Pick(c, 4, 5)
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(tokens) + 1
		}
		done = c.Parallel(len(tokens)+1, func(first int) {
			for code := first * (total / (len(tokens) + 1)); code < (first+1)*(total/(len(tokens)+1)); code++ {
				var sb strings.Builder
				w := 0
				for i, k := 0, code; i < depth; i++ {
					if t := k % (len(tokens) + 1); t < len(tokens) {
						sb.WriteString(tokens[t].s)
						w += tokens[t].w
					}
					k /= len(tokens) + 1
				}
				c.States.Add(1)
				expect(c, "sequence", sb.String(), w)
				if c.FailCount() > 200 {
					return
				}
			}
		})
		c.Part("%d sequences of up to %d of %d text elements", total, depth, len(tokens))
		if done < len(tokens)+1 {
			c.Partial("sequences of text elements")
		}
		// pieces repeated, to every length up to 200
		c.Parallel(len(tokens)*len(tokens), func(i int) {
			x, y := tokens[i/len(tokens)], tokens[i%len(tokens)]
			for n := 1; n <= 200; n++ {
				expect(c, "long", strings.Repeat(x.s, n)+y.s, n*x.w+y.w)
				c.States.Add(1)
			}
		})
		c.Part("%d long repetitions", len(tokens)*len(tokens)*200)
		// every byte string
		done = c.Parallel(257, func(a int) {
			pre := ""
			if a > 0 {
				pre = string([]byte{byte(a - 1)})
			}
			measure(c, pre)
			for b := 0; b < 256; b++ {
				measure(c, pre+string([]byte{byte(b)}))
				for d := 0; d < 256; d++ {
					s := pre + string([]byte{byte(b), byte(d)})
					if w, ok := measure(c, s); ok {
						if v := core.NewCellAuto(s); v.Width != w || v.Content != s {
							c.Fail("cell", fmt.Sprintf("a cell with %q (width %d) has width %d and content %q", s, w, v.Width, v.Content), s)
						}
					}
				}
			}
			c.States.Add(256 * 257)
		})
		c.Part("%d byte strings of up to 3 bytes", 257*256*257)
		if done < 257 {
			c.Partial("byte strings")
		}
		c.Rule("every code point; every sequence of text elements (plain, combining, wide, emoji with modifier, joiner, flag, variation selector, control, invalid byte) up to the depth; every byte string up to three bytes")
		c.Assume("characters on whose width terminals disagree (symbols that may be shown as emoji, format characters, spacing marks, variation selectors, conjoining jamo, U+3099, U+309A) are only checked for bounds")
	})
}
