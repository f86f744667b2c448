package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/phoenix-tui/phoenix/clipboard"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/service"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
	"github.com/phoenix-tui/phoenix/clipboard/internal/infrastructure/native"
	"github.com/phoenix-tui/phoenix/clipboard/zzverif/vk"
)

// tool is the stand-in for the clipboard programs: it keeps each selection in
// a file of the directory C28_STORE and understands the options of the real
// program.
func tool(name string) bool {
	store, mode := os.Getenv("C28_STORE"), os.Getenv("C28_MODE")
	sel, out, newline := "primary", false, false
	args := os.Args[1:]
	is := func(a string, long string, min int) bool {
		return len(a) >= min && strings.HasPrefix(long, a)
	}
	bad := func() { os.Stderr.WriteString("bad option\n"); os.Exit(2) }
	var text []string
	switch name {
	case "xclip":
		for i := 0; i < len(args); i++ {
			switch a := args[i]; {
			case is(a, "-selection", 3):
				if i++; i >= len(args) {
					bad()
				}
				switch {
				case strings.HasPrefix("clipboard", args[i]):
					sel = "clipboard"
				case strings.HasPrefix("secondary", args[i]):
					sel = "secondary"
				}
			case is(a, "-in", 2):
				out = false
			case is(a, "-out", 2):
				out = true
			default:
				bad()
			}
		}
	case "xsel":
		for _, a := range args {
			switch a {
			case "--clipboard", "-b":
				sel = "clipboard"
			case "--input", "-i":
				out = false
			case "--output", "-o":
				out = true
			default:
				bad()
			}
		}
	case "wl-copy", "wl-paste":
		sel, out, newline = "clipboard", name == "wl-paste", name == "wl-paste"
		for _, a := range args {
			switch {
			case a == "--primary" || a == "-p":
				sel = "primary"
			case out && (a == "--no-newline" || a == "-n"):
				newline = false
			case strings.HasPrefix(a, "-"):
				bad()
			default:
				text = append(text, a)
			}
		}
	default:
		return false
	}
	f := filepath.Join(store, sel)
	if out {
		if mode == "read-fails" {
			os.Stdout.WriteString("half")
			os.Exit(1)
		}
		b, err := os.ReadFile(f)
		if err != nil {
			os.Exit(1)
		}
		os.Stdout.Write(b)
		if newline {
			os.Stdout.WriteString("\n")
		}
		os.Exit(0)
	}
	b, _ := io.ReadAll(os.Stdin)
	if text != nil {
		b = []byte(strings.Join(text, " "))
	}
	if mode == "write-fails" {
		os.Exit(1)
	}
	if os.WriteFile(f, b, 0o600) != nil {
		os.Exit(1)
	}
	os.Exit(0)
	return true
}

var toolNames = []string{"wl-copy", "wl-paste", "xclip", "xsel"}

// toolDirs makes a directory for every set of installed tools.
func toolDirs(dir string) map[string]string {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	m := map[string]string{}
	for mask := 0; mask < 16; mask++ {
		d := filepath.Join(dir, fmt.Sprint("tools", mask))
		_ = os.Mkdir(d, 0o700)
		var set []string
		for i, n := range toolNames {
			if mask>>i&1 == 1 {
				if err := os.Symlink(self, filepath.Join(d, n)); err != nil {
					panic(err)
				}
				set = append(set, n)
			}
		}
		m[strings.Join(set, " ")] = d
	}
	return m
}

// toolFor is the part of the provider's name that tells which tool is used.
func toolFor(set string) string {
	has := func(n string) bool { return strings.Contains(" "+set+" ", " "+n+" ") }
	switch {
	case has("wl-copy") && has("wl-paste"):
		return "wl-clipboard"
	case has("xclip"):
		return "xclip"
	case has("xsel"):
		return "xsel"
	}
	return ""
}

func nativeTools(c *vk.C) {
	dir, err := os.MkdirTemp("", "c28-")
	if err != nil {
		c.Fail("setup", err.Error(), nil)
		return
	}
	defer os.RemoveAll(dir)
	old := os.Getenv("PATH")
	defer os.Setenv("PATH", old)
	store := filepath.Join(dir, "store")
	_ = os.Mkdir(store, 0o700)
	os.Setenv("C28_STORE", store)
	all := append(append([]string{"plain", "--primary", "-p", "-x"}, alphabet...), "two\nlines\n", " \n", "a\x00", "\x00a", "a ", "a\n\n", "a\r\n", "\na", " a", "\ufeffa", "a\ufeff", "a\xff\n", strings.Repeat("long é\n", 30000))
	if c.Thorough() {
		all = append(all, texts(alphabet, 2)...)
	}
	n := 0
	for set, d := range toolDirs(dir) {
		os.Setenv("PATH", d)
		for _, mode := range []string{"", "read-fails", "write-fails"} {
			os.Setenv("C28_MODE", mode)
			ts := all
			if mode != "" || toolFor(set) == "" {
				ts = all[:3]
			}
			for _, t := range ts {
				n++
				c.Evals.Add(1)
				_ = os.WriteFile(filepath.Join(store, "clipboard"), []byte("before"), 0o600)
				_ = os.WriteFile(filepath.Join(store, "primary"), []byte("other"), 0o600)
				content, _ := model.NewTextContent(t)
				var werr, rerr error
				var got *model.ClipboardContent
				avail := false
				p := vk.Guard(func() {
					np := native.NewProvider()
					avail = np.IsAvailable()
					werr = np.Write(content)
					got, rerr = np.Read()
				})
				where := fmt.Sprintf("tools %q, %s, text %s", set, mode, short(t))
				text := ""
				if got != nil {
					text, _ = got.Text()
				}
				held, _ := os.ReadFile(filepath.Join(store, "clipboard"))
				other, _ := os.ReadFile(filepath.Join(store, "primary"))
				usable := toolFor(set) != ""
				want := t
				if mode == "write-fails" || !usable {
					want = "before"
				}
				switch {
				case p != "":
					c.Fail("panic", where+": "+p, where)
				case avail != usable:
					c.Fail("native", fmt.Sprintf("%s: IsAvailable is %v", where, avail), where)
				case (werr == nil) != (usable && mode != "write-fails"):
					c.Fail("native", fmt.Sprintf("%s: writing gave %v", where, werr), where)
				case string(held) != want || string(other) != "other":
					c.Fail("native", fmt.Sprintf("%s: the clipboard holds %s and the primary selection %s", where, short(string(held)), short(string(other))), where)
				case !usable || mode == "read-fails":
					if rerr == nil || got != nil {
						c.Fail("native", fmt.Sprintf("%s: the clipboard cannot be read, but %s was returned", where, short(text)), where)
					}
				case rerr != nil || text != want:
					c.Fail("native", fmt.Sprintf("%s: read %s, %v", where, short(text), rerr), where)
				}
				c.States.Add(1)
			}
		}
		os.Setenv("C28_MODE", "")
		if toolFor(set) == "" {
			continue
		}
		// An empty clipboard, and content that is not text.
		_ = os.WriteFile(filepath.Join(store, "clipboard"), nil, 0o600)
		np := native.NewProvider()
		if got, err := np.Read(); err == nil && got.Size() > 0 {
			c.Fail("native", fmt.Sprintf("tools %q: an empty clipboard read as %q", set, got.Data()), set)
		}
		bin, _ := model.NewBinaryContent([]byte{1, 2})
		if err := np.Write(bin); err == nil {
			if b, _ := os.ReadFile(filepath.Join(store, "clipboard")); string(b) != "\x01\x02" {
				c.Fail("native", fmt.Sprintf("tools %q: binary content accepted but not delivered", set), set)
			}
		}
		if err := np.Write(nil); err == nil {
			c.Fail("native", "no content was accepted", set)
		}
		// The package-level functions, in a process of their own.
		for _, t := range []string{"plain", "é\n世\n"} {
			self, _ := os.Executable()
			cmd := exec.Command(self, "-global", t)
			b, err := cmd.Output()
			n++
			if err != nil || string(b) != t {
				c.Fail("global", fmt.Sprintf("tools %q: package functions wrote %q and read %q (%v)", set, t, b, err), set)
			}
		}
	}
	c.Part("%d writes and reads through 16 sets of installed tools, with failing tools", n)
	c.Outcome("native")
}

func global(args []string) {
	if err := clipboard.Write(args[0]); err != nil || !clipboard.IsAvailable() || clipboard.GetProviderName() == "none" {
		fmt.Println(err)
		os.Exit(1)
	}
	s, err := clipboard.Read()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Print(s)
}

// ---- images

func images(c *vk.C) {
	codec := service.NewImageCodec()
	shades := []color.NRGBA{{0, 0, 0, 255}, {255, 255, 255, 255}, {255, 0, 0, 255}, {0, 128, 255, 255}, {10, 20, 30, 128}, {0, 0, 0, 0}}
	sizes := [][2]int{{1, 1}, {2, 1}, {1, 3}, {2, 2}}
	mimes := []value.MIMEType{value.MIMETypeImagePNG, value.MIMETypeImageJPEG, value.MIMETypeImageGIF}
	n := 0
	for _, sz := range sizes {
		k := sz[0] * sz[1]
		total := 1
		for i := 0; i < k; i++ {
			total *= len(shades)
		}
		c.Parallel(total, func(code int) {
			img := image.NewNRGBA(image.Rect(0, 0, sz[0], sz[1]))
			opaque, uniform := true, true
			for i, v := 0, code; i < k; i, v = i+1, v/len(shades) {
				s := shades[v%len(shades)]
				img.SetNRGBA(i%sz[0], i/sz[0], s)
				opaque = opaque && s.A == 255
				uniform = uniform && s == img.NRGBAAt(0, 0)
			}
			if p := vk.Guard(func() {
				oneImage(c, codec, img, mimes, opaque, uniform, fmt.Sprintf("%dx%d image %d", sz[0], sz[1], code))
			}); p != "" {
				c.Fail("panic", fmt.Sprintf("%dx%d image %d: %s", sz[0], sz[1], code, p), nil)
			}
		})
		n += total
	}
	for _, bad := range [][]byte{nil, {}, {0}, []byte("BM"), []byte("not an image at all"), []byte("GIF"), {0xFF, 0xD8}} {
		img, _, err := codec.Decode(bad)
		if err == nil {
			c.Fail("image", fmt.Sprintf("%q decoded to %v", bad, img), bad)
		}
	}
	c.Part("%d images of up to 4 pixels through every format, conversion, truncation and one-byte corruption", n)
	c.Outcome("images")
}

func same(a, b image.Image, tolerance int) bool {
	if a.Bounds().Dx() != b.Bounds().Dx() || a.Bounds().Dy() != b.Bounds().Dy() {
		return false
	}
	diff := func(x, y uint32) bool { d := int(x>>8) - int(y>>8); return d > tolerance || -d > tolerance }
	for y := 0; y < a.Bounds().Dy(); y++ {
		for x := 0; x < a.Bounds().Dx(); x++ {
			r, g, bl, al := a.At(a.Bounds().Min.X+x, a.Bounds().Min.Y+y).RGBA()
			r2, g2, b2, al2 := b.At(b.Bounds().Min.X+x, b.Bounds().Min.Y+y).RGBA()
			if diff(r, r2) || diff(g, g2) || diff(bl, b2) || diff(al, al2) {
				return false
			}
		}
	}
	return true
}

func oneImage(c *vk.C, codec *service.ImageCodec, img image.Image, mimes []value.MIMEType, opaque, uniform bool, label string) {
	enc := map[value.MIMEType][]byte{}
	png, err1 := codec.EncodePNG(img)
	jpg, err2 := codec.EncodeJPEG(img, 95)
	gif, err3 := codec.EncodeGIF(img)
	if err1 != nil || err2 != nil || err3 != nil {
		c.Fail("image", fmt.Sprintf("%s: %v %v %v", label, err1, err2, err3), label)
		return
	}
	enc[mimes[0]], enc[mimes[1]], enc[mimes[2]] = png, jpg, gif
	direct := []func([]byte) (image.Image, error){codec.DecodePNG, codec.DecodeJPEG, codec.DecodeGIF}
	for i, m := range mimes {
		d := enc[m]
		c.Evals.Add(1)
		got, mt, err := codec.Decode(d)
		det, derr := codec.DetectFormat(d)
		if err != nil || mt != m || derr != nil || det != m {
			c.Fail("image", fmt.Sprintf("%s as %s: decoded as %s (%v), detected as %s (%v)", label, m, mt, err, det, derr), label)
			continue
		}
		tol := []int{0, 255, 60}[i]
		if i == 1 && uniform && opaque {
			tol = 12
		}
		if (i == 0 || opaque) && !same(img, got, tol) {
			c.Fail("image", fmt.Sprintf("%s as %s: the pixels changed", label, m), label)
		}
		for j, f := range direct {
			g, err := f(d)
			if (err == nil) != (i == j) || err == nil && !same(g, got, 0) {
				c.Fail("image", fmt.Sprintf("%s as %s read as %s: %v", label, m, mimes[j], err), label)
			}
		}
		for j, to := range mimes {
			conv, err := codec.ConvertFormat(d, to)
			if err != nil {
				c.Fail("image", fmt.Sprintf("%s from %s to %s: %v", label, m, to, err), label)
				continue
			}
			g, mt, err := codec.Decode(conv)
			if err != nil || mt != to || j == 0 && !same(g, got, 0) || !same(g, got, 255) {
				c.Fail("image", fmt.Sprintf("%s from %s to %s: became %s, %v", label, m, to, mt, err), label)
			}
		}
		if _, err := codec.ConvertFormat(d, value.MIMETypePlainText); err == nil {
			c.Fail("image", label+": converted to text", label)
		}
		if label[0] == '1' { // the small ones: every truncation and corruption
			for k := range d {
				damaged(c, codec, d[:k], label)
				x := bytes.Clone(d)
				x[k] ^= 0xFF
				damaged(c, codec, x, label)
			}
		}
	}
}

// damaged data gives an image of some size or an error, the same from both ways of reading.
func damaged(c *vk.C, codec *service.ImageCodec, d []byte, label string) {
	if len(d) > 30 && bytes.HasPrefix(d, []byte("\x89PNG")) && (d[16] != 0 || d[17] != 0 || d[20] != 0 || d[21] != 0) {
		return // claims to be enormous
	}
	img, mt, err := codec.Decode(d)
	if (err == nil) != (img != nil) || (err == nil) != (mt != "") {
		c.Fail("image", fmt.Sprintf("%s damaged: %v, %q, %v", label, img, mt, err), label)
	}
	if det, derr := codec.DetectFormat(d); derr == nil && err == nil && det != mt {
		c.Fail("image", fmt.Sprintf("%s damaged: detected as %s, decoded as %s", label, det, mt), label)
	}
	c.States.Add(1)
}
