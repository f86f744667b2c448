// C06: every schedule (up to a deviation bound) of readers, cancellers and
// restarts over one input stream; the bytes each reader delivered are compared
// with the stream.
package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/tea/internal/infrastructure/input"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vsched"
)

// chunkings of a short stream; the last ones exceed the internal buffers
var chunkings = [][]string{
	{"abcdef"}, {"a", "bcdef"}, {"abc", "def"}, {"ab", "cd", "ef"},
}

var bufSizes = []int{1, 2, 4, 256}

func long(n int) string {
	var b strings.Builder
	for b.Len() < n {
		fmt.Fprintf(&b, "%04d,", b.Len())
	}
	return b.String()[:n]
}

// readAll reads until an error; every read uses size bytes.
func readAll(r io.Reader, size int, got *strings.Builder) error {
	for {
		b := make([]byte, size)
		n, err := r.Read(b)
		if n < 0 || n > size {
			return fmt.Errorf("read returned %d", n)
		}
		got.Write(b[:n])
		if err != nil {
			return err
		}
	}
}

// script is a reader that is not a file: it returns its steps one by one.
type step struct {
	data string
	err  error
}
type script struct {
	steps []step
	read  string
}

func (s *script) Read(p []byte) (int, error) {
	vsched.Yield()
	if len(s.steps) == 0 {
		return 0, io.EOF
	}
	st := &s.steps[0]
	n := copy(p, st.data)
	s.read += st.data[:n]
	st.data = st.data[n:]
	if st.data != "" {
		return n, nil
	}
	err := st.err
	s.steps = s.steps[1:]
	return n, err
}

func diff(got, want string) string {
	return fmt.Sprintf("delivered %.80q, the stream is %.80q", got, want)
}

// part reports how got fails to be a subsequence of stream without repetition,
// for streams of distinct bytes.
func inOrder(got, stream string) bool {
	for _, c := range got {
		i := strings.IndexRune(stream, c)
		if i < 0 {
			return false
		}
		stream = stream[i+1:]
	}
	return true
}

func scenarios(thorough bool) []*vsched.Scenario {
	pick := func(a, b int) int {
		if thorough {
			return b
		}
		return a
	}
	var out []*vsched.Scenario

	// One reader of a file, all chunkings, several buffer sizes, both the relay
	// and the direct mode; end of input after the last byte.
	nv := len(chunkings) * len(bufSizes) * 2
	out = append(out, &vsched.Scenario{
		Name: "read", Variants: nv, Bound: pick(2, 3), MaxSteps: 4000, MaxTime: 5 * time.Second, Races: true,
		Body: func(x *vsched.X) {
			v := x.Variant
			ch := chunkings[v%len(chunkings)]
			v /= len(chunkings)
			size := bufSizes[v%len(bufSizes)]
			if v/len(bufSizes) == 1 {
				x.PipeErr = errors.New("no pipes")
			}
			tty := vsched.NewTTY(true)
			cr := input.NewCancelableReader(tty)
			vsched.GoName("typist", func() {
				for _, c := range ch {
					vsched.Feed(tty, c)
				}
				vsched.FeedEOF(tty)
			})
			var got strings.Builder
			err := readAll(cr, size, &got)
			want := strings.Join(ch, "")
			x.Nontrivial()
			if got.String() != want {
				x.Fail("bytes", diff(got.String(), want))
			}
			if err != io.EOF {
				x.Fail("end", fmt.Sprintf("end of input reported as %v", err))
			}
			if n, err := cr.Read(make([]byte, 4)); n != 0 || err != io.EOF {
				x.Fail("after-end", fmt.Sprintf("read after the end of input: %d, %v", n, err))
			}
			if cr.IsCanceled() {
				x.Fail("is-canceled", "reader says it was cancelled")
			}
		},
	})

	// Large chunks cross every internal buffer boundary.
	sizes := []int{255, 256, 257, 512, 4095, 4096, 4097, 9000}
	out = append(out, &vsched.Scenario{
		Name: "read-large", Variants: len(sizes) * 3, Bound: pick(0, 1), MaxSteps: 60000, MaxTime: 5 * time.Second,
		Body: func(x *vsched.X) {
			size := []int{256, 4096, 100}[x.Variant/len(sizes)]
			want := long(sizes[x.Variant%len(sizes)])
			tty := vsched.NewTTY(true)
			cr := input.NewCancelableReader(tty)
			vsched.Feed(tty, want)
			vsched.FeedEOF(tty)
			var got strings.Builder
			err := readAll(cr, size, &got)
			x.Nontrivial()
			if got.String() != want || err != io.EOF {
				x.Fail("bytes", fmt.Sprintf("%d bytes fed, %d delivered (equal: %v), %v", len(want), got.Len(), strings.HasPrefix(want, got.String()), err))
			}
		},
	})

	// Readers that are not files, returning data together with the end or with
	// an error, or nothing at all in between.
	boom := errors.New("boom")
	scripts := [][]step{
		{{"abc", nil}, {"def", io.EOF}},
		{{"abcdef", io.EOF}},
		{{"abc", nil}, {"", nil}, {"", nil}, {"def", nil}},
		{{"abc", nil}, {"def", boom}},
		{{"", boom}}, {{"", io.EOF}},
	}
	out = append(out, &vsched.Scenario{
		Name: "reader", Variants: len(scripts) * 2 * 2, Bound: pick(2, 3), MaxSteps: 4000, MaxTime: 5 * time.Second, Races: true,
		Body: func(x *vsched.X) {
			v := x.Variant
			sc := scripts[v%len(scripts)]
			v /= len(scripts)
			size := []int{2, 256}[v%2]
			if v/2 == 1 {
				x.PipeErr = errors.New("no pipes")
			}
			want := ""
			for _, s := range sc {
				want += s.data
			}
			src := &script{steps: append([]step{}, sc...)}
			cr := input.NewCancelableReader(src)
			var got strings.Builder
			err := readAll(cr, size, &got)
			x.Nontrivial()
			if got.String() != want {
				x.Fail("bytes", diff(got.String(), want))
			}
			if err == nil {
				x.Fail("end", "no error at the end")
			}
		},
	})

	// Cancel at any moment, the underlying read being blocked or busy, with and
	// without read deadlines; twice and from two threads.
	out = append(out, &vsched.Scenario{
		Name: "cancel", Variants: 2 * 2 * 2 * 3, Bound: pick(3, 4), MaxSteps: 4000, MaxTime: 5 * time.Second, Races: true,
		Body: func(x *vsched.X) {
			v := x.Variant
			tty := vsched.NewTTY(v%2 == 0)
			v /= 2
			two := v%2 == 1
			v /= 2
			direct := v%2 == 1
			v /= 2
			if direct {
				x.PipeErr = errors.New("no pipes")
			}
			size := []int{1, 2, 256}[v]
			const stream = "abcd"
			cr := input.NewCancelableReader(tty)
			var got strings.Builder
			var rerr error
			ended := false
			vsched.GoName("reader", func() {
				rerr = readAll(cr, size, &got)
				ended = true
			})
			vsched.GoName("typist", func() {
				vsched.Feed(tty, stream[:2])
				vsched.Feed(tty, stream[2:])
			})
			cancelled := 0
			canc := func() {
				cr.Cancel()
				cancelled++
				before := vsched.Elapsed()
				if n, err := cr.Read(make([]byte, 4)); n != 0 || err != io.EOF || vsched.Elapsed() != before {
					x.Fail("read-after-cancel", fmt.Sprintf("a read after Cancel returned %d, %v after %v", n, err, vsched.Elapsed()-before))
				}
				if !cr.IsCanceled() {
					x.Fail("is-canceled", "IsCanceled is false after Cancel")
				}
				if !direct {
					cr.WaitForShutdown()
				}
			}
			if two {
				vsched.GoName("canceller", canc)
			}
			canc()
			if !direct && vsched.Elapsed() > 150*time.Millisecond {
				x.Fail("shutdown-slow", fmt.Sprintf("waiting for the shutdown took %v", vsched.Elapsed()))
			}
			t := vsched.Elapsed()
			vsched.Await("reader and canceller end", func() bool { return ended && (!two || cancelled == 2) })
			if vsched.Elapsed()-t > 60*time.Millisecond || !two && vsched.Elapsed() != t {
				x.Fail("blocked", fmt.Sprintf("the cancelled read returned only after %v", vsched.Elapsed()-t))
			}
			x.Nontrivial()
			if rerr != io.EOF {
				x.Fail("error", fmt.Sprintf("cancelled read returned %v", rerr))
			}
			if !strings.HasPrefix(stream, got.String()) {
				x.Fail("bytes", diff(got.String(), stream))
			}
			x.Outcome(got.String())
		},
	})

	// Replacing a reader by a new one on the same stream, as the program does
	// around an external process.
	restart := func(name string, deadlines bool) *vsched.Scenario {
		return &vsched.Scenario{
			Name: name, Variants: 3 * 2, Bound: pick(2, 3), MaxSteps: 6000, MaxTime: 5 * time.Second, Races: true, StuckOK: true,
			Body: func(x *vsched.X) {
				size := []int{1, 256}[x.Variant/3]
				tty := vsched.NewTTY(deadlines)
				before, during, after := "abcd", "efgh", "ijkl"
				if x.Variant%3 == 1 {
					before = ""
				}
				if x.Variant%3 == 2 {
					during = ""
				}
				first, second := &strings.Builder{}, &strings.Builder{}
				one := input.NewCancelableReader(tty)
				vsched.GoName("reader1", func() { _ = readAll(one, size, first) })
				typed := false
				vsched.GoName("typist", func() {
					for _, s := range []string{before[:len(before)/2], before[len(before)/2:]} {
						if s != "" {
							vsched.Feed(tty, s)
						}
					}
					typed = true
				})
				one.Cancel()
				one.WaitForShutdown()
				vsched.Await("typed", func() bool { return typed })
				left := vsched.Unread(tty) // not yet taken from the terminal
				got1 := ""
				if during != "" {
					vsched.Feed(tty, during[:2])
					vsched.WaitIdle() // nobody may take it now
					vsched.Feed(tty, during[2:])
					vsched.WaitIdle()
					got1 = first.String()
				}
				taken := len(left) + len(during) - len(vsched.Unread(tty))
				two := input.NewCancelableReader(tty)
				var end error
				done := false
				vsched.GoName("reader2", func() { end = readAll(two, size, second); done = true })
				vsched.Feed(tty, after[:2])
				vsched.Settle(10 * time.Millisecond)
				vsched.Feed(tty, after[2:])
				vsched.FeedEOF(tty)
				vsched.Await("reader2 ends", func() bool { return done })
				if during == "" {
					got1 = first.String()
				}
				x.Nontrivial()
				x.Outcome(first.String() + "|" + second.String())
				all := before + during + after
				if !inOrder(first.String()+second.String(), all) {
					x.Fail("order", fmt.Sprintf("delivered %q then %q of %q", first, second, all))
				}
				if first.String() != got1 || !strings.HasPrefix(before, got1) {
					x.Fail("old-reader", fmt.Sprintf("the cancelled reader delivered %q of %q", first, before))
				}
				if end != io.EOF {
					x.Fail("end", fmt.Sprint(end))
				}
				// bytes the first reader had taken but not delivered
				if first.String()+left != before {
					x.Fail("taken-undelivered", fmt.Sprintf("%q were typed, %q delivered, %q left for the next reader", before, first, left))
				}
				want := left + during + after
				if got := second.String(); got != want {
					switch {
					case !deadlines && len(got) > 0 && len(got) < len(want) && strings.HasSuffix(want, got) && oneChunk(want[:len(want)-len(got)], left, during, after):
						x.Fail("blocked-read-takes-a-chunk", fmt.Sprintf("%q became available after the shutdown (%d bytes taken meanwhile), the next reader delivered %q", want, taken, got))
					case !deadlines && got == "" && during == "" && left == "" && len(want) == 4:
						x.Fail("all", fmt.Sprintf("%q typed after the restart, nothing delivered", want))
					default:
						x.Fail("lost-after-shutdown", fmt.Sprintf("%q became available after the shutdown, the next reader delivered %q", want, got))
					}
				}
				if deadlines && taken != 0 {
					x.Fail("taken-after-shutdown", fmt.Sprintf("%d bytes were taken from the terminal while no reader was active", taken))
				}
			},
		}
	}
	out = append(out, restart("restart", true), restart("restart-nodl", false))
	return out
}

// oneChunk: the missing prefix is what one blocked read can take at once.
func oneChunk(miss string, parts ...string) bool {
	rest := strings.Join(parts, "")
	return strings.HasPrefix(rest, miss) && len(miss) <= 4
}

var _ = os.Stdin

func main() {
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C06", "model_checking", 0, func(c *vk.C) {
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 100*time.Second, 12*time.Minute))
		c.Sched(rep, err)
		c.Rule("one case per schedule: all chunkings and buffer sizes of short streams, large chunks across every internal buffer size, readers that return data with an error, cancellation from one and two threads at every point, replacement of a reader on the same terminal; all schedules up to the deviation bound, unsynchronised accesses reported")
	})
}
