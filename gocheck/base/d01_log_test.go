package base

import (
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/icon-project/btp/common/log"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

// TestD01_Log: goroutines write to a log while others change its settings, as
// the program does when the second of its links starts. Every line has to
// arrive whole.
func TestD01_Log(t *testing.T) {
	real := os.Stderr
	defer func() { os.Stderr = real }()
	pbt.Check(t, 40, "settings change while lines are written", func(t *rapid.T, c *pbt.Case) {
		null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		if err != nil {
			t.Fatal(err)
		}
		defer null.Close()
		os.Stderr = null
		lg := log.New()
		os.Stderr = real
		file := &tail{}
		if err := lg.SetFileWriter(file); err != nil {
			t.Fatal(err)
		}
		n := rapid.IntRange(1, 4).Draw(t, "writers")
		lines := rapid.IntRange(1, 40).Draw(t, "lines")
		sets := rapid.SliceOfN(rapid.IntRange(0, 4), 0, 20).Draw(t, "settings")
		c.Key("%d %d %v", n, lines, sets)
		c.NonTrivial(len(sets) > 0)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := lg.WithFields(log.Fields{log.FieldKeyModule: fmt.Sprint("m", i), "f": i})
				for j := 0; j < lines; j++ {
					l.Debugf("<%d %d %s>", i, j, strings.Repeat("x", j))
				}
			}()
		}
		for k, s := range sets {
			switch s {
			case 0:
				lg.SetModuleLevel(fmt.Sprint("m", k%5), log.Level(k%7))
			case 1:
				lg.SetConsoleLevel(log.Level(k % 7))
			case 2:
				lg.SetLevel(log.DebugLevel)
			case 3:
				var w io.Writer = file
				_ = lg.SetFileWriter(w)
			default:
				_, _ = lg.GetModuleLevel("m0"), lg.GetConsoleLevel()
			}
		}
		wg.Wait()
		next := make([]int, n)
		for _, s := range strings.Split(strings.TrimSuffix(file.b.String(), "\n"), "\n") {
			var i, j int
			at := strings.Index(s, "<")
			if at < 0 {
				t.Fatalf("line %q", s)
			}
			if _, err := fmt.Sscanf(s[at:], "<%d %d", &i, &j); err != nil || i >= n || j != next[i] || !strings.HasSuffix(s, fmt.Sprintf(" %s> f=%d", strings.Repeat("x", j), i)) {
				t.Fatalf("line %q, %v", s, err)
			}
			next[i]++
		}
		for i := range next {
			if next[i] != lines {
				t.Fatalf("%d lines of writer %d, %d were written", next[i], i, lines)
			}
		}
	})
}
