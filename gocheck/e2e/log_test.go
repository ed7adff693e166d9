package e2e

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

const levelLetters = "PFEWIDT"

var levelNames = []string{"panic", "fatal", "error", "warn", "info", "debug", "trace"}

type line struct {
	lv     int
	module string
	text   string
}

// logLines are the first lines of the log entries in b.
func logLines(b []byte) []line {
	var ls []line
	for _, s := range strings.Split(string(b), "\n") {
		f := strings.SplitN(s, "|", 6)
		if len(f) < 6 || len(f[0]) != 1 || len(f[1]) != len("15:04:05.000000") || !strings.Contains(levelLetters, f[0]) {
			continue
		}
		ls = append(ls, line{strings.Index(levelLetters, f[0]), f[4], s})
	}
	return ls
}

// TestO01_Program runs the relay with generated settings of the log and
// compares what it wrote where, and looks for secrets in it.
func TestO01_Program(t *testing.T) {
	pbt.Check(t, 5, "a file and the console got different lines", func(t *rapid.T, c *pbt.Case) {
		w := &world{a: genSide(t, "a", 0), b: genSide(t, "b", 1)}
		w.a.peer, w.b.peer = w.b, w.a
		w.kill = func() {}
		direction := rapid.SampledFrom([]string{"both", "front", "reverse"}).Draw(t, "direction")
		log := rapid.SampledFrom([]int{6, 6, 5, 4, 2}).Draw(t, "log")
		con := rapid.IntRange(0, 6).Draw(t, "con")
		mods := map[string]int{}
		for _, m := range []string{"link", "icon", "client", "main"} {
			if rapid.IntRange(0, 2).Draw(t, m) == 0 {
				mods[m] = rapid.IntRange(0, 6).Draw(t, "mod")
			}
		}
		fwd := -1
		if rapid.Bool().Draw(t, "forward") {
			fwd = rapid.IntRange(2, 6).Draw(t, "fwd")
		}
		abs := rapid.Bool().Draw(t, "abs")
		c.Key("%s | %s | %s log=%d con=%d %v fwd=%d abs=%v", w.a.describe(), w.b.describe(), direction, log, con, mods, fwd, abs)
		scratch, err := os.MkdirTemp("", "e2e")
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer os.RemoveAll(scratch)
		dir := filepath.Join(scratch, "work")
		if err := os.Mkdir(dir, 0700); err != nil {
			t.Fatalf("%v", err)
		}
		w.a.begin(w)
		defer w.a.stop()
		w.b.begin(w)
		defer w.b.stop()
		w.a.publish(0, len(w.a.blocks))
		w.b.publish(0, len(w.b.blocks))
		args := configure(t, dir, w, direction, false)
		file := filepath.Join(dir, "logs", "relay.log")
		name := file
		if !abs {
			name = filepath.Join("logs", "relay.log")
		}
		args = append(args, "--log_level", levelNames[log], "--console_level", levelNames[con], "--log_writer.filename", name)
		if len(mods) > 0 {
			var s []string
			for m, l := range mods {
				s = append(s, m+"="+levelNames[l])
			}
			args = append(args, "--mod_level", strings.Join(s, ","))
		}
		var mtx sync.Mutex
		var forwarded []string
		if fwd >= 0 {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Fatalf("%v", err)
			}
			defer l.Close()
			go func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					go func() {
						defer c.Close()
						s := bufio.NewScanner(c)
						s.Buffer(nil, 1<<24)
						for s.Scan() {
							mtx.Lock()
							forwarded = append(forwarded, s.Text())
							mtx.Unlock()
						}
					}()
				}
			}()
			args = append(args, "--log_forwarder.vendor", "logstash", "--log_forwarder.address", l.Addr().String(), "--log_forwarder.level", levelNames[fwd])
		}
		active := map[*side]bool{w.a: direction != "reverse", w.b: direction != "front"}
		p, err := run(dir, args...)
		if err != nil {
			t.Fatalf("%v", err)
		}
		end := time.Now().Add(40 * time.Second)
		wait := func(what string, cond func() bool) {
			for !cond() {
				if f := w.failure(); f != "" {
					p.kill()
					t.Fatalf("%s", f)
				}
				if p.ended() {
					t.Fatalf("the program ended while waiting for %s: %s", what, tail(p.out.String()))
				}
				if time.Now().After(end) {
					p.kill()
					t.Fatalf("no %s", what)
				}
				time.Sleep(3 * time.Millisecond)
			}
		}
		for _, s := range []*side{w.a, w.b} {
			if s.eth != nil && active[s] {
				s := s
				wait("subscription to new heads", func() bool { return s.eth.Subscribed() > 0 })
				s.eth.Mine(nil)
			}
		}
		wait("relay of all messages", func() bool {
			return (!active[w.a] || w.a.done(len(w.a.blocks))) && (!active[w.b] || w.b.done(len(w.b.blocks)))
		})
		if log >= 5 {
			wait("debug line in the log file", func() bool {
				b, _ := os.ReadFile(file)
				return bytes.Contains(b, []byte("\nD|")) || bytes.HasPrefix(b, []byte("D|"))
			})
		}
		p.kill()
		out := p.out.Bytes()
		b, err := os.ReadFile(file)
		if err != nil && log >= 5 {
			t.Fatalf("no log file: %v", err)
		}
		for _, s := range []*side{w.a, w.b} {
			for _, x := range [][]byte{out, b} {
				if bytes.Contains(x, []byte(s.acct.pw)) {
					t.Fatalf("the password of a key store is in the log")
				}
				if s.acct.key != nil && bytes.Contains(bytes.ToLower(x), []byte(hex.EncodeToString(s.acct.key))) {
					t.Fatalf("a private key is in the log")
				}
			}
		}
		inFile, console := logLines(b), logLines(out)
		var want []line
		debug := false
		for _, l := range inFile {
			if l.lv > log {
				t.Fatalf("a line of level %s is in the file, the level is %s: %s", levelNames[l.lv], levelNames[log], l.text)
			}
			debug = debug || l.lv == 5
			cl, ok := mods[l.module]
			if !ok {
				cl = con
			}
			if l.lv <= cl {
				want = append(want, l)
			}
		}
		if log >= 5 && !debug {
			t.Fatalf("no debug line is in the file although the level is %s", levelNames[log])
		}
		c.NonTrivial(len(want) < len(inFile))
		// What is logged before the settings are in place goes to the console
		// only; the program is killed, perhaps between the file and the console.
		ok := false
		for cut := 0; cut <= 1 && cut <= len(want); cut++ {
			ws := want[:len(want)-cut]
			if len(console) < len(ws) {
				continue
			}
			early := console[:len(console)-len(ws)]
			same := true
			for i, l := range console[len(early):] {
				same = same && l == ws[i]
			}
			for _, l := range early {
				same = same && l.module == "main"
			}
			ok = ok || same
		}
		if !ok {
			t.Fatalf("the console has %d lines, %d lines of the file pass its level %s %v; console ends %s", len(console), len(want), levelNames[con], mods, tail(fmt.Sprint(console)))
		}
		if fwd < 0 {
			return
		}
		// The same for the forwarder: each line of the file once, by level.
		count := map[string]int{}
		for _, l := range inFile {
			if l.lv <= fwd {
				count[levelNames[l.lv]]++
			}
		}
		total := 0
		for _, n := range count {
			total += n
		}
		got := func() map[string]int {
			mtx.Lock()
			defer mtx.Unlock()
			m, seen := map[string]int{}, map[string]bool{}
			for _, s := range forwarded {
				var e struct {
					Level string `json:"level"`
				}
				if json.Unmarshal([]byte(s), &e) != nil {
					continue // cut off by the kill
				}
				if seen[s] { // has the time in nanoseconds
					t.Fatalf("a line was forwarded twice: %s", s)
				}
				seen[s] = true
				m[strings.Replace(e.Level, "warning", "warn", 1)]++
			}
			return m
		}
		var g map[string]int
		for i := 0; i < 200; i++ {
			g = got()
			ok = true
			for _, n := range levelNames {
				// each logger in use at the kill may have forwarded one line more, or the lines of
				// the setup less
				if d := g[n] - count[n]; d < -12 || d > 12 {
					ok = false
				}
			}
			if ok {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		if !ok {
			t.Fatalf("the forwarder of level %s got %v, the file has %v", levelNames[fwd], g, count)
		}
		c.Label(fmt.Sprintf("forwarded %d", min(total/50, 3)*50))
	})
}
