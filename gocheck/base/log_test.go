package base

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/icon-project/btp/common/log"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

var logLevels = []log.Level{log.PanicLevel, log.FatalLevel, log.ErrorLevel, log.WarnLevel, log.InfoLevel, log.DebugLevel, log.TraceLevel}
var logNames = []string{"panic", "fatal", "error", "warn", "info", "debug", "trace"}

const logLetters = "PFEWIDT"

type logLine struct {
	lv              int
	module          string // "" = that of the caller
	msg             string
	head            string // wallet|chain|
	fields          map[string]interface{}
	console, file   bool
	forward, caller bool
}

// is tells whether text is the line.
func (l *logLine) is(text string) error {
	if !strings.HasPrefix(text, logLetters[l.lv:l.lv+1]+"|") {
		return fmt.Errorf("the level is not %s", logNames[l.lv])
	}
	rest := text[2:]
	if len(rest) < len(log.LogTimeLayout)+1 || rest[len(log.LogTimeLayout)] != '|' {
		return fmt.Errorf("no time")
	}
	rest = rest[len(log.LogTimeLayout)+1:]
	if !strings.HasPrefix(rest, l.head+l.module+"|") {
		return fmt.Errorf("expected %q after the time", l.head+l.module+"|")
	}
	rest = rest[len(l.head+l.module)+1:]
	i := strings.Index(rest, l.msg)
	if i < 0 {
		return fmt.Errorf("the message %q is missing", l.msg)
	}
	if at := rest[:i]; l.caller != strings.Contains(at, ".go:") {
		return fmt.Errorf("the position of the caller is %q", at)
	}
	rest = rest[i+len(l.msg):]
	n := 0
	for k, v := range l.fields {
		w := fmt.Sprintf(" %s=%v", k, v)
		if !strings.Contains(rest, w) {
			return fmt.Errorf("the field%s is missing", w)
		}
		n += len(w)
	}
	if n != len(rest) {
		return fmt.Errorf("%q after the message", rest)
	}
	return nil
}

func matchLines(what, text string, want []*logLine) error {
	if text != "" && !strings.HasSuffix(text, "\n") {
		return fmt.Errorf("%s: the last line is cut off", what)
	}
	got := strings.Split(text, "\n")
	got = got[:len(got)-1]
	for i, g := range got {
		if i >= len(want) {
			return fmt.Errorf("%s: line %q was not expected", what, g)
		}
		if err := want[i].is(g); err != nil {
			return fmt.Errorf("%s: line %d is %q: %v", what, i, g, err)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%s: %d lines of %d, %q is missing", what, len(got), len(want), want[len(got)].msg)
	}
	return nil
}

// tail keeps what is written.
type tail struct {
	mu sync.Mutex
	b  strings.Builder
}

func (f *tail) Write(b []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.b.Write(b)
}

// collector is a logstash that keeps what it gets.
func collector(t *rapid.T) (addr string, lines <-chan string, stop func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatalf("%v", err)
	}
	ch := make(chan string, 10000)
	go func() {
		defer close(ch)
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		s := bufio.NewScanner(c)
		s.Buffer(nil, 1<<20)
		for s.Scan() {
			ch <- s.Text()
		}
	}()
	return l.Addr().String(), ch, func() { l.Close() }
}

func swallow(f func()) { defer func() { recover() }(); f() }

func TestO01_Log(t *testing.T) {
	real := os.Stderr
	before := log.GlobalLogger()
	defer func() { os.Stderr = real; log.SetGlobalLogger(before) }()
	stdout := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = stdout; null.Close() }()
	}
	dir := t.TempDir()
	no := 0
	pbt.Check(t, 1500, "loggers with levels of their own, of the console, of modules and of a forwarder, lines written in every way; non-trivial = some lines are held back and some are not", func(t *rapid.T, c *pbt.Case) {
		no++
		console, err := os.OpenFile(filepath.Join(dir, "console"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer console.Close()
		os.Stderr = console
		lg := log.New()
		os.Stderr = real
		log.SetGlobalLogger(lg)
		if log.GlobalLogger() != lg {
			t.Fatalf("the global logger is not the one that was set")
		}
		level, con, fwd := 5, 6, -1
		mods := map[string]int{}
		file := &tail{}
		hasFile := false
		caller := true
		var forwarded <-chan string
		var all []*logLine
		var key []string
		loggers := []log.Logger{lg}
		ofs := []map[string]interface{}{{}}
		lv := rapid.IntRange(0, 6)
		if rapid.IntRange(0, 2).Draw(t, "forwarder") == 0 {
			addr, ch, stop := collector(t)
			defer stop()
			forwarded = ch
			cfg := &log.ForwarderConfig{Vendor: log.HookVendorLogstash, Address: addr, Name: "nm"}
			if fwd = rapid.IntRange(-1, 6).Draw(t, "fwd"); fwd >= 0 {
				cfg.Level = logNames[fwd]
			} else {
				fwd = 4
			}
			if rapid.Bool().Draw(t, "scheme") {
				cfg.Address = "tcp://" + addr
			}
			if err := log.AddForwarder(cfg); err != nil {
				t.Fatalf("forwarder: %v", err)
			}
			key = append(key, fmt.Sprintf("fwd=%d", fwd))
		}
		module := rapid.SampledFrom([]string{"m", "n", "base", "link"})
		for n := rapid.IntRange(3, 25).Draw(t, "steps"); n > 0; n-- {
			switch act := rapid.IntRange(0, 15).Draw(t, "act"); {
			case act == 0:
				level = lv.Draw(t, "level")
				loggers[rapid.IntRange(0, len(loggers)-1).Draw(t, "by")].SetLevel(logLevels[level])
				if got := lg.GetLevel(); got != logLevels[level] {
					t.Fatalf("level %v after setting %s", got, logNames[level])
				}
				key = append(key, fmt.Sprintf("L%d", level))
			case act == 1:
				con = lv.Draw(t, "console")
				loggers[rapid.IntRange(0, len(loggers)-1).Draw(t, "by")].SetConsoleLevel(logLevels[con])
				if got := lg.GetConsoleLevel(); got != logLevels[con] {
					t.Fatalf("console level %v after setting %s", got, logNames[con])
				}
				key = append(key, fmt.Sprintf("C%d", con))
			case act == 2:
				m, l := module.Draw(t, "module"), lv.Draw(t, "mlevel")
				mods[m] = l
				loggers[rapid.IntRange(0, len(loggers)-1).Draw(t, "by")].SetModuleLevel(m, logLevels[l])
				key = append(key, fmt.Sprintf("%s=%d", m, l))
			case act == 3:
				if hasFile = !hasFile; hasFile {
					lg.SetFileWriter(file)
				} else {
					lg.SetFileWriter(nil)
				}
				key = append(key, fmt.Sprintf("file=%v", hasFile))
			case act == 4:
				caller = rapid.Bool().Draw(t, "caller")
				lg.SetReportCaller(caller)
			case act <= 6:
				// a logger with fields, of one that may have some
				by := rapid.IntRange(0, len(loggers)-1).Draw(t, "by")
				fs := log.Fields{}
				of := map[string]interface{}{}
				for k, v := range ofs[by] {
					of[k] = v
				}
				for _, k := range []string{log.FieldKeyModule, log.FieldKeyWallet, log.FieldKeyChain, log.FieldKeyPrefix, "a", "b"} {
					if rapid.IntRange(0, 2).Draw(t, k) == 0 {
						fs[k] = module.Draw(t, "v") + strings.Repeat("x", 4*(len(of)%2))
						if k == log.FieldKeyModule {
							fs[k] = module.Draw(t, "mod")
						}
						of[k] = fs[k]
					}
				}
				loggers, ofs = append(loggers, loggers[by].WithFields(fs)), append(ofs, of)
			default:
				by := rapid.IntRange(0, len(loggers)-1).Draw(t, "by")
				l := &logLine{lv: rapid.SampledFrom([]int{0, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6}).Draw(t, "lv"), fields: map[string]interface{}{}, caller: caller}
				l.msg = fmt.Sprintf("<%d-%d %s>", no, len(all), rapid.SampledFrom([]string{"x", "%d", "two words", "a=b", strings.Repeat("long", 50)}).Draw(t, "msg"))
				w, ch := "----", "-"
				l.module = "base"
				if !caller {
					l.module = "--"
				}
				mod := l.module
				if !caller {
					mod = ""
				}
				for k, v := range ofs[by] {
					switch k {
					case log.FieldKeyModule:
						l.module, mod = v.(string), v.(string)
					case log.FieldKeyWallet:
						w = (v.(string) + "----")[:4]
					case log.FieldKeyChain:
						ch = v.(string)
					case log.FieldKeyPrefix:
					default:
						l.fields[k] = v
					}
				}
				l.head = w + "|" + ch + "|"
				cl := con
				if m, ok := mods[mod]; ok && mod != "" {
					cl = m
				}
				l.console = l.lv <= level && l.lv <= cl
				l.file = l.lv <= level && hasFile
				l.forward = l.lv <= level && l.lv <= fwd
				all = append(all, l)
				key = append(key, fmt.Sprintf("%d@%s", l.lv, l.module))
				style := rapid.IntRange(0, 2).Draw(t, "style")
				global := by == 0 && rapid.Bool().Draw(t, "global")
				swallow(func() { writeLog(loggers[by], global, l.lv, style, l.msg) })
			}
		}
		c.Key("%v", key)
		var cons, fil, fw []*logLine
		for _, l := range all {
			if l.console {
				cons = append(cons, l)
			}
			if l.file {
				fil = append(fil, l)
			}
			if l.forward {
				fw = append(fw, l)
			}
		}
		c.NonTrivial(len(cons) > 0 && len(cons) < len(all))
		if b, err := os.ReadFile(console.Name()); err != nil {
			t.Fatalf("%v", err)
		} else if err := matchLines("console", string(b), cons); err != nil {
			t.Fatalf("%v (%v)", err, key)
		}
		if err := matchLines("file", file.b.String(), fil); err != nil {
			t.Fatalf("%v (%v)", err, key)
		}
		if forwarded != nil {
			swallow(func() { lg.Panic("end of the log") })
			for i := 0; ; i++ {
				text, ok := <-forwarded
				if !ok {
					t.Fatalf("the forwarder hung up after %d lines", i)
				}
				var m map[string]interface{}
				if err := json.Unmarshal([]byte(text), &m); err != nil {
					t.Fatalf("forwarded line %q: %v", text, err)
				}
				if m["message"] == "end of the log" {
					if i < len(fw) {
						t.Fatalf("%q was not forwarded (%v)", fw[i].msg, key)
					}
					break
				}
				if i >= len(fw) || m["message"] != fw[i].msg {
					t.Fatalf("%q is forwarded as line %d of %d (%v)", m["message"], i, len(fw), key)
				}
				if want := map[int]string{3: "warning"}[fw[i].lv]; want == "" && m["level"] != logNames[fw[i].lv] || want != "" && m["level"] != want {
					t.Fatalf("%q of level %s is forwarded with level %v", fw[i].msg, logNames[fw[i].lv], m["level"])
				}
				for k, v := range fw[i].fields {
					if m[k] != v {
						t.Fatalf("%q is forwarded with %s=%v, was %v", fw[i].msg, k, m[k], v)
					}
				}
			}
			c.Label("forwarded")
		}
	})
}

func writeLog(l log.Logger, global bool, lv, style int, msg string) {
	args := func(plain func(...interface{}), f func(string, ...interface{}), ln func(...interface{})) {
		switch style {
		case 0:
			plain(msg)
		case 1:
			f("%s", msg)
		default:
			ln(msg)
		}
	}
	if global {
		switch lv {
		case 0:
			args(log.Panic, log.Panicf, log.Panicln)
		case 2:
			args(log.Error, log.Errorf, log.Errorln)
		case 3:
			args(log.Warn, log.Warnf, log.Warnln)
		case 4:
			args(log.Info, log.Infof, log.Infoln)
		case 5:
			args(log.Debug, log.Debugf, log.Debugln)
		default:
			args(log.Trace, log.Tracef, log.Traceln)
		}
		return
	}
	switch lv {
	case 0:
		args(l.Panic, l.Panicf, l.Panicln)
	case 2:
		args(l.Error, l.Errorf, l.Errorln)
	case 3:
		args(l.Warn, l.Warnf, l.Warnln)
	case 4:
		args(l.Info, l.Infof, l.Infoln)
	case 5:
		args(l.Debug, l.Debugf, l.Debugln)
	default:
		args(l.Trace, l.Tracef, l.Traceln)
	}
}
