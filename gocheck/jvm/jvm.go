// Package jvm runs the Java contracts of /repo/javascore in the small SCORE runtime of /verif/jscore.
package jvm

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// Addr is an address of a contract or an account.
type Addr string

// Err is a failed call: a revert with its code or another failure (Code -1).
type Err struct {
	Revert bool
	Code   int
	Msg    string
}

var identity = regexp.MustCompile(`@[0-9a-f]+`)

func (e *Err) Error() string {
	return fmt.Sprintf("revert=%v code=%d %s", e.Revert, e.Code, identity.ReplaceAllString(e.Msg, ""))
}

// Event is an event log of a call.
type Event struct {
	Addr Addr
	Name string
	Args []interface{}
}

// Result of a call that did not fail.
type Result struct {
	Ret    interface{}
	Events []Event
}

// Mock answers a call of a contract that is not under test; it may call contracts itself while it runs.
type Mock func(from Addr, value *big.Int, method string, args []interface{}) (interface{}, error)

// VM is a running Java process.
type VM struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan string
	mocks map[Addr]Mock
	tmp   string
}

func repoDir() string {
	_, f, _, _ := runtime.Caller(0)
	return filepath.Join(filepath.Dir(f), "..", "..", "jscore")
}

// Start builds (unless run.py has) the given modules and starts the process.
func Start(modules ...string) (*VM, error) {
	dir, tmp := os.Getenv("VERIF_JAVA"), ""
	if dir == "" {
		d, err := os.MkdirTemp("", "verif-java")
		if err != nil {
			return nil, err
		}
		dir, tmp = d, d
		c := exec.Command("bash", append([]string{filepath.Join(repoDir(), "build.sh"), dir}, modules...)...)
		if o, err := c.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("java build: %v\n%s", err, o)
		}
	}
	v, err := start(exec.Command("java", "-Xmx512m", "-Xss16m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto",
		"--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED",
		"-Dverif.app="+filepath.Join(dir, "app"), "-cp", filepath.Join(dir, "rt"), "verif.Server"))
	if v != nil {
		v.tmp = tmp
	}
	return v, err
}

// StartPython starts the process that runs the contracts of /repo/pyscore.
func StartPython() (*VM, error) {
	return start(exec.Command("python3", "-B", filepath.Join(repoDir(), "..", "pyrt", "server.py")))
}

func start(c *exec.Cmd) (*VM, error) {
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = os.Stderr
	if err := c.Start(); err != nil {
		return nil, err
	}
	v := &VM{cmd: c, in: in, lines: make(chan string, 1), mocks: map[Addr]Mock{}}
	go func() {
		sc := bufio.NewReaderSize(out, 1<<20)
		for {
			l, err := sc.ReadString('\n')
			if err != nil {
				close(v.lines)
				return
			}
			v.lines <- l
		}
	}()
	return v, nil
}

// Close ends the process.
func (v *VM) Close() {
	_ = v.in.Close()
	_ = v.cmd.Process.Kill()
	_ = v.cmd.Wait()
	if v.tmp != "" {
		_ = os.RemoveAll(v.tmp)
	}
}

func enc(x interface{}) interface{} {
	switch t := x.(type) {
	case nil:
		return nil
	case bool:
		return t
	case int:
		return "i" + strconv.Itoa(t)
	case int64:
		return "i" + strconv.FormatInt(t, 10)
	case *big.Int:
		if t == nil {
			return nil
		}
		return "i" + t.String()
	case string:
		return "s" + t
	case Addr:
		if t == "" {
			return nil
		}
		return "a" + string(t)
	case []byte:
		if t == nil {
			return nil
		}
		return "b" + hex.EncodeToString(t)
	case [][]byte:
		l := []interface{}{}
		for _, e := range t {
			l = append(l, enc(e))
		}
		return l
	case []string:
		l := []interface{}{}
		for _, e := range t {
			l = append(l, enc(e))
		}
		return l
	case []interface{}:
		l := []interface{}{}
		for _, e := range t {
			l = append(l, enc(e))
		}
		return l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range t {
			m[k] = enc(e)
		}
		return m
	}
	panic(fmt.Sprintf("no encoding for %T", x))
}

func dec(x interface{}) interface{} {
	switch t := x.(type) {
	case string:
		switch t[0] {
		case 'i':
			b, _ := new(big.Int).SetString(t[1:], 10)
			return b
		case 's':
			return t[1:]
		case 'a':
			return Addr(t[1:])
		case 'b':
			b, _ := hex.DecodeString(t[1:])
			if b == nil {
				b = []byte{}
			}
			return b
		}
		panic("bad value " + t)
	case []interface{}:
		l := make([]interface{}, len(t))
		for i, e := range t {
			l[i] = dec(e)
		}
		return l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range t {
			m[k] = dec(e)
		}
		return m
	}
	return x
}

type wireEvent struct {
	Addr string        `json:"addr"`
	Name string        `json:"name"`
	Args []interface{} `json:"args"`
}

type answer struct {
	Ok     bool        `json:"ok"`
	Kind   string      `json:"kind"`
	Code   int         `json:"code"`
	Msg    string      `json:"msg"`
	Ret    interface{} `json:"ret"`
	Events []wireEvent `json:"events"`
	Cb     *struct {
		To     string        `json:"to"`
		From   string        `json:"from"`
		Value  string        `json:"value"`
		Method string        `json:"method"`
		Args   []interface{} `json:"args"`
	} `json:"cb"`
}

func (v *VM) send(m map[string]interface{}) {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	_, _ = v.in.Write(append(b, '\n'))
}

// Limit is how long a call may take before it counts as hanging.
var Limit = 120 * time.Second

func (v *VM) do(m map[string]interface{}) (*Result, error) {
	v.send(m)
	for {
		var l string
		var ok bool
		select {
		case l, ok = <-v.lines:
			if !ok {
				fmt.Println("VERIF-INCONCLUSIVE the process of the contracts ended")
				os.Exit(3)
			}
		case <-time.After(Limit):
			return nil, &Err{Code: -2, Msg: "the contract does not return"}
		}
		var a answer
		if err := json.Unmarshal([]byte(l), &a); err != nil {
			panic(fmt.Sprintf("%v in %s", err, l))
		}
		if a.Cb != nil {
			args := dec(a.Cb.Args).([]interface{})
			val, _ := new(big.Int).SetString(a.Cb.Value, 10)
			mk := v.mocks[Addr(a.Cb.To)]
			ret, err := mk(Addr(a.Cb.From), val, a.Cb.Method, args)
			if err != nil {
				if e, ok := err.(*Err); ok && e.Revert {
					v.send(map[string]interface{}{"revert": e.Code, "msg": e.Msg})
				} else {
					v.send(map[string]interface{}{"fail": err.Error()})
				}
			} else {
				v.send(map[string]interface{}{"ret": enc(ret)})
			}
			continue
		}
		if !a.Ok {
			return nil, &Err{Revert: a.Kind == "revert", Code: a.Code, Msg: a.Msg}
		}
		r := &Result{Ret: dec(a.Ret)}
		for _, e := range a.Events {
			r.Events = append(r.Events, Event{Addr(e.Addr), e.Name, dec(e.Args).([]interface{})})
		}
		return r, nil
	}
}

func (v *VM) must(m map[string]interface{}) *Result {
	r, err := v.do(m)
	if err != nil {
		panic(err)
	}
	return r
}

// Reset forgets every contract, balance and mock.
func (v *VM) Reset() {
	v.mocks = map[Addr]Mock{}
	v.must(map[string]interface{}{"op": "reset"})
}

// Mock puts a mock at an address.
func (v *VM) Mock(at Addr, m Mock) {
	v.mocks[at] = m
	v.must(map[string]interface{}{"op": "mock", "to": string(at)})
}

// Deploy puts a contract at an address.
func (v *VM) Deploy(at Addr, class string, from Addr, args ...interface{}) error {
	_, err := v.do(map[string]interface{}{"op": "deploy", "to": string(at), "class": class, "from": string(from), "args": enc(args)})
	return err
}

// Call sends a transaction (or, within a mock, makes a call from it).
func (v *VM) Call(from, to Addr, value int64, method string, args ...interface{}) (*Result, error) {
	return v.CallV(from, to, big.NewInt(value), method, args...)
}

// CallV is Call with a big value.
func (v *VM) CallV(from, to Addr, value *big.Int, method string, args ...interface{}) (*Result, error) {
	if args == nil {
		args = []interface{}{}
	}
	return v.do(map[string]interface{}{"op": "call", "to": string(to), "from": string(from), "value": value.String(), "method": method, "args": enc(args)})
}

// Query calls a readonly method.
func (v *VM) Query(to Addr, method string, args ...interface{}) (interface{}, error) {
	if args == nil {
		args = []interface{}{}
	}
	r, err := v.do(map[string]interface{}{"op": "query", "to": string(to), "from": "hx" + strings.Repeat("0", 40), "method": method, "args": enc(args)})
	if err != nil {
		return nil, err
	}
	return r.Ret, nil
}

// Q is a query of Queries.
type Q []interface{}

// Queries makes many queries at once; a result is nil if the query fails, else a list of the answer.
func (v *VM) Queries(to Addr, qs []Q) [][]interface{} {
	args := []interface{}{}
	for _, q := range qs {
		args = append(args, []interface{}(q))
	}
	r := v.must(map[string]interface{}{"op": "queries", "to": string(to), "from": "hx" + strings.Repeat("0", 40), "args": enc(args)})
	var out [][]interface{}
	for _, x := range r.Ret.([]interface{}) {
		l := x.([]interface{})
		if l[0].(bool) {
			out = append(out, l[1:])
		} else {
			out = append(out, nil)
		}
	}
	return out
}

// Block sets the height of the block the next calls are in.
func (v *VM) Block(h int64) {
	v.must(map[string]interface{}{"op": "block", "height": strconv.FormatInt(h, 10)})
}

// Mint gives an account coins.
func (v *VM) Mint(to Addr, n *big.Int) {
	v.must(map[string]interface{}{"op": "mint", "to": string(to), "value": n.String()})
}

// Balance of an account.
func (v *VM) Balance(a Addr) *big.Int {
	return v.must(map[string]interface{}{"op": "balance", "to": string(a)}).Ret.(*big.Int)
}

// Lib runs a function of the Python library.
func (v *VM) Lib(name string, args ...interface{}) (interface{}, error) {
	if args == nil {
		args = []interface{}{}
	}
	r, err := v.do(map[string]interface{}{"op": "lib", "method": name, "args": enc(args)})
	if err != nil {
		return nil, err
	}
	return r.Ret, nil
}

// Hash and Recover give access to the primitives of the runtime, for their own test.
func (v *VM) Hash(alg string, b []byte) []byte {
	return v.must(map[string]interface{}{"op": "hash", "method": alg, "args": enc([]interface{}{b})}).Ret.([]byte)
}

func (v *VM) Recover(msg, sig []byte) ([]byte, error) {
	r, err := v.do(map[string]interface{}{"op": "recover", "args": enc([]interface{}{msg, sig})})
	if err != nil {
		return nil, err
	}
	return r.Ret.([]byte), nil
}

// CX and HX make addresses of small numbers.
func CX(n int) Addr { return Addr(fmt.Sprintf("cx%040x", n)) }
func HX(n int) Addr { return Addr(fmt.Sprintf("hx%040x", n)) }
