package score

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/gocheck/jvm"
	"verif/gocheck/pbt"
)

// xmsg is a call message, followed from where it is sent until its last effect.
type xmsg struct {
	src      *xnet
	caller   jvm.Addr
	net, to  string
	data     []byte
	rollback []byte
	back     bool // has a rollback
	sn, nsn  int64

	dst      *xnet
	reqID    int64
	arrived  bool
	executed bool
	lost     bool // no service or no way at the other end
	code     int64
	answered bool
	enabled  bool
	rolled   bool
}

type xnet struct {
	w          *xworld
	i          int
	net        string
	bmc, xc    jvm.Addr
	addr       string
	sn, req    int64
	bySn       map[int64]*xmsg
	byReq      map[int64]*xmsg
	byNsn      map[int64]*xmsg
	fee        int64
	handler    jvm.Addr
	admin      jvm.Addr
	owner      jvm.Addr
	svc        bool
	kept, paid map[jvm.Addr]int64
}

type xworld struct {
	t       *rapid.T
	ns      []*xnet
	queue   map[string][][]byte
	bmvRet  []interface{}
	told    []string
	pending []*xmsg // calls sent in the transaction that is running
	cur     int64   // the request or serial number that is being executed
	curRb   bool
	depth   int
	all     []*xmsg
	done    map[string]int
	bmcGot  map[*xnet]int64
}

var xnets = []string{"0x1.icon", "0x2.icon", "0x3.bsc"}

const xnone = "0x9.none"

func dapp(i, k int) jvm.Addr { return jvm.CX(0x3000 + i*16 + k) }

// what a dApp of the harness does with data
func xplan(data []byte) (kind, arg int) {
	if len(data) > 0 {
		kind = int(data[0]) % 8
	}
	if len(data) > 1 {
		arg = int(data[1])
	}
	return
}

// outcome of a dApp that gets data
func xcode(data []byte) int64 {
	kind, arg := xplan(data)
	switch kind {
	case 1, 5:
		if arg == 0 {
			return -1
		}
		return int64(arg)
	case 2:
		return -1
	}
	return 0
}

func newXWorld(t *rapid.T) *xworld {
	vm.Reset()
	w := &xworld{t: t, queue: map[string][][]byte{}, done: map[string]int{}, bmcGot: map[*xnet]int64{}}
	must := func(_ interface{}, err error) {
		if err != nil {
			t.Fatalf("setup: %v", err)
		}
	}
	for i, net := range xnets {
		n := &xnet{w: w, i: i, net: net, bmc: jvm.CX(0x100 + i), xc: jvm.CX(0x200 + i), bySn: map[int64]*xmsg{}, byReq: map[int64]*xmsg{}, byNsn: map[int64]*xmsg{}, owner: jvm.HX(1), admin: jvm.HX(1), svc: true, kept: map[jvm.Addr]int64{}}
		n.addr = "btp://" + net + "/" + string(n.bmc)
		w.ns = append(w.ns, n)
		must(nil, vm.Deploy(n.bmc, "foundation.icon.btp.bmc.BTPMessageCenter", n.owner, net))
		must(nil, vm.Deploy(n.xc, "foundation.icon.btp.xcall.CallServiceImpl", n.owner, n.bmc))
		must(vm.Call(n.owner, n.bmc, 0, "addService", "xcall", n.xc))
		for k := 0; k < 2; k++ {
			at := dapp(i, k)
			vm.Mint(at, big.NewInt(1_000_000_000))
			vm.Mock(at, func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
				if method != "handleCallMessage" {
					w.told = append(w.told, fmt.Sprintf("%s %s", at, method))
					return nil, nil
				}
				return w.dapp(n, at, from, args)
			})
		}
		vm.Mock(jvm.CX(0x2000+i), func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
			if method == "getStatus" {
				return map[string]interface{}{"height": big.NewInt(1), "extra": []byte{}}, nil
			}
			return w.bmvRet, nil
		})
	}
	link := func(a, b *xnet) {
		must(vm.Call(a.owner, a.bmc, 0, "addVerifier", b.net, jvm.CX(0x2000+a.i)))
		r, err := vm.Call(a.owner, a.bmc, 0, "addLink", b.addr)
		must(nil, err)
		w.collect(r)
		must(vm.Call(a.owner, a.bmc, 0, "addRelay", b.addr, jvm.HX(0x51)))
	}
	for i := 0; i < 2; i++ {
		link(w.ns[i], w.ns[i+1])
		link(w.ns[i+1], w.ns[i])
	}
	a, b, c := w.ns[0], w.ns[1], w.ns[2]
	must(vm.Call(a.owner, a.bmc, 0, "addRoute", c.net, b.net))
	must(vm.Call(c.owner, c.bmc, 0, "addRoute", a.net, b.net))
	must(vm.Call(a.owner, a.bmc, 0, "addRoute", xnone, b.net))
	fees := func(n *xnet, to string, hops int) {
		var vs []interface{}
		for i := 0; i < 2*hops; i++ {
			vs = append(vs, int64(pbt.Pick(t, "fee", 6)))
		}
		must(vm.Call(n.owner, n.bmc, 0, "setFeeTable", []string{to}, []interface{}{vs}))
	}
	if pct(t, "fees", 75) {
		fees(a, b.net, 1)
		fees(b, a.net, 1)
		fees(b, c.net, 1)
		fees(c, b.net, 1)
		fees(a, c.net, 2)
		fees(c, a.net, 2)
		fees(a, xnone, 2)
	}
	for _, p := range people {
		vm.Mint(p, big.NewInt(1_000_000_000))
	}
	w.drainLinks()
	return w
}

// dapp is the code of the applications.
func (w *xworld) dapp(n *xnet, at, from jvm.Addr, args []interface{}) (interface{}, error) {
	data, _ := args[1].([]byte)
	w.told = append(w.told, fmt.Sprintf("%s by %s from %s data %x", at, from, args[0], data))
	kind, arg := xplan(data)
	start := len(w.pending)
	switch kind {
	case 3:
		// again, while it is being executed
		m := "executeCall"
		if w.curRb {
			m = "executeRollback"
		}
		told := len(w.told)
		_, err := vm.Call(at, n.xc, 0, m, w.cur)
		if err == nil || len(w.told) != told {
			w.told = append(w.told, "executed again within itself")
		}
		w.done["reentered"]++
	case 4, 5:
		if w.depth < 1 {
			w.depth++
			to := w.ns[arg%3]
			var rb []byte
			if arg&4 != 0 {
				rb = []byte{byte(arg >> 4)}
			}
			w.sendCall(n, at, to.net, string(dapp(to.i, arg>>3&1)), []byte{byte(arg >> 5), byte(arg)}, rb, rb != nil, 1000)
			w.depth--
		}
	}
	switch kind {
	case 1, 5:
		for _, m := range w.pending[start:] {
			m.src.sn--
			w.bmcGot[m.src] -= 1000 - m.src.fee
			w.moved(m.src, -1)
		}
		w.pending = w.pending[:start]
		return nil, &jvm.Err{Revert: true, Code: arg, Msg: "dApp reverts"}
	case 2:
		return nil, fmt.Errorf("dApp fails")
	}
	return nil, nil
}

// moved accounts for the protocol fee of a call.
func (w *xworld) moved(n *xnet, k int64) {
	if n.fee == 0 {
		return
	}
	if n.handler != "" {
		n.kept[n.handler] += k * n.fee
	} else {
		n.kept[n.xc] += k * n.fee
	}
}

// sendCall sends a call message; within a dApp it is part of the transaction that is running.
func (w *xworld) sendCall(n *xnet, from jvm.Addr, net, to string, data, rollback []byte, back bool, value int64) {
	q, err := vm.Query(n.bmc, "getFee", net, back)
	contract := strings.HasPrefix(string(from), "cx")
	ok := err == nil && (contract || !back) && len(data) <= 2048 && len(rollback) <= 1024
	need := int64(-1)
	if err == nil {
		need = q.(*big.Int).Int64() + n.fee
		f, ferr := vm.Query(n.xc, "getFee", net, back)
		if ferr != nil || f.(*big.Int).Int64() != need {
			w.t.Fatalf("%s: the fee for %s %v is %v %v for %d", n.net, net, back, f, ferr, need)
		}
	} else if _, err := vm.Query(n.xc, "getFee", net, back); err == nil {
		w.t.Fatalf("%s: there is a fee for %s, which cannot be reached", n.net, net)
	}
	if value == -1 {
		value = need
	} else if value == -2 {
		value = need - 1
	}
	if value < 0 {
		value = 0
	}
	if ok && value < need {
		ok = false
	}
	if !n.svc {
		ok = false // the message center takes messages of its services only
	}
	var rb interface{}
	if back {
		rb = rollback
	}
	dst := "btp://" + net + "/" + to
	r, err := vm.Call(from, n.xc, value, "sendCallMessage", dst, data, rb)
	what := fmt.Sprintf("%s: a call by %s to %s data of %d rollback %v of %d value %d (fee %d)", n.net, from, dst, len(data), back, len(rollback), value, need)
	if ok != (err == nil) {
		w.t.Fatalf("%s: accepted is %v for %v (%v)", what, err == nil, ok, err)
	}
	if err != nil {
		w.done["refused"]++
		return
	}
	n.sn++
	if sn, _ := r.Ret.(*big.Int); sn == nil || sn.Int64() != n.sn {
		w.t.Fatalf("%s: it has the serial number %v for %d", what, r.Ret, n.sn)
	}
	m := &xmsg{src: n, caller: from, net: net, to: to, data: data, rollback: rollback, back: back, sn: n.sn}
	w.pending = append(w.pending, m)
	w.moved(n, 1)
	w.bmcGot[n] += value - n.fee
	w.done["sent"]++
	if w.depth == 0 {
		w.settle(what, r, nil)
	} else {
		w.done["nested"]++
	}
}

// collect takes the messages of the BMCs and gives the events of the call services.
func (w *xworld) collect(r *jvm.Result) (l []string) {
	for _, e := range r.Events {
		for _, n := range w.ns {
			switch e.Addr {
			case n.bmc:
				if e.Name == "Message" {
					k := n.addr + ">" + e.Args[0].(string)
					w.queue[k] = append(w.queue[k], e.Args[2].([]byte))
				}
			case n.xc:
				a := e.Args
				switch e.Name {
				case "CallExecuted", "RollbackExecuted", "ResponseMessage":
					a = a[:2] // the text of an error is not compared
				case "CallMessageSent":
					if len(w.pending) == 0 {
						w.t.Fatalf("a call message is sent that nobody sent: %v", a)
					}
					m := w.pending[0]
					w.pending = w.pending[1:]
					nsn := a[3].(*big.Int).Int64()
					if fmt.Sprint(a[:3]...) != fmt.Sprint(m.caller, "btp://"+m.net+"/"+m.to, m.sn) || m.src != n || n.byNsn[nsn] != nil || nsn <= 0 {
						w.t.Fatalf("%s: the event of a call message is %v for %v %v %v", n.net, a, m.caller, m.to, m.sn)
					}
					m.nsn = nsn
					n.byNsn[nsn] = m
					if m.back {
						n.bySn[m.sn] = m
					}
					w.all = append(w.all, m)
					continue
				}
				l = append(l, fmt.Sprintf("%s %s %v", n.net, e.Name, a))
			}
		}
	}
	return
}

// settle compares what a transaction shows with what it should.
func (w *xworld) settle(what string, r *jvm.Result, want []string) {
	var got []string
	if r != nil {
		got = w.collect(r)
	}
	if len(w.pending) > 0 {
		w.t.Fatalf("%s: a call message that was sent is not shown", what)
	}
	if g, x := strings.Join(got, "\n  "), strings.Join(want, "\n  "); g != x {
		w.t.Fatalf("%s: gives\n  %s\nfor\n  %s", what, g, x)
	}
	for _, n := range w.ns {
		if b := vm.Balance(n.xc); b.Int64() != n.kept[n.xc] {
			w.t.Fatalf("%s: the call service of %s has %v for %d", what, n.net, b, n.kept[n.xc])
		}
		for k := 0; k < 2; k++ {
			h := jvm.HX(0x900 + n.i*2 + k)
			if b := vm.Balance(h); b.Int64() != n.kept[h] {
				w.t.Fatalf("%s: the fee handler of %s has %v for %d", what, n.net, b, n.kept[h])
			}
		}
		if b := vm.Balance(n.bmc); b.Int64() != w.bmcGot[n] {
			w.t.Fatalf("%s: the message center of %s has %v for %d of relay fees", what, n.net, b, w.bmcGot[n])
		}
	}
}

func (w *xworld) relay(from, to *xnet, n int) {
	k := from.addr + ">" + to.addr
	if n > len(w.queue[k]) {
		n = len(w.queue[k])
	}
	var want []string
	w.bmvRet = []interface{}{}
	for _, b := range w.queue[k][:n] {
		w.bmvRet = append(w.bmvRet, b)
		m, err := decodeMsg(b)
		if err != nil {
			w.t.Fatalf("a message that cannot be read: %x", b)
		}
		if m.svc != "xcall" {
			continue
		}
		if m.nsn > 0 {
			var x *xmsg
			for _, s := range w.ns {
				if s.net == m.src {
					x = s.byNsn[m.nsn]
				}
			}
			if x == nil || x.arrived || x.lost && m.dst == to.net {
				w.t.Fatalf("%s gets a call message that was not sent: %s", to.net, msgText(b, true))
			}
			switch {
			case m.dst == to.net && to.svc:
				to.req++
				x.arrived, x.dst, x.reqID = true, to, to.req
				to.byReq[to.req] = x
				want = append(want, fmt.Sprintf("%s CallMessage [btp://%s/%s %s %d %d]", to.net, x.src.net, x.caller, x.to, x.sn, to.req))
				w.done["arrived"]++
			case m.dst == to.net || m.dst == xnone:
				x.lost = true
				w.done["lost"]++
			}
		} else if m.dst == to.net {
			x := to.byNsn[-m.nsn]
			if x == nil || !x.back || x.answered {
				w.t.Fatalf("%s gets an answer it does not wait for: %s", to.net, msgText(b, true))
			}
			if !to.svc {
				w.done["unheard"]++
				continue // nobody is there to hear it
			}
			code := x.code
			if x.lost {
				code = -2
			} else if !x.executed {
				w.t.Fatalf("%s gets an answer to a call that was not executed", to.net)
			}
			x.answered = true
			want = append(want, fmt.Sprintf("%s ResponseMessage [%d %d]", to.net, x.sn, code))
			w.done["answered"]++
			if code != 0 {
				x.enabled = true
				w.done["failed"]++
				want = append(want, fmt.Sprintf("%s RollbackMessage [%d]", to.net, x.sn))
			}
		}
	}
	msg := base64.URLEncoding.EncodeToString([]byte("relay"))
	r, err := vm.Call(jvm.HX(0x51), to.bmc, 0, "handleRelayMessage", from.addr, msg)
	what := fmt.Sprintf("a relay message of %d from %s to %s", n, from.net, to.net)
	if err != nil {
		w.t.Fatalf("%s: %v", what, err)
	}
	w.queue[k] = append([][]byte{}, w.queue[k][n:]...)
	w.settle(what, r, want)
}

func (w *xworld) drainLinks() bool {
	any := false
	for again := true; again; {
		again = false
		for i := 0; i < 2; i++ {
			for _, p := range [][2]*xnet{{w.ns[i], w.ns[i+1]}, {w.ns[i+1], w.ns[i]}} {
				if k := p[0].addr + ">" + p[1].addr; len(w.queue[k]) > 0 {
					w.relay(p[0], p[1], 100)
					again, any = true, true
				}
			}
		}
	}
	return any
}

// execute runs a request of a network, or shows that it cannot be run.
func (w *xworld) execute(n *xnet, id int64, by jvm.Addr) {
	x := n.byReq[id]
	w.told, w.cur, w.curRb = nil, id, false
	what := fmt.Sprintf("%s: executeCall %d", n.net, id)
	if x == nil || x.executed || x.back && !n.svc {
		r, err := vm.Call(by, n.xc, 0, "executeCall", id)
		if err == nil {
			w.t.Fatalf("%s is accepted", what)
		}
		w.unwind()
		w.settle(what, r, nil)
		w.done["not executed"]++
		return
	}
	var told string
	x.code = xcode(x.data)
	known := false
	for k := 0; k < 2; k++ {
		known = known || x.to == string(dapp(n.i, k))
	}
	if known {
		told = fmt.Sprintf("%s by %s from btp://%s/%s data %x", x.to, n.xc, x.src.net, x.caller, x.data)
	} else {
		x.code = -1
	}
	r, err := vm.Call(by, n.xc, 0, "executeCall", id)
	if err != nil {
		w.t.Fatalf("%s: %v", what, err)
	}
	x.executed = true
	if got := strings.Join(w.told, "\n"); got != told {
		w.t.Fatalf("%s: the application is told\n  %s\nfor\n  %s", what, got, told)
	}
	w.done["executed"]++
	answers := 0
	for _, e := range r.Events {
		if e.Addr == n.bmc && e.Name == "Message" {
			if m, err := decodeMsg(e.Args[2].([]byte)); err == nil && m.nsn < 0 {
				answers++
				if m.nsn != -x.nsn || m.dst != x.src.net || m.src != n.net {
					w.t.Fatalf("%s: the answer is %s", what, msgText(e.Args[2].([]byte), true))
				}
			}
		}
	}
	if (answers == 1) != x.back || answers > 1 {
		w.t.Fatalf("%s: %d answers are sent, rollback %v", what, answers, x.back)
	}
	w.settle(what, r, []string{fmt.Sprintf("%s CallExecuted [%d %d]", n.net, id, x.code)})
}

// unwind forgets what a transaction that failed did.
func (w *xworld) unwind() {
	for _, m := range w.pending {
		m.src.sn--
		w.bmcGot[m.src] -= 1000 - m.src.fee
		w.moved(m.src, -1)
	}
	w.pending = nil
}

func (w *xworld) rollback(n *xnet, sn int64, by jvm.Addr) {
	x := n.bySn[sn]
	w.told, w.cur, w.curRb = nil, sn, true
	what := fmt.Sprintf("%s: executeRollback %d", n.net, sn)
	r, err := vm.Call(by, n.xc, 0, "executeRollback", sn)
	if x == nil || !x.enabled || x.rolled {
		if err == nil {
			w.t.Fatalf("%s is accepted", what)
		}
		w.unwind()
		w.settle(what, r, nil)
		w.done["not rolled back"]++
		return
	}
	if err != nil {
		w.t.Fatalf("%s: %v", what, err)
	}
	x.rolled = true
	told := fmt.Sprintf("%s by %s from btp://%s/%s data %x", x.caller, n.xc, n.net, n.xc, x.rollback)
	if got := strings.Join(w.told, "\n"); got != told {
		w.t.Fatalf("%s: the application is told\n  %s\nfor\n  %s", what, got, told)
	}
	w.done["rolled back"]++
	w.settle(what, r, []string{fmt.Sprintf("%s RollbackExecuted [%d %d]", n.net, sn, xcode(x.rollback))})
}

func (w *xworld) bytesOf(label string, max int) []byte {
	t := w.t
	switch pbt.Weighted(t, label+"Size", 60, 30, 3, 7) {
	case 0:
		return []byte{byte(pbt.Pick(t, label+"Kind", 8)), byte(pbt.Pick(t, label+"Arg", 256))}
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, label)
	case 2:
		return []byte{}
	}
	b := bytes.Repeat([]byte{0}, max-1+pbt.Pick(t, label+"Edge", 3))
	b[0] = byte(pbt.Pick(t, label+"First", 8))
	return b
}

func (w *xworld) step() {
	t := w.t
	n := w.ns[pbt.Pick(t, "net", 3)]
	who := oneOf(t, "who", people...)
	switch pbt.Weighted(t, "op", 30, 30, 20, 10, 4, 3, 3, 4) {
	case 0:
		from := dapp(n.i, pbt.Pick(t, "dapp", 2))
		if pct(t, "eoa", 15) {
			from = who
		}
		to := w.ns[(n.i+1+pbt.Pick(t, "to", 2))%3]
		net, acc := to.net, string(dapp(to.i, pbt.Pick(t, "todapp", 2)))
		switch pbt.Weighted(t, "odd", 80, 8, 4, 4, 4) {
		case 1:
			net = xnone
		case 2:
			net = n.net
		case 3:
			acc = oneOf(t, "acc", string(jvm.HX(0x77)), string(jvm.CX(0x77)), "0x1234", "cx12", "x")
		case 4:
			net = "0x5.gone"
		}
		value := oneOf(t, "value", int64(-1), -1, -2, 1000, 7)
		back := pct(t, "back", 65)
		var rb []byte
		if back {
			rb = w.bytesOf("rollback", 1024)
		}
		w.sendCall(n, from, net, acc, w.bytesOf("data", 2048), rb, back, value)
	case 1:
		i := pbt.Pick(t, "link", 2)
		a, b := w.ns[i], w.ns[i+1]
		if rapid.Bool().Draw(t, "dir") {
			a, b = b, a
		}
		w.relay(a, b, 1+pbt.Pick(t, "n", 5))
	case 2:
		id := n.req - int64(pbt.Pick(t, "id", 6)) + 1
		w.execute(n, id, who)
	case 3:
		w.rollback(n, n.sn-int64(pbt.Pick(t, "sn", 6))+1, who)
	case 4: // fees
		switch pbt.Pick(t, "feeop", 3) {
		case 0:
			v := int64(pbt.Pick(t, "fee", 9)) - 1
			_, err := vm.Call(who, n.xc, 0, "setProtocolFee", v)
			if ok := who == n.admin && v >= 0; ok != (err == nil) {
				t.Fatalf("%s: setProtocolFee %d by %s (admin %s) accepted is %v: %v", n.net, v, who, n.admin, err == nil, err)
			} else if ok {
				n.fee = v
			}
		case 1:
			h := jvm.HX(0x900 + n.i*2 + pbt.Pick(t, "handler", 3))
			var arg interface{} = h
			if h == jvm.HX(0x900+n.i*2+2) {
				h, arg = "", nil
			}
			_, err := vm.Call(who, n.xc, 0, "setProtocolFeeHandler", arg)
			if ok := who == n.admin; ok != (err == nil) {
				t.Fatalf("%s: setProtocolFeeHandler by %s (admin %s) accepted is %v: %v", n.net, who, n.admin, err == nil, err)
			} else if ok {
				n.handler = h
				if h != "" {
					n.kept[h] += n.kept[n.xc]
					n.kept[n.xc] = 0
				}
			}
		case 2:
			a := oneOf(t, "admin", people...)
			_, err := vm.Call(who, n.xc, 0, "setAdmin", a)
			if ok := who == n.owner; ok != (err == nil) {
				t.Fatalf("%s: setAdmin by %s accepted is %v: %v", n.net, who, err == nil, err)
			} else if ok {
				n.admin = a
			}
		}
		got := []interface{}{}
		for _, q := range vm.Queries(n.xc, []jvm.Q{{"admin"}, {"getProtocolFee"}, {"getProtocolFeeHandler"}, {"getBtpAddress"}}) {
			got = append(got, q[0])
		}
		h := interface{}(n.handler)
		if n.handler == "" {
			h = nil
		}
		if g, x := fmt.Sprint(got), fmt.Sprint([]interface{}{n.admin, n.fee, h, "btp://" + n.net + "/" + string(n.xc)}); g != x {
			t.Fatalf("%s: shows %s for %s", n.net, g, x)
		}
		w.settle("fees", nil, nil)
	case 5: // somebody who is not the message center
		m := oneOf(t, "forge", w.forged(n)...)
		if _, err := vm.Call(oneOf(t, "forger", who, dapp(n.i, 0), w.ns[(n.i+1)%3].bmc), n.xc, 0, m[0].(string), m[1:]...); err == nil {
			t.Fatalf("%s: %s of somebody who is not the message center is accepted", n.net, m[0])
		}
		w.settle("forging", nil, nil)
	case 6: // the service comes and goes
		if n.svc {
			if _, err := vm.Call(n.owner, n.bmc, 0, "removeService", "xcall"); err != nil {
				t.Fatalf("removeService: %v", err)
			}
		} else if _, err := vm.Call(n.owner, n.bmc, 0, "addService", "xcall", n.xc); err != nil {
			t.Fatalf("addService: %v", err)
		}
		n.svc = !n.svc
	case 7:
		w.drainLinks()
	}
}

func (w *xworld) forged(n *xnet) [][]interface{} {
	return [][]interface{}{
		{"handleBTPError", xnets[0], "xcall", n.sn, int64(1), "error"},
		{"handleBTPMessage", xnets[(n.i+1)%3], "xcall", -n.sn, []byte{0xc5, 2, 0x83, 0xc2, byte(n.sn & 0x7f), 0}},
		{"handleBTPMessage", xnets[(n.i+1)%3], "xcall", int64(5), []byte{0xc2, 1, 0xc0}},
	}
}

func TestQ01(t *testing.T) {
	pbt.Check(t, 60, "a call executed at the other end that succeeds, one that fails there or on the way, and a rollback executed",
		func(t *rapid.T, c *pbt.Case) {
			w := newXWorld(t)
			for i := 15 + pbt.Pick(t, "steps", 60); i > 0; i-- {
				w.step()
			}
			// in the end every call has happened once, and those that failed are rolled back once
			for _, n := range w.ns {
				if !n.svc {
					if _, err := vm.Call(n.owner, n.bmc, 0, "addService", "xcall", n.xc); err != nil {
						t.Fatalf("addService: %v", err)
					}
					n.svc = true
				}
			}
			for again := true; again; {
				again = w.drainLinks()
				for _, n := range w.ns {
					for id := int64(1); id <= n.req; id++ {
						if !n.byReq[id].executed {
							w.execute(n, id, people[0])
							again = true
						}
					}
					for sn := int64(1); sn <= n.sn; sn++ {
						if x := n.bySn[sn]; x != nil && x.enabled && !x.rolled {
							w.rollback(n, sn, people[1])
							again = true
						}
					}
				}
			}
			unheard := 0
			for _, x := range w.all {
				if !x.executed && !x.lost {
					t.Fatalf("the call %d of %s is never executed", x.sn, x.src.net)
				}
				if x.back && !x.answered {
					unheard++
				}
			}
			if unheard > w.done["unheard"] {
				t.Fatalf("%d calls with a rollback are never answered, %d answers came while the service was away", unheard, w.done["unheard"])
			}
			for _, n := range w.ns {
				for id := int64(0); id <= n.req+1; id++ {
					w.execute(n, id, people[2])
				}
				for sn := int64(0); sn <= n.sn+1; sn++ {
					w.rollback(n, sn, people[2])
				}
			}
			d := w.done
			c.Key("sent %d executed %d lost %d answered %d failed %d rolled back %d refused %d", d["sent"], d["executed"], d["lost"], d["answered"], d["failed"], d["rolled back"], d["refused"])
			for _, k := range sorted(d) {
				c.Label(k)
			}
			c.NonTrivial(d["executed"] > 0 && d["answered"] > d["failed"] && d["rolled back"] > 0)
		})
}
