package score

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/gocheck/jvm"
	"verif/gocheck/pbt"
)

// act is a message a service sends while it handles one.
type act struct {
	to, svc   string
	sn, value int64
	payload   []byte
}

type script struct {
	acts   []act
	revert int // code, or -1
	fail   bool
}

var nets = []string{"0x1.icon", "0x2.icon", "0x3.bsc", "0x4.hmny", "0xe.ext", "0x9.none"}

// messageScript is what the services of the harness do with a message, as its payload says.
func messageScript(src, svc string, sn int64, p []byte) (s script) {
	s.revert = -1
	at := func(i int) int {
		if i < len(p) {
			return int(p[i])
		}
		return 0
	}
	answer := act{to: src, svc: svc, sn: -sn, payload: []byte{0, byte(at(1))}}
	switch at(0) % 8 {
	case 1:
		if sn > 0 {
			s.acts = append(s.acts, answer)
		}
	case 2:
		s.revert = at(1) % 30
	case 3:
		s.fail = true
	case 4:
		s.acts = append(s.acts, answer)
		s.revert = at(1) % 30
	case 5:
		rest := []byte{0}
		if len(p) > 4 {
			rest = p[4:]
		}
		s.acts = append(s.acts, act{nets[at(1)%len(nets)], svc, int64(at(2) % 5), int64(at(3) % 100), rest})
	case 6:
		s.acts = append(s.acts, answer, answer)
	case 7:
		answer.value = 5
		s.acts = append(s.acts, answer)
	}
	return
}

func errorScript(sn int64) (s script) {
	s.revert = -1
	switch sn % 7 {
	case 5:
		s.revert = 3
	case 6:
		s.fail = true
	}
	return
}

type chainMsg struct {
	nid int64
	b   []byte
}

type world struct {
	t        *rapid.T
	bmcs     []*mbmc
	ext      string              // a BMC that is not simulated
	broken   map[int64]bool      // networks the chain refuses to send to
	queue    map[string][][]byte // messages on their way, by sender and receiver
	told     []string            // what services were told, observed
	nested   []string
	chain    []chainMsg // messages handed to the chain
	bmvRet   []interface{}
	bmvErr   *jvm.Err
	bmvGot   string
	given    map[string]int64 // coins given to a BMC for nothing
	extMsg   int              // number of messages of the BMC that is not simulated
	done     map[string]int   // what has happened, for the rule
	answered map[string]bool  // claims whose success was sent
}

var relayPool = []jvm.Addr{jvm.HX(0x51), jvm.HX(0x52), jvm.HX(0x53), jvm.HX(0x54), jvm.HX(0x55)}
var people = []jvm.Addr{jvm.HX(1), jvm.HX(2), jvm.HX(3)}

func bmvOf(b int, net string) jvm.Addr {
	for i, n := range nets {
		if n == net {
			return jvm.CX(0x2000 + b*16 + i)
		}
	}
	return jvm.CX(0x2fff)
}

var svcs = []string{"svcA", "svcB"}

func bshOf(b int, svc string) jvm.Addr {
	if svc == "svcA" {
		return jvm.CX(0x1000 + b*16)
	}
	return jvm.CX(0x1001 + b*16)
}

func newWorld(t *rapid.T, n int) *world {
	vm.Reset()
	w := &world{t: t, ext: "btp://0xe.ext/0xabc", broken: map[int64]bool{}, queue: map[string][][]byte{}, given: map[string]int64{}, answered: map[string]bool{}, done: map[string]int{}}
	vm.Mock(jvm.CX(0), func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
		nid := args[0].(*big.Int).Int64()
		if method != "sendBTPMessage" || w.broken[nid] {
			return nil, &jvm.Err{Revert: true, Code: 9, Msg: "broken"}
		}
		w.chain = append(w.chain, chainMsg{nid, args[1].([]byte)})
		return nil, nil
	})
	for i := 0; i < n; i++ {
		at := jvm.CX(0x100 + i)
		b := &mbmc{w: w, i: i, net: nets[i], at: at, owner: jvm.HX(1), addr: "btp://" + nets[i] + "/" + string(at), mstate: newState()}
		w.bmcs = append(w.bmcs, b)
		if err := vm.Deploy(at, "foundation.icon.btp.bmc.BTPMessageCenter", b.owner, b.net); err != nil {
			t.Fatalf("cannot deploy: %v", err)
		}
		for _, net := range nets {
			net := net
			vm.Mock(bmvOf(i, net), func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
				if method == "getStatus" {
					return map[string]interface{}{"height": big.NewInt(1), "extra": []byte{}}, nil
				}
				w.bmvGot = fmt.Sprintf("%s %s %s %v %v %v", bmvOf(i, net), from, method, args[0], args[1], args[2])
				if b, ok := args[3].([]byte); ok {
					w.bmvGot += fmt.Sprintf(" %x", b)
				}
				if w.bmvErr != nil {
					return nil, w.bmvErr
				}
				return w.bmvRet, nil
			})
		}
		for _, s := range svcs {
			bsh := bshOf(i, s)
			vm.Mint(bsh, big.NewInt(1_000_000))
			vm.Mock(bsh, func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
				var sc script
				sn := args[2].(*big.Int).Int64()
				switch method {
				case "handleBTPMessage":
					p := args[3].([]byte)
					w.told = append(w.told, fmt.Sprintf("told %s message %s %s %d %x", bsh, args[0], args[1], sn, p))
					sc = messageScript(args[0].(string), args[1].(string), sn, p)
				case "handleBTPError":
					w.told = append(w.told, fmt.Sprintf("told %s error %s %s %d %v", bsh, args[0], args[1], sn, args[3]))
					sc = errorScript(sn)
				default:
					w.told = append(w.told, "told "+method)
				}
				n := len(w.chain)
				for _, a := range sc.acts {
					c := 0
					if _, err := vm.Call(bsh, from, a.value, "sendMessage", a.to, a.svc, a.sn, a.payload); err != nil {
						c = err.(*jvm.Err).Code
					}
					w.nested = append(w.nested, fmt.Sprintf("nested %d", c))
				}
				if sc.fail {
					w.chain = w.chain[:n]
					return nil, fmt.Errorf("service fails")
				}
				if sc.revert >= 0 {
					w.chain = w.chain[:n]
					return nil, &jvm.Err{Revert: true, Code: sc.revert, Msg: "service reverts"}
				}
				return nil, nil
			})
		}
	}
	for _, a := range append(append([]jvm.Addr{}, people...), relayPool...) {
		vm.Mint(a, big.NewInt(1_000_000))
	}
	return w
}

func (w *world) byNet(net string) *mbmc {
	for _, b := range w.bmcs {
		if b.net == net {
			return b
		}
	}
	return nil
}

func lines(name string, in []string) string {
	var l []string
	for _, s := range in {
		if strings.HasPrefix(s, name+" ") {
			l = append(l, s)
		}
	}
	return strings.Join(l, "\n  ")
}

var kinds = []string{"Message", "BTPEvent", "MessageDropped", "ClaimReward", "ClaimRewardResult", "chain", "told", "nested"}

// call makes a call of a BMC and of its model and compares what they do.
func (w *world) call(b *mbmc, what string, from jvm.Addr, value int64, model func() *merr, method string, args ...interface{}) *merr {
	w.told, w.nested, w.chain = nil, nil, nil
	b.out = nil
	want := b.tx(model)
	r, err := vm.Call(from, b.at, value, method, args...)
	if want == nil && err != nil {
		w.t.Fatalf("%s: %s by %s fails with %v", b.net, what, from, err)
	}
	if want != nil {
		e, ok := err.(*jvm.Err)
		if err == nil {
			w.t.Fatalf("%s: %s by %s is accepted, for a failure with code %d", b.net, what, from, want.code)
		}
		if ok && want.code >= 0 && (!e.Revert || e.Code != want.code) {
			w.t.Fatalf("%s: %s by %s fails with %v, for code %d", b.net, what, from, err, want.code)
		}
		w.chain = nil
	}
	var got []string
	var sent [][2]interface{}
	got = append(got, w.told...)
	got = append(got, w.nested...)
	nids := map[int64]string{}
	for l, n := range b.nid {
		nids[n] = l
	}
	if r != nil {
		for _, e := range r.Events {
			if e.Addr != b.at {
				w.t.Fatalf("an event %s of %s", e.Name, e.Addr)
			}
			switch e.Name {
			case "Message":
				got = append(got, fmt.Sprintf("Message %v %v %s", e.Args[0], e.Args[1], msgText(e.Args[2].([]byte), false)))
				sent = append(sent, [2]interface{}{e.Args[0].(string), e.Args[2].([]byte)})
			case "BTPEvent":
				got = append(got, fmt.Sprintf("BTPEvent %v %v %v %v", e.Args...))
			case "MessageDropped":
				got = append(got, fmt.Sprintf("MessageDropped %v %v %s %v", e.Args[0], e.Args[1], msgText(e.Args[2].([]byte), true), e.Args[3]))
			case "ClaimReward":
				got = append(got, fmt.Sprintf("ClaimReward %v %v %v %v %v", e.Args...))
			case "ClaimRewardResult":
				got = append(got, fmt.Sprintf("ClaimRewardResult %v %v %v %v", e.Args...))
			default:
				w.t.Fatalf("an event %s", e.Name)
			}
		}
	}
	for _, c := range w.chain {
		got = append(got, fmt.Sprintf("chain %d %s", c.nid, msgText(c.b, false)))
		sent = append(sent, [2]interface{}{nids[c.nid], c.b})
	}
	for _, k := range kinds {
		if g, x := lines(k, got), lines(k, b.out); g != x {
			w.t.Fatalf("%s: %s by %s gives\n  %s\nfor\n  %s", b.net, what, from, g, x)
		}
	}
	for _, s := range sent {
		if m, err := decodeMsg(s[1].([]byte)); err == nil && m.src == b.net && m.svc == "bmc" && m.nsn < 0 && m.sn == 0 {
			w.answered[fmt.Sprintf("%s %d", m.dst, -m.nsn)] = true
		}
		k := b.addr + ">" + s[0].(string)
		w.queue[k] = append(w.queue[k], s[1].([]byte))
	}
	return want
}

func setText(x interface{}) string {
	var l []string
	switch v := x.(type) {
	case []interface{}:
		for _, e := range v {
			l = append(l, fmt.Sprint(e))
		}
	case []jvm.Addr:
		for _, e := range v {
			l = append(l, string(e))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func mapText(x map[string]interface{}) string {
	var l []string
	for k, v := range x {
		l = append(l, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func toMap[V any](m map[string]V) map[string]interface{} {
	r := map[string]interface{}{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// same compares the state a BMC shows with its model.
func (w *world) same(b *mbmc, after string) {
	var qs []jvm.Q
	var then []func(got interface{})
	// ask makes a query; without a check it is one that has to fail
	ask := func(what string, check func(got interface{}) (interface{}, interface{}), method string, args ...interface{}) {
		qs = append(qs, append(jvm.Q{method}, args...))
		then = append(then, func(got interface{}) {
			g, want := check(got)
			if fmt.Sprint(g) != fmt.Sprint(want) {
				w.t.Fatalf("%s: after %s, %s is %v for %v", b.net, after, what, g, want)
			}
		})
	}
	is := func(want interface{}) func(interface{}) (interface{}, interface{}) {
		return func(got interface{}) (interface{}, interface{}) { return got, want }
	}
	var ls []string
	for _, l := range b.links {
		l := l
		ls = append(ls, l.addr)
		ask("the relays of "+l.addr, func(g interface{}) (interface{}, interface{}) { return setText(g), setText(b.relays[l.addr]) }, "getRelays", l.addr)
		ask("the network of "+l.addr, is(b.nid[l.addr]), "getBTPLinkNetworkId", l.addr)
		if n := b.nid[l.addr]; n != 0 {
			ask("the offset of "+l.addr, is(b.offset[n]), "getBTPLinkOffset", l.addr)
		}
		if _, ok := b.verifiers[l.net]; ok {
			ask("the sequence sent to and received from "+l.addr, func(g interface{}) (interface{}, interface{}) {
				s := g.(map[string]interface{})
				return fmt.Sprint(s["tx_seq"], s["rx_seq"]), fmt.Sprint(l.tx, l.rx)
			}, "getStatus", l.addr)
		}
	}
	pos := map[string]int{}
	ask("the links", func(g interface{}) (interface{}, interface{}) {
		for i, l := range g.([]interface{}) {
			pos[l.(string)] = i
		}
		sort.Strings(ls)
		return setText(g), strings.Join(ls, " ")
	}, "getLinks")
	asMap := func(want string) func(interface{}) (interface{}, interface{}) {
		return func(got interface{}) (interface{}, interface{}) { return mapText(got.(map[string]interface{})), want }
	}
	ask("the network serial number", is(b.nsn), "getNetworkSn")
	ask("the verifiers", asMap(mapText(toMap(b.verifiers))), "getVerifiers")
	ask("the services", asMap(mapText(toMap(b.services))), "getServices")
	ask("the routes", func(g interface{}) (interface{}, interface{}) {
		// which of several links to a network is taken is theirs to say: follow the order they are listed in
		sort.SliceStable(b.links, func(i, j int) bool { return pos[b.links[i].addr] < pos[b.links[j].addr] })
		routes := map[string]interface{}{}
		for _, l := range b.links {
			for _, r := range l.reach {
				if _, ok := routes[netOf(r)]; !ok {
					routes[netOf(r)] = l.net
				}
			}
		}
		for k, v := range b.routes {
			routes[k] = v
		}
		return mapText(g.(map[string]interface{})), mapText(routes)
	}, "getRoutes")
	ask("the owners", func(g interface{}) (interface{}, interface{}) {
		return setText(g), setText(append([]jvm.Addr{b.owner}, b.owners...))
	}, "getOwners")
	ask("the fee handler", is(map[bool]string{true: "<nil>", false: string(b.feeHandler)}[b.feeHandler == ""]), "getFeeHandler")
	for _, a := range people {
		ask("isOwner of "+string(a), is(b.isOwner(a)), "isOwner", a)
	}
	for _, n := range nets {
		n := n
		if _, e := b.resolve(n); e == nil {
			ask("the fee table for "+n, func(g interface{}) (interface{}, interface{}) { return g.([]interface{})[0], b.feeOf(n, true) }, "getFeeTable", []string{n})
			ask("the fee for "+n, is(sum(b.feeOf(n, false))), "getFee", n, false)
			ask("the fee with an answer for "+n, is(sum(b.feeOf(n, true))), "getFee", n, true)
		} else if _, err := vm.Query(b.at, "getFeeTable", []string{n}); err == nil {
			w.t.Fatalf("%s: after %s, there is a fee for %s, which cannot be reached", b.net, after, n)
		}
		for _, a := range w.accounts(b) {
			ask("the reward of "+string(a)+" in "+n, is(b.rewards[rkey{a, n}]), "getReward", n, a)
		}
	}
	for i, r := range vm.Queries(b.at, qs) {
		if r == nil {
			w.t.Fatalf("%s: after %s, %s fails", b.net, after, qs[i][0])
		}
		then[i](r[0])
	}
}

func (w *world) accounts(b *mbmc) []jvm.Addr {
	return append(append([]jvm.Addr{b.at}, people...), relayPool...)
}

// conserved checks that the coins of every BMC are those of the fees and rewards that are owed.
func (w *world) conserved(after string) {
	for _, x := range w.bmcs {
		owed := w.given[x.net]
		for _, b := range w.bmcs {
			var qs []jvm.Q
			for _, a := range w.accounts(b) {
				qs = append(qs, jvm.Q{"getReward", x.net, a})
			}
			for _, r := range vm.Queries(b.at, qs) {
				owed += r[0].(*big.Int).Int64()
			}
			for _, i := range b.infos {
				if i.fee != nil && i.fee.net == x.net {
					owed += sum(i.fee.vals)
				}
			}
		}
		for _, q := range w.queue {
			for _, raw := range q {
				m, err := decodeMsg(raw)
				if err != nil {
					w.t.Fatalf("a message that does not decode: %v", err)
				}
				if m.fee != nil && m.fee.net == x.net {
					owed += sum(m.fee.vals)
				}
			}
		}
		// claims on their way: not yet credited or refunded
		for _, b := range w.bmcs {
			for nsn, r := range b.reqs {
				if r.dst == x.net && !w.credited(b, nsn) {
					owed += r.amount
				}
			}
		}
		if bal := vm.Balance(x.at); bal.Int64() != owed {
			w.t.Fatalf("after %s, the BMC of %s holds %v, and %d is owed", after, x.net, bal, owed)
		}
	}
}

// credited says if a claim was credited: its answer was sent, and is on its way back, or was dropped on its way.
func (w *world) credited(b *mbmc, nsn int64) bool {
	return w.answered[fmt.Sprintf("%s %d", b.net, nsn)]
}

// relay delivers the next messages on a link.
func (w *world) relay(b *mbmc, prev string, n int, by jvm.Addr, bmv *jvm.Err, frag bool) *merr {
	k := prev + ">" + b.addr
	q := w.queue[k]
	if n > len(q) {
		n = len(q)
	}
	w.bmvRet, w.bmvErr, w.bmvGot = []interface{}{}, bmv, ""
	for _, m := range q[:n] {
		w.bmvRet = append(w.bmvRet, m)
	}
	var me *merr
	if bmv != nil {
		me = &merr{code: bmv.Code}
		if !bmv.Revert {
			me.code = 0
		}
	}
	rx := int64(-1)
	if l := b.linkAt(prev); l != nil {
		rx = l.rx
	}
	_, hasBMV := b.verifiers[netOf(prev)]
	raw := []byte(fmt.Sprintf("relay message %d %s\xff\xfe", n, k))
	msg := base64.URLEncoding.EncodeToString(raw)
	e := w.call(b, fmt.Sprintf("a relay message of %d from %s", n, netOf(prev)), by, 0,
		func() *merr { return b.handleRelay(prev, by, me, q[:n]) }, "handleRelayMessage", prev, msg)
	if rx >= 0 && hasBMV {
		want := fmt.Sprintf("%s %s handleRelayMessage %s %s %d %x", bmvOf(b.i, netOf(prev)), b.at, b.addr, prev, rx, raw)
		if w.bmvGot != want && !(e != nil && w.bmvGot == "") {
			w.t.Fatalf("%s: the verifier is asked %s for %s", b.net, w.bmvGot, want)
		}
	}
	if e == nil {
		w.queue[k] = append([][]byte{}, w.queue[k][n:]...)
	}
	return e
}

func (w *world) send(b *mbmc, from jvm.Addr, to, svc string, sn, value int64, payload []byte) *merr {
	return w.call(b, fmt.Sprintf("sendMessage to %s %s sn %d value %d %x", to, svc, sn, value, payload), from, value,
		func() *merr { return b.sendMessage(from, to, svc, sn, value, payload) }, "sendMessage", to, svc, sn, payload)
}

func (w *world) claim(b *mbmc, from jvm.Addr, net, to string, value int64) *merr {
	e := w.call(b, fmt.Sprintf("claimReward of %s for %s value %d", net, to, value), from, value,
		func() *merr { return b.claim(from, net, to, value) }, "claimReward", net, to)
	if e == nil && net == b.net {
		w.given[b.net] += value
	}
	return e
}

func (w *world) admin(b *mbmc, from jvm.Addr, method string, args ...interface{}) *merr {
	return w.call(b, fmt.Sprintf("%s%v", method, args), from, 0, func() *merr { return b.admin(from, method, args) }, method, args...)
}

func (w *world) mustAdmin(b *mbmc, method string, args ...interface{}) {
	if e := w.admin(b, b.owner, method, args...); e != nil {
		panic(fmt.Sprintf("setup: %s%v code %d", method, args, e.code))
	}
}

// connect links two BMCs both ways.
func (w *world) connect(x, y *mbmc) {
	t := w.t
	for _, p := range [][2]*mbmc{{x, y}, {y, x}} {
		a, z := p[0], p[1]
		w.mustAdmin(a, "addVerifier", z.net, bmvOf(a.i, z.net))
		if pct(t, "btplink", 40) {
			w.mustAdmin(a, "addBTPLink", z.addr, 10*(a.i+1)+z.i)
		} else {
			w.mustAdmin(a, "addLink", z.addr)
		}
		for i := rapid.IntRange(1, 2).Draw(t, "relays"); i > 0; i-- {
			w.mustAdmin(a, "addRelay", z.addr, relayPool[i-1])
		}
	}
}

// rich gives every BMC coins, for where rewards of nothing can be made.
func (w *world) rich() {
	for _, b := range w.bmcs {
		vm.Mint(b.at, big.NewInt(1_000_000))
	}
}

// build makes a network: a tree of BMCs with, at times, an edge more, services, routes and fees.
func (w *world) build(fees bool) {
	t := w.t
	n := len(w.bmcs)
	near := make([]map[int]bool, n)
	for i := range near {
		near[i] = map[int]bool{}
	}
	join := func(i, j int) {
		if !near[i][j] {
			near[i][j], near[j][i] = true, true
			w.connect(w.bmcs[i], w.bmcs[j])
		}
	}
	for i := 1; i < n; i++ {
		j := i - 1
		if pct(t, "branch", 30) {
			j = pbt.Pick(t, "parent", i)
		}
		join(i, j)
	}
	if n > 2 && pct(t, "cycle", 20) {
		i := rapid.IntRange(0, n-2).Draw(t, "ci")
		join(i, rapid.IntRange(i+1, n-1).Draw(t, "cj"))
	}
	for _, b := range w.bmcs {
		for _, s := range svcs {
			if pct(t, "svc", 85) {
				w.mustAdmin(b, "addService", s, bshOf(b.i, s))
			}
		}
	}
	// routes and fees along the shortest paths
	for i := range w.bmcs {
		via, dist := map[int]int{i: i}, map[int]int{i: 0}
		for q := []int{i}; len(q) > 0; q = q[1:] {
			for j := 0; j < n; j++ {
				if near[q[0]][j] {
					if _, ok := via[j]; !ok {
						via[j], dist[j] = via[q[0]], dist[q[0]]+1
						if q[0] == i {
							via[j] = j
						}
						q = append(q, j)
					}
				}
			}
		}
		b := w.bmcs[i]
		for j := range w.bmcs {
			if j == i {
				continue
			}
			if dist[j] > 1 && !pct(t, "noroute", 15) {
				w.mustAdmin(b, "addRoute", nets[j], nets[via[j]])
			}
			if _, e := b.resolve(nets[j]); fees && e == nil && pct(t, "fee", 80) {
				hops := dist[j]
				if pct(t, "longfee", 25) {
					hops++
				}
				var vs []interface{}
				for k := 0; k < 2*hops; k++ {
					vs = append(vs, rapid.Int64Range(0, 9).Draw(t, "feev"))
				}
				w.mustAdmin(b, "setFeeTable", []string{nets[j]}, []interface{}{vs})
			}
		}
	}
	for _, b := range w.bmcs {
		w.same(b, "the setup")
	}
	if pct(t, "settled", 70) {
		w.drain()
	}
}

func (w *world) payload() []byte {
	t := w.t
	k := byte(oneOf(t, "beh", 0, 0, 1, 1, 1, 2, 3, 4, 5, 5, 6, 7))
	return append([]byte{k}, rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "payload")...)
}

const (
	opSend = iota
	opRelay
	opClaim
	opDrop
	opBreak
	opExt
)

// step does one thing; admin is how much of it is administration.
func (w *world) step(admin int, weights [6]int) {
	t := w.t
	b := w.bmcs[pbt.Pick(t, "bmc", len(w.bmcs))]
	if pct(t, "isadmin", admin) {
		w.adminStep(b)
		w.same(b, "an administrator's call")
		return
	}
	op := pbt.Weighted(t, "op", weights[:]...)
	switch op {
	case opSend:
		svc := oneOf(t, "svc", svcs...)
		if len(b.services) > 0 && !pct(t, "anysvc", 10) {
			svc = oneOf(t, "svchere", sorted(b.services)...)
		}
		from := bshOf(b.i, svc)
		if pct(t, "wrongbsh", 5) {
			from = oneOf(t, "from", people[0], bshOf(b.i, "svcA"), bshOf((b.i+1)%len(w.bmcs), svc))
		}
		to := nets[(b.i+1+pbt.Pick(t, "to", len(w.bmcs)-1))%len(w.bmcs)]
		if pct(t, "odd", 10) {
			to = oneOf(t, "oddto", nets...)
		}
		sn := oneOf(t, "sn", int64(0), rapid.Int64Range(1, 30).Draw(t, "newsn"), rapid.Int64Range(1, 30).Draw(t, "newsn2"))
		if pct(t, "answer", 15) {
			sn = -sn
			for _, k := range sorted(b.infos) { // a late answer to something that waits for one
				p := strings.Split(k, "|")
				if pct(t, "that", 40) {
					to, svc = p[0], p[1]
					if svc != "bmc" {
						from = bshOf(b.i, svc)
					}
					fmt.Sscan(p[2], &sn)
					sn = -sn
					break
				}
			}
		}
		value := oneOf(t, "value", int64(0), 5, 40, 90)
		if f := sum(b.feeOf(to, sn > 0)); sn >= 0 && pct(t, "exact", 85) {
			value = f
		}
		w.send(b, from, to, svc, sn, value, w.payload())
	case opRelay:
		var prevs [][2]string
		for _, x := range w.bmcs {
			for _, l := range x.links {
				if n := len(w.queue[l.addr+">"+x.addr]); n > 0 {
					prevs = append(prevs, [2]string{x.net, l.addr})
				}
			}
		}
		if len(prevs) == 0 || pct(t, "anylink", 5) {
			for _, l := range b.links {
				prevs = append(prevs, [2]string{b.net, l.addr})
			}
		}
		if len(prevs) == 0 {
			return
		}
		at := prevs[pbt.Pick(t, "prev", len(prevs))]
		b = w.byNet(at[0])
		prev := at[1]
		by := oneOf(t, "by", relayPool...)
		if rs := b.relays[prev]; len(rs) > 0 && !pct(t, "anyby", 8) {
			by = rs[pbt.Pick(t, "byi", len(rs))]
		}
		var bmv *jvm.Err
		if pct(t, "bmvfail", 6) {
			bmv = &jvm.Err{Revert: pct(t, "bmvrevert", 70), Code: oneOf(t, "bmvcode", 25, 26, 27, 0, 12), Msg: "no"}
		}
		w.relay(b, prev, 1+pbt.Pick(t, "n", 6)-pbt.Weighted(t, "none", 19, 1), by, bmv, false)
	case opClaim:
		by := oneOf(t, "claimer", append(append([]jvm.Addr{}, people...), relayPool...)...)
		net := nets[pbt.Pick(t, "cnet", len(w.bmcs))]
		for i := range w.bmcs { // somebody who has something to claim
			if x := w.bmcs[(b.i+i)%len(w.bmcs)]; len(w.claimable(x)) > 0 && !pct(t, "anyclaim", 10) {
				b = x
				break
			}
		}
		for _, k := range w.claimable(b) {
			if pct(t, "thisclaim", 70) {
				by, net = k.who, k.net
				if by == b.at {
					by = b.feeHandler
					if by == "" {
						by = people[0]
					}
				}
				break
			}
		}
		to := string(oneOf(t, "receiver", append(append([]jvm.Addr{}, people...), relayPool...)...))
		if pct(t, "badreceiver", 15) {
			to = oneOf(t, "badto", "hx12", "0x1234", "")
		}
		value := oneOf(t, "cvalue", int64(0), 0, 3)
		if f := sum(b.feeOf(net, true)); net != b.net && pct(t, "cexact", 80) {
			value = f
		}
		w.claim(b, by, net, to, value)
	case opDrop:
		for i := range w.bmcs {
			if x := w.bmcs[(b.i+i)%len(w.bmcs)]; w.dropStep(x) {
				b = x
				break
			}
		}
	case opBreak:
		for _, l := range sorted(b.nid) {
			if pct(t, "break", 30) {
				w.broken[b.nid[l]] = !w.broken[b.nid[l]]
			}
		}
		return
	default:
		w.inject()
		return
	}
	w.same(b, "the call")
}

func (w *world) claimable(b *mbmc) (l []rkey) {
	for k, v := range b.rewards {
		if v > 0 {
			l = append(l, k)
		}
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return
}

// dropStep drops the next message of a link, or tries to.
func (w *world) dropStep(b *mbmc) bool {
	t := w.t
	for _, l := range b.links {
		q := w.queue[l.addr+">"+b.addr]
		if len(q) == 0 || !pct(t, "dropthis", 70) {
			continue
		}
		m, err := decodeMsg(q[0])
		if err != nil {
			return false
		}
		if n, e := b.resolve(m.src); e != nil || n != l {
			continue // it would be taken for a message of another link
		}
		seq, svc, sn, nsn := l.rx+1, m.svc, m.sn, m.nsn
		from := b.owner
		good := true
		if pct(t, "wrongdrop", 20) {
			good = false
			switch rapid.IntRange(0, 3).Draw(t, "wd") {
			case 0:
				from = people[1]
			case 1:
				seq += oneOf(t, "dseq", int64(-1), 1)
			case 2:
				svc = "none"
			case 3:
				nsn = -nsn
				if sn == 0 {
					nsn = 0
				}
			}
		}
		net, vals, arg := "", []int64{}, []interface{}{}
		if m.fee != nil {
			net, vals = m.fee.net, m.fee.vals
			for _, v := range vals {
				arg = append(arg, v)
			}
		}
		e := w.call(b, fmt.Sprintf("dropMessage of %s seq %d %s sn %d nsn %d", m.src, seq, svc, sn, nsn), from, 0,
			func() *merr { return b.dropMessage(from, m.src, seq, svc, sn, nsn, net, vals) }, "dropMessage", m.src, seq, svc, sn, nsn, net, arg)
		if e == nil {
			k := l.addr + ">" + b.addr
			w.queue[k] = append([][]byte{}, w.queue[k][1:]...)
			if good {
				w.done["drop"]++
				if len(vals) > 1 && sum(vals[1:]) > 0 && sn <= 0 {
					w.done["drop with fee left"]++
				}
			}
		}
		return true
	}
	return false
}

// inject makes the BMC that is not simulated send something.
func (w *world) inject() {
	t := w.t
	for _, b := range w.bmcs {
		if b.linkAt(w.ext) == nil {
			if pct(t, "linkext", 30) && b.linkAt(w.ext) == nil {
				if _, ok := b.verifiers[nets[4]]; !ok {
					w.mustAdmin(b, "addVerifier", nets[4], bmvOf(b.i, nets[4]))
				}
				if e := w.admin(b, b.owner, "addLink", w.ext); e == nil {
					w.mustAdmin(b, "addRelay", w.ext, relayPool[0])
				}
				w.same(b, "a link")
			}
			continue
		}
		w.extMsg++
		m := &nmsg{src: nets[4], dst: oneOf(t, "xdst", nets...), svc: oneOf(t, "xsvc", "svcA", "svcB", "svcA", "none", "bmc"),
			sn: rapid.Int64Range(-3, 6).Draw(t, "xsn"), nsn: rapid.Int64Range(-20, 20).Draw(t, "xnsn"), payload: w.payload()}
		if pct(t, "xsrc", 15) {
			m.src = oneOf(t, "xsrcn", nets...)
		}
		if m.sn < 0 {
			m.payload = encResponse(rapid.Int64Range(0, 9).Draw(t, "xcode"))
		} else if m.svc == "bmc" {
			switch rapid.IntRange(0, 4).Draw(t, "xint") {
			case 0:
				m.payload = encLinks("Init", "btp://0x9.none/0x1", "btp://"+oneOf(t, "xreach", nets...)+"/0x2")
			case 1:
				m.payload = encLinks("Link", "btp://0x9.none/0x1")
			case 2:
				m.payload = encLinks("Unlink", "btp://0x9.none/0x1")
			case 3:
				m.payload = encInternal("Nothing", []byte{1})
			}
		}
		if pct(t, "xfee", 70) {
			m.fee = &nfee{net: oneOf(t, "xfeenet", nets...)}
			for i := rapid.IntRange(0, 5).Draw(t, "xfees"); i > 0; i-- {
				m.fee.vals = append(m.fee.vals, rapid.Int64Range(0, 9).Draw(t, "xfeev"))
			}
		}
		k := w.ext + ">" + b.addr
		w.queue[k] = append(w.queue[k], m.encode())
		return
	}
}

// adminStep makes a call of an administrator, at times of somebody else.
func (w *world) adminStep(b *mbmc) {
	t := w.t
	from := b.owner
	if pct(t, "notowner", 20) {
		from = oneOf(t, "admin", people...)
	}
	net := func() string { return oneOf(t, "anet", nets...) }
	link := func() string {
		if len(b.links) > 0 && pct(t, "alinkreal", 75) {
			return b.links[pbt.Pick(t, "alink", len(b.links))].addr
		}
		n := net()
		if x := w.byNet(n); x != nil && x != b {
			return x.addr
		}
		return "btp://" + oneOf(t, "alinknet", nets[4], nets[5]) + "/0xabc"
	}
	switch pbt.Pick(t, "call", 17) {
	case 0:
		n := net()
		w.admin(b, from, "addVerifier", n, bmvOf(b.i, n))
	case 1:
		w.admin(b, from, "removeVerifier", net())
	case 2:
		s := oneOf(t, "asvc", "svcA", "svcB", "svcA", "svcC", "bmc", "a-b", "x y")
		w.admin(b, from, "addService", s, bshOf(b.i, s))
	case 3:
		w.admin(b, from, "removeService", oneOf(t, "rsvc", "svcA", "svcB", "svcC", "bmc"))
	case 4, 5:
		l := link()
		if pct(t, "asbtp", 30) {
			w.admin(b, from, "addBTPLink", l, rapid.IntRange(-1, 60).Draw(t, "nid"))
		} else {
			w.admin(b, from, "addLink", l)
		}
	case 6, 7:
		l := link()
		if w.admin(b, from, "removeLink", l) == nil {
			w.done["removeLink"]++
		}
	case 8:
		w.admin(b, from, "addRoute", net(), net())
	case 9:
		w.admin(b, from, "removeRoute", net())
	case 10, 11:
		w.admin(b, from, "addRelay", link(), oneOf(t, "arelay", relayPool...))
	case 12:
		w.admin(b, from, "removeRelay", link(), oneOf(t, "rrelay", relayPool...))
	case 13:
		w.admin(b, from, oneOf(t, "own", "addOwner", "addOwner", "removeOwner"), oneOf(t, "owner", people...))
	case 14:
		w.admin(b, from, "setFeeHandler", oneOf(t, "handler", people[2], relayPool[4], jvm.Addr("")))
	case 15:
		var ds []string
		var vs []interface{}
		for i := rapid.IntRange(0, 3).Draw(t, "fees"); i > 0; i-- {
			ds = append(ds, net())
			var v []interface{}
			for j := oneOf(t, "flen", 0, 2, 2, 4, 4, 6, 3); j > 0; j-- {
				v = append(v, oneOf(t, "fv", int64(0), 1, 2, 7, 30, -1))
			}
			if v == nil && pct(t, "fnil", 50) {
				vs = append(vs, nil)
			} else {
				vs = append(vs, append([]interface{}{}, v...))
			}
		}
		if pct(t, "fodd", 5) {
			ds = append(ds, net())
		}
		if ds == nil {
			ds = []string{}
		}
		if vs == nil {
			vs = []interface{}{}
		}
		w.admin(b, from, "setFeeTable", ds, vs)
	case 16:
		l := link()
		if x := b.linkAt(l); x != nil && b.nid[l] != 0 {
			return // the old network keeps its place; not of interest
		}
		w.admin(b, from, "setBTPLinkNetworkId", l, rapid.IntRange(-1, 60).Draw(t, "nid2"))
	}
}

// drain delivers everything that is on its way.
func (w *world) drain() {
	w.broken = map[int64]bool{}
	for round := 0; round < 60; round++ {
		quiet := true
		for _, b := range w.bmcs {
			for _, l := range append([]*mlink{}, b.links...) {
				if len(w.queue[l.addr+">"+b.addr]) == 0 || len(b.relays[l.addr]) == 0 {
					continue
				}
				if _, ok := b.verifiers[l.net]; !ok {
					continue
				}
				quiet = false
				if e := w.relay(b, l.addr, 100, b.relays[l.addr][0], nil, false); e != nil {
					w.t.Fatalf("%s: what is on its way from %s cannot be delivered: code %d", b.net, l.net, e.code)
				}
			}
		}
		if quiet {
			for _, b := range w.bmcs {
				w.same(b, "everything was delivered")
			}
			return
		}
	}
}
