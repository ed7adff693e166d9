package score

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verif/gocheck/fake"
	"verif/gocheck/jvm"
	"verif/gocheck/pbt"
)

// Coin services (javascore nativecoin) of several networks with a message center that delivers each message once.

type casset struct {
	coin        string
	amount, fee int64
}

type ctx struct {
	from, to string
	net      string
	assets   []casset
}

type cmsg struct {
	src, dst *cnet
	sn       int64
	kind     int // 0 a request, 2 a response, 9 an error of the message center
	payload  []byte
	tx       *ctx
	code     int64
}

type cstate struct {
	native         map[jvm.Addr]int64
	token          map[string]int64 // coin|owner
	locked, refund map[string]int64 // coin|owner
	fees           map[string]int64
	txs            map[int64]*ctx
	sn             int64
	minted         map[string]bool
}

type cnet struct {
	i             int
	net, name     string
	bmc, ncs, irc jvm.Addr
	coins         []string
	ratio         int64
	owners        map[jvm.Addr]bool
	approved      map[jvm.Addr]bool
	cstate
}

type cworld struct {
	t     *rapid.T
	ns    []*cnet
	queue []*cmsg // on their way
	sent  []*cmsg // by the transaction that is running
	down  bool    // the message center refuses
	bad   string
	made  map[string]int64 // coins that came from a network that is not simulated
	done  map[string]int
}

const cext = "0x7.ext"

var cnames = []string{"ICX", "BNB", "ONE"}
var cnetNames = []string{"0x1.icon", "0x2.bsc", "0x3.hmny"}
var grumpy = jvm.CX(0x4001) // a contract that takes no coins

func tokenID(coin string) *big.Int {
	h := sha3.Sum256([]byte(coin))
	n := new(big.Int).SetBytes(h[:])
	if h[0] >= 0x80 {
		n.Sub(n, new(big.Int).Lsh(big.NewInt(1), 256))
	}
	return n
}

func newCWorld(t *rapid.T) *cworld {
	vm.Reset()
	w := &cworld{t: t, done: map[string]int{}, made: map[string]int64{}}
	must := func(_ interface{}, err error) {
		if err != nil {
			t.Fatalf("setup: %v", err)
		}
	}
	for k := range cnames {
		vm.Mock(jvm.CX(0x4100+k), func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
			return nil, nil
		})
	}
	vm.Mock(grumpy, func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
		return nil, &jvm.Err{Revert: true, Code: 1, Msg: "no"}
	})
	for i := range cnames {
		n := &cnet{i: i, net: cnetNames[i], name: cnames[i], bmc: jvm.CX(0x100 + i), ncs: jvm.CX(0x200 + i), irc: jvm.CX(0x300 + i), ratio: 10,
			cstate: cstate{native: map[jvm.Addr]int64{}, token: map[string]int64{}, locked: map[string]int64{}, refund: map[string]int64{}, fees: map[string]int64{}, txs: map[int64]*ctx{}, minted: map[string]bool{}},
			owners: map[jvm.Addr]bool{jvm.HX(1): true}, approved: map[jvm.Addr]bool{}}
		w.ns = append(w.ns, n)
		vm.Mock(n.bmc, func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
			switch method {
			case "getBtpAddress":
				return "btp://" + n.net + "/" + string(n.bmc), nil
			case "sendMessage":
				m := &cmsg{src: n, sn: args[2].(*big.Int).Int64(), payload: args[3].([]byte)}
				for _, d := range w.ns {
					if d.net == args[0] {
						m.dst = d
					}
				}
				if from != n.ncs || args[1] != "nativecoin" || value.Sign() != 0 {
					w.bad = fmt.Sprintf("%s: a message of %s for %v", n.net, from, args[1])
				}
				if w.down || m.dst == nil && args[0] != cext {
					return nil, &jvm.Err{Revert: true, Code: 12, Msg: "unreachable"}
				}
				w.sent = append(w.sent, m)
				return big.NewInt(1), nil
			}
			return nil, fmt.Errorf("no method %s", method)
		})
		must(nil, vm.Deploy(n.irc, "foundation.icon.btp.nativecoin.irc31.OwnerBasedIRC31Supplier", jvm.HX(1)))
		must(nil, vm.Deploy(n.ncs, "foundation.icon.btp.nativecoin.NativeCoinService", jvm.HX(1), n.bmc, n.irc, n.name))
		must(vm.Call(jvm.HX(1), n.irc, 0, "addOwner", n.ncs))
		// also because the contracts share their classes here: the default properties are not used from now on
		must(vm.Call(jvm.HX(1), n.ncs, 0, "setFeeRatio", 10))
		for j, c := range cnames {
			if j != i && pct(t, "registered", 90) {
				must(vm.Call(jvm.HX(1), n.ncs, 0, "register", c))
				n.coins = append(n.coins, c)
			}
		}
		for k := 0; k < 3; k++ {
			u := n.user(k)
			vm.Mint(u, big.NewInt(1_000_000))
			n.native[u] = 1_000_000
			if pct(t, "approved", 90) {
				must(vm.Call(u, n.irc, 0, "setApprovalForAll", n.ncs, true))
				n.approved[u] = true
			}
		}
	}
	return w
}

// user is the account of a user in a network; the networks share one runtime, so their accounts are told apart.
func (n *cnet) user(k int) jvm.Addr {
	if k == 2 {
		return jvm.CX(0x4100 + n.i)
	}
	return jvm.HX(0x1100 + n.i*16 + k)
}

func (n *cnet) has(coin string) bool {
	for _, c := range n.coins {
		if c == coin {
			return true
		}
	}
	return false
}
func (n *cnet) known(coin string) bool { return coin == n.name || n.has(coin) }

func bk(coin string, a jvm.Addr) string { return coin + "|" + string(a) }

func (n *cnet) copyState() cstate {
	return cstate{cloneMap(n.native), cloneMap(n.token), cloneMap(n.locked), cloneMap(n.refund), cloneMap(n.fees), cloneMap(n.txs), n.sn, cloneMap(n.minted)}
}

func (n *cnet) supply(coin string) (s int64) {
	for k, v := range n.token {
		if strings.HasPrefix(k, coin+"|") {
			s += v
		}
	}
	return
}

// call makes a transaction of a coin service and of the model and compares.
func (w *cworld) call(n *cnet, what string, from jvm.Addr, value int64, model func() (bool, []string, *cmsg), method string, args ...interface{}) bool {
	what = n.net + ": " + what
	old := n.copyState()
	w.sent, w.bad = nil, ""
	ok, events, out := model()
	r, err := vm.Call(from, n.ncs, value, method, args...)
	if w.bad != "" {
		w.t.Fatalf("%s: %s", what, w.bad)
	}
	if ok != (err == nil) {
		w.t.Fatalf("%s: accepted is %v for %v (%v)", what, err == nil, ok, err)
	}
	if !ok {
		n.cstate = old
		w.done["refused"]++
	} else {
		var got []string
		for _, e := range r.Events {
			if e.Addr != n.ncs {
				continue
			}
			a := append([]interface{}{}, e.Args...)
			if b, ok := a[len(a)-1].([]byte); ok {
				if e.Name == "TransferEnd" {
					a = a[:len(a)-1] // the text is not compared
				} else {
					a[len(a)-1] = fmt.Sprintf("%x", b)
				}
			}
			got = append(got, e.Name+fmt.Sprint(a))
		}
		if g, x := strings.Join(got, " "), strings.Join(events, " "); g != x {
			w.t.Fatalf("%s: shows\n  %s\nfor\n  %s", what, g, x)
		}
		if (out != nil) != (len(w.sent) == 1) || len(w.sent) > 1 {
			w.t.Fatalf("%s: sends %d messages", what, len(w.sent))
		}
		if out != nil {
			s := w.sent[0]
			if s.sn != out.sn || s.dst != out.dst {
				w.t.Fatalf("%s: sends %x with the number %d for %d", what, s.payload, s.sn, out.sn)
			}
			switch out.kind {
			case 0:
				if x := out.payload; fmt.Sprintf("%x", x) != fmt.Sprintf("%x", s.payload) {
					w.t.Fatalf("%s: sends %x for %x", what, s.payload, x)
				}
			case 2:
				if !strings.HasPrefix(fmt.Sprintf("%x", s.payload), "d30291d100") && !isResponse(s.payload, 0) {
					w.t.Fatalf("%s: answers %x", what, s.payload)
				}
			}
			s.kind, s.tx, s.code = out.kind, out.tx, out.code
			if s.dst != nil {
				w.queue = append(w.queue, s)
			}
		}
	}
	w.same(n, what)
	return ok
}

// isResponse tells whether a payload is a response with a code.
func isResponse(b []byte, code int64) bool {
	it, err := fake.ParseRLP(b)
	if err != nil {
		return false
	}
	f, err := it.Seq(2)
	if err != nil {
		return false
	}
	typ, err := f[0].Int()
	d, err2 := f[1].Blob()
	if err != nil || err2 != nil || typ != 2 {
		return false
	}
	it, err = fake.ParseRLP(d)
	if err != nil {
		return false
	}
	f, err = it.Seq(2)
	if err != nil {
		return false
	}
	c, err := f[0].Int()
	return err == nil && c == code
}

func encRequest(from, to string, assets []casset) []byte {
	var l [][]byte
	for _, a := range assets {
		l = append(l, fake.EncList(fake.EncBytes([]byte(a.coin)), fake.EncInt(a.amount)))
	}
	return fake.EncList(fake.EncInt(0), fake.EncBytes(fake.EncList(fake.EncBytes([]byte(from)), fake.EncBytes([]byte(to)), fake.EncList(l...))))
}

func encDetails(assets []casset) []byte {
	var l [][]byte
	for _, a := range assets {
		l = append(l, fake.EncList(fake.EncBytes([]byte(a.coin)), fake.EncInt(a.amount), fake.EncInt(a.fee)))
	}
	return fake.EncList(l...)
}

// same compares everything a coin service shows with the model.
func (w *cworld) same(n *cnet, after string) {
	accs := []jvm.Addr{n.ncs, n.user(0), n.user(1), n.user(2), grumpy}
	for _, a := range accs {
		if b := vm.Balance(a); b.Int64() != n.native[a] {
			w.t.Fatalf("after %s: %s has %v coins for %d", after, a, b, n.native[a])
		}
	}
	var qs []jvm.Q
	var want []string
	ask := func(x interface{}, q ...interface{}) { qs, want = append(qs, q), append(want, fmt.Sprint(x)) }
	for _, a := range accs[1:] {
		var l []interface{}
		for _, c := range cnames {
			l = append(l, map[string]interface{}{"locked": n.locked[bk(c, a)], "refundable": n.refund[bk(c, a)]})
		}
		ask(l, "balanceOfBatch", a, cnames)
	}
	for _, c := range cnames {
		ask(map[string]interface{}{"locked": 0, "refundable": n.fees[c]}, "balanceOf", n.ncs, c)
		id := interface{}(nil)
		if c == n.name {
			id = strings.Repeat("0", 64)
		} else if n.has(c) {
			h := sha3.Sum256([]byte(c))
			id = fmt.Sprintf("%x", h)
		}
		ask(id, "coinId", c)
	}
	ask(append([]string{n.name}, n.coins...), "coinNames")
	ask(n.ratio, "feeRatio")
	for sn := n.sn - 3; sn <= n.sn+1; sn++ {
		if tx := n.txs[sn]; tx != nil {
			var l []interface{}
			for _, a := range tx.assets {
				l = append(l, map[string]interface{}{"amount": a.amount, "coinName": a.coin, "fee": a.fee})
			}
			ask(map[string]interface{}{"assets": l, "from": tx.from, "to": tx.to}, "getTransaction", sn)
		} else {
			ask(nil, "getTransaction", sn)
		}
	}
	for i, r := range vm.Queries(n.ncs, qs) {
		if r == nil || fmt.Sprint(r[0]) != want[i] {
			w.t.Fatalf("after %s: %v is %v for %v", after, qs[i], r, want[i])
		}
	}
	qs, want = nil, nil
	for _, c := range cnames {
		if c == n.name {
			continue
		}
		for _, a := range accs {
			ask(n.token[bk(c, a)], "balanceOf", a, tokenID(c))
		}
		if n.minted[c] {
			ask(n.supply(c), "totalSupply", tokenID(c))
		}
	}
	for i, r := range vm.Queries(n.irc, qs) {
		if r == nil || fmt.Sprint(r[0]) != want[i] {
			w.t.Fatalf("after %s: of tokens %v is %v for %v", after, qs[i], r, want[i])
		}
	}
}

// start is what sending coins does.
func (w *cworld) start(n *cnet, u jvm.Addr, net, to string, assets []casset) (bool, []string, *cmsg) {
	for i := range assets {
		a := &assets[i]
		total := a.amount
		a.fee = new(big.Int).Quo(new(big.Int).Mul(big.NewInt(total), big.NewInt(n.ratio)), big.NewInt(10000)).Int64()
		if a.fee == 0 {
			a.fee = 1
		}
		a.amount = total - a.fee
		if a.amount < 1 {
			return false, nil, nil
		}
		n.locked[bk(a.coin, u)] += total
	}
	var dst *cnet
	for _, d := range w.ns {
		if d.net == net {
			dst = d
		}
	}
	if w.down || dst == nil {
		return false, nil, nil
	}
	n.sn++
	tx := &ctx{from: string(u), to: "btp://" + net + "/" + to, net: net, assets: assets}
	n.txs[n.sn] = tx
	w.done["sent"]++
	return true, []string{fmt.Sprintf("TransferStart[%s %s %d %x]", u, tx.to, n.sn, encDetails(assets))},
		&cmsg{dst: dst, sn: n.sn, payload: encRequest(string(u), to, assets), tx: tx}
}

func (w *cworld) moveToken(n *cnet, coin string, from, to jvm.Addr, v int64) bool {
	if v < 0 || n.token[bk(coin, from)] < v || from != n.ncs && !n.approved[from] {
		return false
	}
	n.token[bk(coin, from)] -= v
	n.token[bk(coin, to)] += v
	return true
}

func (w *cworld) sendNative(n *cnet, u jvm.Addr, v int64, net, to string) {
	w.call(n, fmt.Sprintf("%s sends %d %s to %s %s", u, v, n.name, net, to), u, v, func() (bool, []string, *cmsg) {
		if v <= 0 {
			return false, nil, nil
		}
		n.native[u] -= v
		n.native[n.ncs] += v
		return w.start(n, u, net, to, []casset{{n.name, v, 0}})
	}, "transferNativeCoin", "btp://"+net+"/"+to)
}

func (w *cworld) sendToken(n *cnet, u jvm.Addr, coin string, v int64, net, to string) {
	w.call(n, fmt.Sprintf("%s sends %d of %s to %s %s", u, v, coin, net, to), u, 0, func() (bool, []string, *cmsg) {
		if v <= 0 || !n.has(coin) || !w.moveToken(n, coin, u, n.ncs, v) {
			return false, nil, nil
		}
		return w.start(n, u, net, to, []casset{{coin, v, 0}})
	}, "transfer", coin, v, "btp://"+net+"/"+to)
}

func (w *cworld) sendBatch(n *cnet, u jvm.Addr, coins []string, vs []int64, v int64, net, to string) {
	var big []interface{}
	for _, x := range vs {
		big = append(big, x)
	}
	w.call(n, fmt.Sprintf("%s sends %v of %v and %d to %s %s", u, vs, coins, v, net, to), u, v, func() (bool, []string, *cmsg) {
		if len(coins) != len(vs) {
			return false, nil, nil
		}
		n.native[u] -= v
		n.native[n.ncs] += v
		var as []casset
		for i, c := range coins {
			if !n.has(c) || !w.moveToken(n, c, u, n.ncs, vs[i]) {
				return false, nil, nil
			}
			as = append(as, casset{c, vs[i], 0})
		}
		if len(coins) == 0 && !n.approved[u] {
			return false, nil, nil
		}
		if v > 0 {
			as = append(as, casset{n.name, v, 0})
		}
		w.done["batch"]++
		return w.start(n, u, net, to, as)
	}, "transferBatch", coins, big, "btp://"+net+"/"+to)
}

// request is what the coins of another network do when they arrive.
func (w *cworld) request(n *cnet, src *cnet, from, to string, sn int64, assets []casset, tx *ctx) (bool, []string, *cmsg) {
	a := jvm.Addr(to)
	if !validAddr(to) {
		return false, nil, nil
	}
	for _, x := range assets {
		if x.amount < 1 || !n.known(x.coin) {
			return false, nil, nil
		}
		if x.coin == n.name {
			if a == grumpy || n.native[n.ncs] < x.amount {
				return false, nil, nil
			}
			n.native[n.ncs] -= x.amount
			n.native[a] += x.amount
		} else {
			n.token[bk(x.coin, a)] += x.amount
			n.minted[x.coin] = true
		}
	}
	if w.down {
		return false, nil, nil
	}
	w.done["arrived"]++
	return true, nil, &cmsg{dst: src, sn: sn, kind: 2, tx: tx}
}

// deliver takes a message to its service.
func (w *cworld) deliver(m *cmsg) {
	n := m.dst
	switch m.kind {
	case 0:
		ok := w.call(n, fmt.Sprintf("gets %v of %s for %s", m.tx.assets, m.src.net, m.tx.to), n.bmc, 0, func() (bool, []string, *cmsg) {
			return w.request(n, m.src, m.tx.from, m.tx.to[strings.LastIndex(m.tx.to, "/")+1:], m.sn, m.tx.assets, m.tx)
		}, "handleBTPMessage", m.src.net, "nativecoin", m.sn, m.payload)
		if !ok {
			w.queue = append(w.queue, &cmsg{src: n, dst: m.src, sn: m.sn, kind: 9, tx: m.tx, code: 1})
			w.done["failed"]++
		}
	case 2, 9:
		model := func() (bool, []string, *cmsg) {
			tx := n.txs[m.sn]
			if tx != m.tx {
				return true, nil, nil
			}
			u := jvm.Addr(tx.from)
			for _, a := range tx.assets {
				k := bk(a.coin, u)
				n.locked[k] -= a.amount + a.fee
				if m.code != 0 {
					n.refund[k] += a.amount + a.fee
				} else {
					n.fees[a.coin] += a.fee
					if a.coin != n.name {
						n.token[bk(a.coin, n.ncs)] -= a.amount
					}
				}
			}
			delete(n.txs, m.sn)
			w.done[fmt.Sprintf("ended %d", m.code)]++
			return true, []string{fmt.Sprintf("TransferEnd[%s %d %d]", u, m.sn, m.code)}, nil
		}
		if m.kind == 2 {
			w.call(n, fmt.Sprintf("gets the response %x to %d", m.payload, m.sn), n.bmc, 0, model, "handleBTPMessage", m.src.net, "nativecoin", m.sn, m.payload)
		} else {
			w.call(n, fmt.Sprintf("gets an error for %d", m.sn), n.bmc, 0, model, "handleBTPError", m.src.net, "nativecoin", m.sn, int64(10), "error")
		}
	}
}

// next delivers the first message between two networks.
func (w *cworld) next(i int) {
	m := w.queue[i]
	for j, x := range w.queue[:i] {
		if x.src == m.src && x.dst == m.dst {
			i, m = j, x
			break
		}
	}
	w.queue = append(append([]*cmsg{}, w.queue[:i]...), w.queue[i+1:]...)
	w.deliver(m)
}

func (w *cworld) value(max int64) int64 {
	t := w.t
	switch pbt.Weighted(t, "size", 15, 35, 30, 15, 5) {
	case 0:
		return int64(pbt.Pick(t, "small", 4)) - 1
	case 1:
		return int64(pbt.Pick(t, "mid", 3000))
	case 2:
		return rapid.Int64Range(0, 50000).Draw(t, "large")
	case 3:
		return max
	}
	return max + 1
}

func (w *cworld) step() {
	t := w.t
	n := w.ns[pbt.Pick(t, "net", 3)]
	u := n.user(pbt.Pick(t, "user", 3))
	d := w.ns[(n.i+1+pbt.Pick(t, "to", 2))%3]
	net, to := d.net, string(d.user(pbt.Pick(t, "receiver", 3)))
	if pct(t, "oddto", 10) {
		to = oneOf(t, "odd", string(grumpy), "0x1234", "cx", "hx00")
	}
	if pct(t, "oddnet", 4) {
		net = "0x9.none"
	}
	foreign := cnames[(n.i+1+pbt.Pick(t, "coin", 2))%3]
	if pct(t, "own", 5) {
		foreign = n.name
	}
	if pct(t, "nocoin", 3) {
		foreign = "XYZ"
	}
	w.down = pct(t, "down", 4)
	switch pbt.Weighted(t, "op", 18, 18, 14, 35, 8, 4, 4, 3) {
	case 0:
		v := w.value(n.native[u])
		if v < 0 || v > n.native[u] {
			v = 0
		}
		w.sendNative(n, u, v, net, to)
	case 1:
		w.sendToken(n, u, foreign, w.value(n.token[bk(foreign, u)]), net, to)
	case 2:
		var cs []string
		var vs []int64
		for k := pbt.Pick(t, "assets", 4); k > 0; k-- {
			c := cnames[(n.i+1+pbt.Pick(t, "bcoin", 2))%3]
			cs = append(cs, c)
			max := n.token[bk(c, u)]
			vs = append(vs, oneOf(t, "share", max/2, max/3, 1, 2, int64(pbt.Pick(t, "bv", 200))))
		}
		if pct(t, "uneven", 3) {
			vs = append(vs, 5)
		}
		var v int64
		if pct(t, "andnative", 50) {
			v = int64(pbt.Pick(t, "nv", 5000))
			if v > n.native[u] {
				v = n.native[u]
			}
		}
		w.sendBatch(n, u, cs, vs, v, net, to)
	case 3:
		if len(w.queue) > 0 {
			w.next(pbt.Pick(t, "message", len(w.queue)))
		}
	case 4: // reclaim
		c := oneOf(t, "rcoin", cnames...)
		k := bk(c, u)
		v := oneOf(t, "rvalue", n.refund[k], n.refund[k], n.refund[k]+1, n.refund[k]/2, 0, -1)
		w.call(n, fmt.Sprintf("%s reclaims %d of %s", u, v, c), u, 0, func() (bool, []string, *cmsg) {
			if v <= 0 || v > n.refund[k] {
				return false, nil, nil
			}
			n.refund[k] -= v
			w.done["reclaimed"]++
			if c == n.name {
				if n.native[n.ncs] < v {
					return false, nil, nil // the network that is not simulated has taken them
				}
				n.native[n.ncs] -= v
				n.native[u] += v
				return true, nil, nil
			}
			return w.moveToken(n, c, n.ncs, u, v), nil, nil
		}, "reclaim", c, v)
	case 5: // administration
		who := oneOf(t, "who", jvm.HX(1), jvm.HX(1), jvm.HX(2), u)
		switch pbt.Pick(t, "admin", 3) {
		case 0:
			r := oneOf(t, "ratio", int64(0), 1, 10, 100, 2500, 9999, 10000, -5)
			w.call(n, fmt.Sprintf("setFeeRatio %d by %s", r, who), who, 0, func() (bool, []string, *cmsg) {
				ok := n.owners[who] && r >= 1 && r < 10000
				if ok {
					n.ratio = r
				}
				return ok, nil, nil
			}, "setFeeRatio", r)
		case 1:
			c := oneOf(t, "newcoin", cnames...)
			w.call(n, fmt.Sprintf("register %s by %s", c, who), who, 0, func() (bool, []string, *cmsg) {
				ok := n.owners[who] && !n.known(c)
				if ok {
					n.coins = append(n.coins, c)
				}
				return ok, nil, nil
			}, "register", c)
		case 2:
			add := rapid.Bool().Draw(t, "add")
			w.call(n, fmt.Sprintf("owner %v by %s", add, who), who, 0, func() (bool, []string, *cmsg) {
				ok := n.owners[who] && n.owners[jvm.HX(2)] != add
				if ok {
					n.owners[jvm.HX(2)] = add
				}
				return ok, nil, nil
			}, map[bool]string{true: "addOwner", false: "removeOwner"}[add], jvm.HX(2))
		}
	case 6: // a network that is not simulated
		var as []casset
		for k := 1 + pbt.Pick(t, "xassets", 3); k > 0; k-- {
			as = append(as, casset{oneOf(t, "xcoin", append([]string{"XYZ"}, append(cnames, cnames...)...)...), oneOf(t, "xv", int64(0), -1, 1, 5, 5, 1000, 1000, 100000), 0})
		}
		to := string(n.user(pbt.Pick(t, "xto", 3)))
		sn := int64(1000 + pbt.Pick(t, "xsn", 100))
		ok := w.call(n, fmt.Sprintf("gets %v of another network for %s", as, to), n.bmc, 0, func() (bool, []string, *cmsg) {
			return w.request(n, nil, "someone", to, sn, as, nil)
		}, "handleBTPMessage", cext, "nativecoin", sn, encRequest("someone", to, as))
		if ok {
			for _, a := range as {
				w.made[a.coin] += a.amount
			}
		}
	case 7: // somebody who is not the message center
		forger := oneOf(t, "forger", u, jvm.HX(1), d.bmc)
		if pct(t, "forge", 50) {
			w.call(n, "forged coins", forger, 0, func() (bool, []string, *cmsg) { return false, nil, nil }, "handleBTPMessage", d.net, "nativecoin", n.sn, encRequest("someone", string(u), []casset{{n.name, 1, 0}}))
		} else {
			w.call(n, "a forged error", forger, 0, func() (bool, []string, *cmsg) { return false, nil, nil }, "handleBTPError", d.net, "nativecoin", n.sn, int64(10), "error")
		}
	}
	w.down = false
}

func TestT01(t *testing.T) {
	pbt.Check(t, 100, "coins arrived in another network, coins refunded because they could not, and both native coins and tokens moved",
		func(t *rapid.T, c *pbt.Case) {
			w := newCWorld(t)
			for i := 20 + pbt.Pick(t, "steps", 60); i > 0; i-- {
				w.step()
			}
			for len(w.queue) > 0 {
				w.next(0)
			}
			// at rest a coin exists once: the coins held by the service of its network are those owed there and those elsewhere
			for _, h := range w.ns {
				owed := h.fees[h.name]
				for k, v := range h.refund {
					if strings.HasPrefix(k, h.name+"|") {
						owed += v
					}
				}
				for k, v := range h.locked {
					if v != 0 {
						t.Fatalf("%s: %d of %s are locked for ever", h.net, v, k)
					}
				}
				for _, d := range w.ns {
					if d != h {
						owed += d.supply(h.name)
					}
				}
				if got := vm.Balance(h.ncs).Int64(); got != owed-w.made[h.name] {
					t.Fatalf("%s: the service holds %d %s for %d owed (%d made elsewhere)", h.net, got, h.name, owed, w.made[h.name])
				}
			}
			d := w.done
			c.Key("sent %d arrived %d failed %d ended %d/%d batches %d reclaimed %d", d["sent"], d["arrived"], d["failed"], d["ended 0"], d["ended 1"], d["batch"], d["reclaimed"])
			ks := make([]string, 0)
			for k := range d {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				c.Label(k)
			}
			c.NonTrivial(d["ended 0"] > 0 && d["ended 1"] > 0 && d["batch"] > 0)
		})
}
