package score

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/gocheck/jvm"
	"verif/gocheck/pbt"
)

// The fee aggregation contract (javascore fee-aggregation): the fees gathered as tokens are sold in syndications, to those who deposit coins.

type atoken struct {
	name     string
	at       jvm.Addr
	id       int64 // 0 for IRC2
	decimals int64
	price    *big.Int
	held     map[jvm.Addr]*big.Int
	down     bool // transfers fail
}

type asynd struct {
	id         int64
	amount     *big.Int
	total      *big.Int
	start, end int64
	who        []jvm.Addr
	deposits   map[jvm.Addr]*big.Int
}

type astate struct {
	synd   map[string]*asynd
	locked map[string]*big.Int
	won    map[string]*big.Int // token|user
	refund map[jvm.Addr]*big.Int
	coins  map[jvm.Addr]*big.Int
	count  int64
}

type aworld struct {
	t      *rapid.T
	ts     []*atoken // registered, in order
	all    []*atoken
	now    int64
	height int64
	dur    int64
	astate
	fa, cps, band jvm.Addr
	users         []jvm.Addr
	cpsDown       bool
	grumpy        bool // the contract among the users takes no coins
	greedy        bool // it asks for more while it is paid
	got           []string
	last          *atoken
	done          map[string]int
}

func bi(n int64) *big.Int         { return big.NewInt(n) }
func badd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func bsub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func bmul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func bdiv(a, b *big.Int) *big.Int { return new(big.Int).Quo(a, b) }
func bget[K comparable](m map[K]*big.Int, k K) *big.Int {
	if v := m[k]; v != nil {
		return v
	}
	return new(big.Int)
}
func bhex(n *big.Int) string { return "0x" + n.Text(16) }

func (s *astate) copy() astate {
	c := astate{map[string]*asynd{}, cloneMap(s.locked), cloneMap(s.won), cloneMap(s.refund), cloneMap(s.coins), s.count}
	for k, v := range s.synd {
		n := *v
		n.who = append([]jvm.Addr{}, v.who...)
		n.deposits = cloneMap(v.deposits)
		c.synd[k] = &n
	}
	return c
}

func (t *atoken) unit() *big.Int { return new(big.Int).Exp(bi(10), bi(t.decimals), nil) }

func newAWorld(t *rapid.T) *aworld {
	vm.Reset()
	w := &aworld{t: t, fa: jvm.CX(0x500), cps: jvm.CX(0x501), band: jvm.CX(0x502), done: map[string]int{}, dur: 43200000000, height: 1,
		astate: astate{map[string]*asynd{}, map[string]*big.Int{}, map[string]*big.Int{}, map[jvm.Addr]*big.Int{}, map[jvm.Addr]*big.Int{}, 0}}
	w.users = []jvm.Addr{jvm.HX(0x2001), jvm.HX(0x2002), jvm.HX(0x2003), jvm.CX(0x503)}
	for _, u := range append([]jvm.Addr{jvm.HX(1)}, w.users...) {
		n := new(big.Int).Exp(bi(10), bi(24), nil)
		vm.Mint(u, n)
		w.coins[u] = n
	}
	w.tick(0)
	vm.Mock(w.cps, func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
		if w.cpsDown {
			return nil, &jvm.Err{Revert: true, Code: 3, Msg: "no funds wanted"}
		}
		if method != "add_fund" || from != w.fa || value.Sign() <= 0 {
			w.got = append(w.got, fmt.Sprintf("CPS: %s of %v by %s", method, value, from))
		}
		return nil, nil
	})
	vm.Mock(w.band, func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
		if method == "get_reference_data" && len(args) == 2 && args[1] == "ICX" {
			for _, k := range w.all {
				if k.name == args[0] {
					return map[string]interface{}{"rate": k.price, "last_update_base": bi(1), "last_update_quote": bi(1)}, nil
				}
			}
		}
		return nil, fmt.Errorf("no method %s", method)
	})
	vm.Mock(w.users[3], func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
		if method == "fallback" {
			if w.greedy {
				if _, err := vm.Call(w.users[3], w.fa, 0, "withdrawal"); err == nil {
					w.got = append(w.got, "a refund was paid again while it was being paid")
				}
				w.done["greedy"]++
			}
			if w.grumpy {
				return nil, &jvm.Err{Revert: true, Code: 5, Msg: "no coins wanted"}
			}
			return nil, nil
		}
		return nil, fmt.Errorf("no method %s", method)
	})
	for i, name := range []string{"TKA", "TKB", "MUL", "NUL"} {
		k := &atoken{name: name, at: jvm.CX(0x510 + i), decimals: oneOf[int64](t, "decimals", 18, 0, 6, 8, 1), price: bi(0), held: map[jvm.Addr]*big.Int{}}
		if i == 2 {
			k.id = oneOf[int64](t, "token id", 1, 7, 1<<40)
		}
		w.all = append(w.all, k)
		w.reprice(k)
		vm.Mock(k.at, func(from jvm.Addr, value *big.Int, method string, args []interface{}) (interface{}, error) {
			switch {
			case method == "decimals" && k.id == 0:
				return bi(k.decimals), nil
			case method == "balanceOf" && (k.id == 0 && len(args) == 1 || k.id != 0 && len(args) == 2 && args[1].(*big.Int).Int64() == k.id):
				return bget(k.held, args[0].(jvm.Addr)), nil
			case method == "transfer" && k.id == 0 && len(args) == 3:
				return nil, w.transfer(k, from, from, args[0].(jvm.Addr), args[1].(*big.Int))
			case method == "transferFrom" && k.id != 0 && len(args) == 5 && args[2].(*big.Int).Int64() == k.id:
				return nil, w.transfer(k, from, args[0].(jvm.Addr), args[1].(jvm.Addr), args[3].(*big.Int))
			}
			return nil, fmt.Errorf("no method %s %v", method, args)
		})
	}
	if err := vm.Deploy(w.fa, "foundation.icon.btp.FeeAggregationSCORE", jvm.HX(1), w.cps, w.band); err != nil {
		t.Fatalf("setup: %v", err)
	}
	return w
}

// transfer is that of the token contracts.
func (w *aworld) transfer(k *atoken, by, from, to jvm.Addr, n *big.Int) error {
	if k.down || by != from || n.Sign() <= 0 || bget(k.held, from).Cmp(n) < 0 {
		return &jvm.Err{Revert: true, Code: 7, Msg: "no transfer"}
	}
	if w.greedy && to == w.users[3] {
		if _, err := vm.Call(to, w.fa, 0, "claim", k.name); err == nil {
			w.got = append(w.got, "tokens were claimed again while they were being claimed")
		}
		w.done["greedy"]++
	}
	k.held[from] = bsub(bget(k.held, from), n)
	k.held[to] = badd(bget(k.held, to), n)
	return nil
}

func (w *aworld) reprice(k *atoken) {
	switch pbt.Pick(w.t, "price kind", 8) {
	case 0:
		k.price = bi(0)
	case 1:
		k.price = bi(1)
	case 2:
		k.price = bi(int64(rapid.IntRange(1, 99).Draw(w.t, "low price")))
	default:
		k.price = bmul(bi(int64(rapid.IntRange(1, 5000).Draw(w.t, "price"))), new(big.Int).Exp(bi(10), bi(int64(rapid.IntRange(0, 18).Draw(w.t, "magnitude"))), nil))
	}
}

func (w *aworld) tick(n int64) {
	w.height += n
	w.now = w.height * 2_000_000
	vm.Block(w.height)
}

func (w *aworld) token(name string) *atoken {
	for _, k := range w.ts {
		if k.name == name {
			return k
		}
	}
	return nil
}

// end shares out a syndication: what each depositor gets, and the coins that are passed on.
func (w *aworld) end(k *atoken, s *asynd) (ev string, fails bool) {
	price := bdiv(bmul(k.price, bi(90)), bi(100))
	worth := bdiv(bmul(s.amount, price), k.unit())
	passed := s.total
	for _, u := range s.who {
		d := s.deposits[u]
		var share *big.Int
		if worth.Cmp(s.total) > 0 {
			share = bdiv(bmul(d, k.unit()), price)
			w.done["undersubscribed"]++
		} else {
			share = bdiv(bmul(d, s.amount), s.total)
			back := bsub(d, bdiv(bmul(share, price), k.unit()))
			if back.Sign() > 0 {
				w.refund[u] = badd(bget(w.refund, u), back)
				passed = bsub(passed, back)
				w.done["refunds"]++
			}
			w.done["oversubscribed"]++
		}
		key := k.name + "|" + string(u)
		w.won[key] = badd(bget(w.won, key), share)
		w.locked[k.name] = badd(bget(w.locked, k.name), share)
		if len(s.who) > 1 {
			w.done["shared"]++
		}
	}
	if passed.Sign() != 0 {
		if w.cpsDown {
			return "", true
		}
		w.coins[w.fa] = bsub(bget(w.coins, w.fa), passed)
		w.coins[w.cps] = badd(bget(w.coins, w.cps), passed)
	}
	w.done["ended"]++
	return fmt.Sprintf("SyndicationEnded %d %s %v %d", s.id, k.name, s.amount, w.now), false
}

func (s *asynd) add(u jvm.Addr, v *big.Int) {
	if s.deposits[u] == nil {
		s.who = append(s.who, u)
	}
	s.deposits[u] = badd(bget(s.deposits, u), v)
	s.total = badd(s.total, v)
}

// call makes a call and compares it with the model: which gives the events and the codes of a failure (any for none given).
func (w *aworld) call(from jvm.Addr, value *big.Int, model func() (ev []string, fails bool, codes []int), method string, args ...interface{}) bool {
	what := fmt.Sprintf("at %d: %s %v of %v by %s", w.now, method, args, value, from)
	before := w.astate.copy()
	held := make([]map[jvm.Addr]*big.Int, len(w.all))
	for i, k := range w.all {
		held[i] = cloneMap(k.held)
	}
	w.got = nil
	r, err := vm.CallV(from, w.fa, value, method, args...)
	after := make([]map[jvm.Addr]*big.Int, len(w.all))
	for i, k := range w.all {
		after[i], k.held = k.held, cloneMap(held[i])
	}
	fails := bget(w.coins, from).Cmp(value) < 0
	var ev []string
	var codes []int
	if !fails {
		w.coins[from] = bsub(bget(w.coins, from), value)
		w.coins[w.fa] = badd(bget(w.coins, w.fa), value)
		ev, fails, codes = model()
	}
	if fails != (err != nil) {
		w.t.Fatalf("%s: it failed is %v for %v (%v)", what, err != nil, fails, err)
	}
	if fails {
		w.astate = before
		for i, k := range w.all {
			k.held = held[i]
		}
		if e, ok := err.(*jvm.Err); ok && len(codes) == 1 && e.Code != codes[0] {
			w.t.Fatalf("%s: it fails with %v for %d", what, err, codes[0])
		}
		w.done["refused"]++
	} else {
		for i, k := range w.all {
			for _, u := range append([]jvm.Addr{w.fa}, w.users...) {
				if a, b := bget(after[i], u), bget(k.held, u); a.Cmp(b) != 0 {
					w.t.Fatalf("%s: %s has %v %s for %v", what, u, a, k.name, b)
				}
			}
		}
		if len(w.got) > 0 {
			w.t.Fatalf("%s: %s", what, strings.Join(w.got, "; "))
		}
		var have []string
		for _, e := range r.Events {
			if e.Addr == w.fa && e.Name != "IRC31Received" {
				s := e.Name
				for _, a := range e.Args {
					s += fmt.Sprintf(" %v", a)
				}
				have = append(have, s)
			}
		}
		sort.Strings(have)
		sort.Strings(ev)
		if strings.Join(have, "; ") != strings.Join(ev, "; ") {
			w.t.Fatalf("%s: events %q for %q", what, have, ev)
		}
	}
	w.same(what)
	return !fails
}

func (w *aworld) same(after string) {
	owed := new(big.Int)
	for _, u := range append([]jvm.Addr{w.fa, w.cps}, w.users...) {
		if n := vm.Balance(u); n.Cmp(bget(w.coins, u)) != 0 {
			w.t.Fatalf("%s: %s has %v coins for %v", after, u, n, bget(w.coins, u))
		}
	}
	var qs []jvm.Q
	var want []string
	ask := func(x string, q ...interface{}) { qs, want = append(qs, q), append(want, x) }
	for _, u := range w.users {
		ask(bget(w.refund, u).String(), "getRefundableBalance", u)
		owed = badd(owed, bget(w.refund, u))
	}
	ask(fmt.Sprint(w.dur), "getDurationTime")
	for _, k := range w.all {
		s := w.synd[k.name]
		if w.token(k.name) == nil {
			ask("fails", "getCurrentSyndication", k.name)
			ask("fails", "availableBalance", k.name)
			continue
		}
		for _, u := range w.users {
			ask(bget(w.won, k.name+"|"+string(u)).String(), "getTokenBalance", k.name, u)
			if s != nil {
				ask(bget(s.deposits, u).String(), "getDepositedAmount", k.name, u)
			} else {
				ask("fails", "getDepositedAmount", k.name, u)
			}
		}
		rest := bsub(bget(k.held, w.fa), bget(w.locked, k.name))
		switch {
		case s == nil || w.now >= s.end:
			ask("<nil>", "getCurrentSyndication", k.name)
			if s != nil {
				rest = bsub(rest, s.amount)
			}
			ask(rest.String(), "availableBalance", k.name)
		default:
			ask(fmt.Sprintf("map[_endTime:%s _id:%s _startTime:%s _tokenAmount:%s _totalDeposited:%s]", bhex(bi(s.end)), bhex(bi(s.id)), bhex(bi(s.start)), bhex(s.amount), bhex(s.total)), "getCurrentSyndication", k.name)
			ask(s.amount.String(), "availableBalance", k.name)
		}
		need := bget(w.locked, k.name)
		if s != nil {
			need = badd(need, s.amount)
			owed = badd(owed, s.total)
		}
		if bget(k.held, w.fa).Cmp(need) < 0 {
			w.t.Fatalf("%s: the contract holds %v %s for the %v it owes", after, bget(k.held, w.fa), k.name, need)
		}
	}
	if have := vm.Balance(w.fa); have.Cmp(owed) < 0 {
		w.t.Fatalf("%s: the contract holds %v coins for the %v it owes", after, have, owed)
	}
	var ts []string
	for _, k := range w.ts {
		ts = append(ts, fmt.Sprintf("map[address:%s name:%s tokenId:%d]", k.at, k.name, k.id))
	}
	ask("["+strings.Join(ts, " ")+"]", "tokens")
	for i, a := range vm.Queries(w.fa, qs) {
		have := "fails"
		if len(a) > 0 {
			have = fmt.Sprintf("%v", a[0])
		}
		if have != want[i] {
			w.t.Fatalf("%s: %v gives %s for %s", after, qs[i], have, want[i])
		}
	}
}

func (w *aworld) register(by jvm.Addr, k *atoken, at jvm.Addr, id int64) {
	model := func() ([]string, bool, []int) {
		var codes []int
		if by != jvm.HX(1) {
			codes = append(codes, 56)
		}
		if w.token(k.name) != nil {
			codes = append(codes, 57)
		}
		if at[:2] != "cx" {
			codes = append(codes, 58)
		}
		if k.id != 0 && id <= 0 {
			codes = append(codes, 59)
		}
		if len(codes) > 0 {
			return nil, true, codes
		}
		w.ts = append(w.ts, k)
		return nil, false, nil
	}
	if k.id == 0 {
		w.call(by, bi(0), model, "registerIRC2", k.name, at)
	} else {
		w.call(by, bi(0), model, "registerIRC31", k.name, at, id, k.decimals)
	}
}

func (w *aworld) deposit(u jvm.Addr, name string, v *big.Int) {
	w.call(u, v, func() ([]string, bool, []int) {
		k := w.token(name)
		if k == nil {
			return nil, true, []int{57}
		}
		s := w.synd[name]
		if v.Sign() <= 0 {
			return nil, true, nil
		}
		held := bget(k.held, w.fa)
		if held.Sign() == 0 {
			return nil, true, []int{61}
		}
		if s != nil && w.now < s.end {
			s.add(u, v)
			w.done["joined"]++
			return []string{fmt.Sprintf("DepositInfo %d %s %s %v", s.id, name, u, v)}, false, nil
		}
		rest := bsub(held, bget(w.locked, name))
		if s != nil {
			rest = bsub(rest, s.amount)
		}
		if rest.Sign() <= 0 {
			return nil, true, []int{61}
		}
		var ev []string
		if s != nil {
			e, fails := w.end(k, s)
			if fails {
				return nil, true, nil
			}
			ev = append(ev, e)
			w.done["followed"]++
		}
		w.count++
		n := &asynd{id: w.count, amount: rest, total: new(big.Int), start: w.now, end: w.now + w.dur, deposits: map[jvm.Addr]*big.Int{}}
		n.add(u, v)
		w.synd[name] = n
		return append(ev, fmt.Sprintf("SyndicationStart %d %s %v %s %v %d", n.id, name, rest, u, v, n.end)), false, nil
	}, "deposit", name)
}

func (w *aworld) claim(u jvm.Addr, name string) {
	w.call(u, bi(0), func() ([]string, bool, []int) {
		k := w.token(name)
		if k == nil {
			return nil, true, []int{57}
		}
		key := name + "|" + string(u)
		n := bget(w.won, key)
		if n.Sign() <= 0 {
			return nil, true, []int{62}
		}
		if !k.down {
			k.held[w.fa] = bsub(k.held[w.fa], n)
			k.held[u] = badd(bget(k.held, u), n)
			w.locked[name] = bsub(w.locked[name], n)
			w.won[key] = new(big.Int)
			w.done["claimed"]++
		} else {
			w.done["claim failed"]++
		}
		if s := w.synd[name]; s != nil && w.now >= s.end {
			e, fails := w.end(k, s)
			if fails {
				return nil, true, nil
			}
			delete(w.synd, name)
			w.done["ended by a claim"]++
			return []string{e}, false, nil
		}
		return nil, false, nil
	}, "claim", name)
}

func (w *aworld) withdraw(u jvm.Addr) {
	w.call(u, bi(0), func() ([]string, bool, []int) {
		n := bget(w.refund, u)
		if n.Sign() <= 0 {
			return nil, true, []int{62}
		}
		if u == w.users[3] && w.grumpy {
			w.done["withdrawal failed"]++
			return nil, false, nil
		}
		w.refund[u] = new(big.Int)
		w.coins[w.fa] = bsub(w.coins[w.fa], n)
		w.coins[u] = badd(w.coins[u], n)
		w.done["withdrawn"]++
		return nil, false, nil
	}, "withdrawal")
}

func (w *aworld) step() {
	t := w.t
	user := func() jvm.Addr { return oneOf(t, "user", w.users...) }
	known := func() *atoken {
		if len(w.ts) > 0 && !pct(t, "any token", 8) {
			return oneOf(t, "token", w.ts...)
		}
		return oneOf(t, "some token", w.all...)
	}
	switch pbt.Weighted(t, "step", 6, 4, 26, 10, 6, 4, 12, 2, 2, 2) {
	case 0: // fees arrive
		k := known()
		n := bmul(bi(int64(rapid.IntRange(1, 5000).Draw(t, "tokens"))), oneOf(t, "size", bi(1), k.unit(), bi(1000)))
		k.held[w.fa] = badd(bget(k.held, w.fa), n)
		if k.id == 0 {
			w.call(k.at, bi(0), func() ([]string, bool, []int) { return nil, false, nil }, "tokenFallback", jvm.HX(1), n, []byte{})
		} else {
			w.call(k.at, bi(0), func() ([]string, bool, []int) { return nil, false, nil }, "onIRC31Received", jvm.HX(1), jvm.HX(1), k.id, n, []byte{})
		}
	case 1:
		w.reprice(known())
	case 2:
		k := known()
		if w.last != nil && pct(t, "same token", 50) {
			k = w.last
		}
		w.last = k
		v := bi(int64(rapid.IntRange(0, 20).Draw(t, "coins")))
		switch s := w.synd[k.name]; pbt.Pick(t, "deposit", 7) {
		case 0:
		case 1, 2:
			if s != nil { // about as much as the tokens are worth
				worth := bdiv(bmul(s.amount, bdiv(bmul(k.price, bi(90)), bi(100))), k.unit())
				if pct(t, "exactly", 50) {
					v = bi(10)
				}
				if v = badd(bsub(worth, s.total), bsub(v, bi(10))); v.Sign() < 0 {
					v = bi(1)
				}
			}
		default:
			v = bmul(v, new(big.Int).Exp(bi(10), bi(int64(rapid.IntRange(0, 20).Draw(t, "coin magnitude"))), nil))
		}
		w.deposit(user(), k.name, v)
	case 3:
		u, k := user(), known()
		var can [][2]interface{}
		for _, k := range w.ts {
			for _, u := range w.users {
				if bget(w.won, k.name+"|"+string(u)).Sign() > 0 {
					can = append(can, [2]interface{}{u, k})
				}
			}
		}
		if len(can) > 0 && pct(t, "has tokens", 80) {
			c := oneOf(t, "claim", can...)
			u, k = c[0].(jvm.Addr), c[1].(*atoken)
		}
		w.claim(u, k.name)
	case 4:
		u := user()
		var can []jvm.Addr
		for _, x := range w.users {
			if bget(w.refund, x).Sign() > 0 {
				can = append(can, x)
			}
		}
		if len(can) > 0 && pct(t, "has refund", 80) {
			u = oneOf(t, "refund of", can...)
		}
		w.withdraw(u)
	case 5: // something fails from now on, or works again
		switch pbt.Pick(t, "fault", 4) {
		case 0:
			w.cpsDown = !w.cpsDown
		case 1:
			w.grumpy = !w.grumpy
		case 2:
			w.greedy = !w.greedy
		default:
			k := known()
			k.down = !k.down
		}
	case 6:
		n := int64(rapid.IntRange(1, 3).Draw(t, "blocks"))
		if s := w.synd[known().name]; s != nil && w.now < s.end && pct(t, "to the end", 70) {
			n = (s.end-w.now)/2_000_000 + int64(pbt.Pick(t, "around the end", 3)) - 1
			if n < 1 {
				n = 1
			}
		}
		w.tick(n)
		w.same("time passes")
	case 7:
		by := oneOf(t, "by", jvm.HX(1), jvm.HX(1), w.users[0])
		d := oneOf[int64](t, "duration", 2_000_000, 6_000_000, 4_000_000, 1, 0, -1, 60_000_000, 3_000_001)
		w.call(by, bi(0), func() ([]string, bool, []int) {
			var codes []int
			if by != jvm.HX(1) {
				codes = append(codes, 56)
			}
			if d <= 0 {
				codes = append(codes, 59)
			}
			if len(codes) == 0 {
				w.dur = d
			}
			return nil, len(codes) > 0, codes
		}, "setDurationTime", d)
	case 8:
		k := oneOf(t, "some token", w.all...)
		at, id := k.at, k.id
		if pct(t, "an account", 15) {
			at = w.users[0]
		}
		if pct(t, "bad id", 15) {
			id = -id
		}
		w.register(oneOf(t, "by", jvm.HX(1), jvm.HX(1), w.users[0]), k, at, id)
	default: // coins that are given away
		u, v := user(), bi(int64(rapid.IntRange(0, 3).Draw(t, "gift")))
		w.call(u, v, func() ([]string, bool, []int) {
			if v.Sign() == 0 || w.cpsDown {
				return nil, true, nil
			}
			w.coins[w.fa] = bsub(w.coins[w.fa], v)
			w.coins[w.cps] = badd(bget(w.coins, w.cps), v)
			return nil, false, nil
		}, "fallback")
	}
}

func TestA01(t *testing.T) {
	pbt.Check(t, 30, "a syndication with two or more depositors ended, and tokens were claimed or coins withdrawn", func(t *rapid.T, c *pbt.Case) {
		w := newAWorld(t)
		for i, k := range w.all[:3] {
			if i < 2 || pct(t, "registered", 70) {
				w.register(jvm.HX(1), k, k.at, k.id)
			}
		}
		if pct(t, "with fees", 85) {
			for _, k := range w.all[:3] {
				k.held[w.fa] = bmul(bi(int64(rapid.IntRange(1, 900).Draw(t, "fees"))), oneOf(t, "size", bi(1), k.unit(), bi(1000)))
			}
		}
		n := rapid.IntRange(20, 90).Draw(t, "steps")
		for i := 0; i < n; i++ {
			w.step()
		}
		// the end: everything works again, and all take what is theirs
		w.cpsDown, w.grumpy = false, false
		for _, k := range w.ts {
			k.down = false
			if s := w.synd[k.name]; s != nil {
				if w.now < s.end {
					w.tick((s.end-w.now)/2_000_000 + 1)
				}
				k.held[w.fa] = badd(bget(k.held, w.fa), k.unit())
				w.deposit(w.users[0], k.name, bi(5))
			}
			for _, u := range w.users {
				w.claim(u, k.name)
			}
		}
		for _, u := range w.users {
			w.withdraw(u)
		}
		var key []string
		for k, n := range w.done {
			key = append(key, fmt.Sprintf("%s=%d", k, n))
			c.Label(k)
		}
		sort.Strings(key)
		c.Key("%v", key)
		c.NonTrivial(w.done["shared"] > 0 && w.done["claimed"]+w.done["withdrawn"] > 0)
	})
}
