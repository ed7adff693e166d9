package score

import (
	"fmt"
	"sort"
	"strings"

	"verif/gocheck/fake"
	"verif/gocheck/jvm"
)

// The reference model of a BMC: plain state and the rules a message, a fee and an administrator's call follow.

type nfee struct {
	net  string
	vals []int64
}

type nmsg struct {
	src, dst, svc string
	sn            int64
	payload       []byte
	nsn           int64
	fee           *nfee
}

func (f *nfee) copy() *nfee {
	if f == nil {
		return nil
	}
	return &nfee{f.net, append([]int64{}, f.vals...)}
}

func sum(v []int64) (s int64) {
	for _, x := range v {
		s += x
	}
	return
}

var encNull = []byte{0xf8, 0x00}

func (m *nmsg) encode() []byte {
	fee := encNull
	if m.fee != nil {
		var vs [][]byte
		for _, v := range m.fee.vals {
			vs = append(vs, fake.EncInt(v))
		}
		fee = fake.EncList(fake.EncBytes([]byte(m.fee.net)), fake.EncList(vs...))
	}
	s := func(x string) []byte { return fake.EncBytes([]byte(x)) }
	return fake.EncList(s(m.src), s(m.dst), s(m.svc), fake.EncInt(m.sn), fake.EncBytes(m.payload), fake.EncInt(m.nsn), fee)
}

func decodeMsg(b []byte) (m *nmsg, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	it, err := fake.ParseRLP(b)
	if err != nil {
		return nil, err
	}
	fs, err := it.Seq(7)
	if err != nil {
		return nil, err
	}
	str := func(i *fake.Item) string {
		x, err := i.Blob()
		if err != nil {
			panic(err)
		}
		return string(x)
	}
	num := func(i *fake.Item) int64 {
		x, err := i.Int()
		if err != nil {
			panic(err)
		}
		return x
	}
	m = &nmsg{src: str(fs[0]), dst: str(fs[1]), svc: str(fs[2]), sn: num(fs[3]), payload: []byte(str(fs[4])), nsn: num(fs[5])}
	if !fs[6].Nil {
		ff, err := fs[6].Seq(2)
		if err != nil {
			return nil, err
		}
		m.fee = &nfee{net: str(ff[0])}
		for _, v := range ff[1].Items {
			m.fee.vals = append(m.fee.vals, num(v))
		}
	}
	return m, nil
}

func encResponse(code int64) []byte { return fake.EncList(fake.EncInt(code), fake.EncBytes(nil)) }

func encInternal(typ string, payload []byte) []byte {
	return fake.EncList(fake.EncBytes([]byte(typ)), fake.EncBytes(payload))
}

func encClaim(amount int64, to string) []byte {
	return encInternal("Claim", fake.EncList(fake.EncInt(amount), fake.EncBytes([]byte(to))))
}

func encLinks(typ string, ls ...string) []byte {
	var es [][]byte
	for _, l := range ls {
		es = append(es, fake.EncBytes([]byte(l)))
	}
	if typ == "Init" {
		return encInternal(typ, fake.EncList(fake.EncList(es...)))
	}
	return encInternal(typ, fake.EncList(es...))
}

func responseCode(b []byte) (int64, bool) {
	it, err := fake.ParseRLP(b)
	if err != nil {
		return 0, false
	}
	fs, err := it.Seq(2)
	if err != nil {
		return 0, false
	}
	c, err := fs[0].Int()
	return c, err == nil
}

// internalOf splits a message of the bmc service.
func internalOf(b []byte) (typ string, payload []byte, ok bool) {
	it, err := fake.ParseRLP(b)
	if err != nil {
		return
	}
	fs, err := it.Seq(2)
	if err != nil {
		return
	}
	t, err := fs[0].Blob()
	if err != nil {
		return
	}
	p, err := fs[1].Blob()
	return string(t), p, err == nil
}

func claimOf(payload []byte) (amount int64, to string, ok bool) {
	it, err := fake.ParseRLP(payload)
	if err != nil {
		return
	}
	fs, err := it.Seq(2)
	if err != nil {
		return
	}
	a, e1 := fs[0].Int()
	r, e2 := fs[1].Blob()
	return a, string(r), e1 == nil && e2 == nil
}

// String leaves out the text of error responses and, with noFee, the fee.
func (m *nmsg) text(noFee bool) string {
	p := fmt.Sprintf("%x", m.payload)
	if m.sn < 0 {
		if c, ok := responseCode(m.payload); ok {
			p = fmt.Sprintf("error(%d)", c)
		}
	} else if m.svc == "bmc" {
		if t, pl, ok := internalOf(m.payload); ok {
			if c, ok := responseCode(pl); ok && t == "Response" {
				p = fmt.Sprintf("Response(%d)", c)
			} else {
				p = fmt.Sprintf("%s(%x)", t, pl)
			}
		}
	}
	f := "-"
	if m.fee != nil {
		f = fmt.Sprintf("%s%v", m.fee.net, m.fee.vals)
	}
	if noFee {
		f = ""
	}
	return fmt.Sprintf("{%s>%s %s sn=%d nsn=%d %s fee=%s}", m.src, m.dst, m.svc, m.sn, m.nsn, p, f)
}

func msgText(b []byte, noFee bool) string {
	m, err := decodeMsg(b)
	if err != nil {
		return fmt.Sprintf("undecodable(%x)", b)
	}
	return m.text(noFee)
}

// merr is a failure of the model: the code of the revert, and the kind of who failed.
type merr struct {
	code int
	bsh  bool
}

const (
	cUnknown      = 10
	cUnauthorized = 11
	cInvalidSn    = 12
	cDupBMV       = 13
	cNoBMV        = 14
	cDupBSH       = 15
	cNoBSH        = 16
	cDupLink      = 17
	cNoLink       = 18
	cDupBMR       = 19
	cNoBMR        = 20
	cUnreachable  = 21
	cDrop         = 22
)

func bmcErr(c int) *merr { return &merr{code: c} }

type mlink struct {
	addr, net string
	rx, tx    int64
	reach     []string
}

type minfo struct {
	nsn int64
	fee *nfee
}

type mreq struct {
	dst    string
	amount int64
	caller jvm.Addr
}

type rkey struct {
	who jvm.Addr
	net string
}

type mstate struct {
	owners              []jvm.Addr
	verifiers, services map[string]jvm.Addr
	routes              map[string]string
	links               []*mlink
	relays              map[string][]jvm.Addr
	nid                 map[string]int64
	offset              map[int64]int64
	fees                map[string][]int64
	nsn                 int64
	rewards             map[rkey]int64
	infos               map[string]minfo
	reqs                map[int64]mreq
	feeHandler          jvm.Addr
	paid                map[string]int64 // coins given away by claims in the own network
}

type mbmc struct {
	w         *world
	i         int
	net, addr string
	at, owner jvm.Addr
	mstate
	out []string // expected events and calls, in order, each with its kind first
	fwd int      // messages this one has passed on
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *mstate) clone() mstate {
	c := *s
	c.owners = append([]jvm.Addr{}, s.owners...)
	c.verifiers, c.services, c.routes = cloneMap(s.verifiers), cloneMap(s.services), cloneMap(s.routes)
	c.links = nil
	for _, l := range s.links {
		n := *l
		n.reach = append([]string{}, l.reach...)
		c.links = append(c.links, &n)
	}
	c.relays = map[string][]jvm.Addr{}
	for k, v := range s.relays {
		c.relays[k] = append([]jvm.Addr{}, v...)
	}
	c.nid, c.offset, c.fees = cloneMap(s.nid), cloneMap(s.offset), cloneMap(s.fees)
	c.rewards, c.infos, c.reqs, c.paid = cloneMap(s.rewards), cloneMap(s.infos), cloneMap(s.reqs), cloneMap(s.paid)
	return c
}

func newState() mstate {
	return mstate{verifiers: map[string]jvm.Addr{}, services: map[string]jvm.Addr{}, routes: map[string]string{}, relays: map[string][]jvm.Addr{},
		nid: map[string]int64{}, offset: map[int64]int64{}, fees: map[string][]int64{}, rewards: map[rkey]int64{}, infos: map[string]minfo{}, reqs: map[int64]mreq{}, paid: map[string]int64{}}
}

// tx runs a call of the model and undoes it when it fails.
func (b *mbmc) tx(f func() *merr) *merr {
	s, n := b.clone(), len(b.out)
	if e := f(); e != nil {
		b.mstate = s
		keep := b.out[:n:n]
		for _, o := range b.out[n:] { // what services were told is observed even if it is undone
			if strings.HasPrefix(o, "told ") || strings.HasPrefix(o, "nested ") {
				keep = append(keep, o)
			}
		}
		b.out = keep
		return e
	}
	return nil
}

func (b *mbmc) emit(f string, a ...interface{}) { b.out = append(b.out, fmt.Sprintf(f, a...)) }

func (b *mbmc) isOwner(a jvm.Addr) bool {
	if a == b.owner {
		return true
	}
	for _, o := range b.owners {
		if o == a {
			return true
		}
	}
	return false
}

func (b *mbmc) link(net string) *mlink {
	for _, l := range b.links {
		if l.net == net {
			return l
		}
	}
	return nil
}

func (b *mbmc) linkAt(addr string) *mlink {
	for _, l := range b.links {
		if l.addr == addr {
			return l
		}
	}
	return nil
}

func netOf(addr string) string {
	s := strings.TrimPrefix(addr, "btp://")
	return s[:strings.Index(s, "/")]
}

func (b *mbmc) resolve(net string) (*mlink, *merr) {
	if l := b.link(net); l != nil {
		return l, nil
	}
	if n, ok := b.routes[net]; ok {
		if l := b.link(n); l != nil {
			return l, nil
		}
		return nil, bmcErr(cNoLink)
	}
	for _, l := range b.links {
		for _, r := range l.reach {
			if netOf(r) == net {
				return l, nil
			}
		}
	}
	return nil, bmcErr(cUnreachable)
}

func (b *mbmc) reward(a jvm.Addr, net string, n int64) {
	if n != 0 {
		b.rewards[rkey{a, net}] += n
	}
}

func (b *mbmc) collect(f *nfee) {
	if f != nil {
		b.reward(b.at, f.net, sum(f.vals))
	}
}

func (b *mbmc) consume(a jvm.Addr, f *nfee) {
	if f != nil && len(f.vals) > 0 {
		b.reward(a, f.net, f.vals[0])
		f.vals = f.vals[1:]
	}
}

func (b *mbmc) event(m *nmsg, next, what string) {
	if m.nsn < 0 {
		b.emit("BTPEvent %s %d %s %s", m.dst, -m.nsn, next, what)
	} else {
		b.emit("BTPEvent %s %d %s %s", m.src, m.nsn, next, what)
	}
}

// send passes a message to the next BMC.
func (b *mbmc) send(l *mlink, m *nmsg) *merr {
	if n := b.nid[l.addr]; n != 0 {
		if b.w.broken[n] {
			return bmcErr(cUnknown)
		}
		b.emit("chain %d %s", n, m.text(false))
	} else {
		b.emit("Message %s %d %s", l.addr, l.tx+1, m.text(false))
	}
	l.tx++
	return nil
}

func (b *mbmc) drop(prev string, seq int64, m *nmsg, e *merr) {
	b.event(m, "", "DROP")
	b.emit("MessageDropped %s %d %s %d", prev, seq, m.text(true), e.code)
}

func (b *mbmc) sendError(prev *mlink, m *nmsg, e *merr) *merr {
	f := m.fee.copy()
	if f != nil {
		if hop := len(b.fees[m.src]) / 2; hop > 0 && len(f.vals) > hop {
			n := len(f.vals) - hop
			f.vals = append(append([]int64{}, f.vals[n:]...), f.vals[:n]...)
		}
	}
	code := int64(1)
	switch {
	case e.bsh:
		code = 4
	case e.code == cUnreachable:
		code = 2
	case e.code == cNoBSH:
		code = 3
	}
	r := &nmsg{src: b.net, dst: m.src, svc: m.svc, sn: -m.sn, payload: encResponse(code), nsn: -m.nsn, fee: f}
	if e := b.send(prev, r); e != nil {
		return e
	}
	b.event(m, prev.addr, "ERROR")
	return nil
}

func (b *mbmc) handleRelay(prev string, caller jvm.Addr, bmv *merr, msgs [][]byte) *merr {
	l := b.linkAt(prev)
	if l == nil {
		return bmcErr(cNoLink)
	}
	if _, ok := b.verifiers[l.net]; !ok {
		return bmcErr(cNoBMV)
	}
	if bmv != nil {
		return bmv
	}
	if !b.isRelay(prev, caller) {
		return bmcErr(cUnauthorized)
	}
	seq := l.rx
	l.rx += int64(len(msgs))
	for _, raw := range msgs {
		seq++
		m, err := decodeMsg(raw)
		if err != nil {
			return bmcErr(cUnknown)
		}
		b.consume(caller, m.fee)
		var e *merr
		if m.dst == b.net {
			if e = b.handle(m); e == nil {
				b.event(m, "", "RECEIVE")
			}
		} else {
			var n *mlink
			if n, e = b.resolve(m.dst); e == nil {
				if e = b.send(n, m); e == nil {
					b.event(m, n.addr, "ROUTE")
					b.fwd++
				}
			}
		}
		if e == nil {
			continue
		}
		prevLink := b.linkAt(prev)
		if m.sn > 0 {
			if e2 := b.sendError(prevLink, m, e); e2 != nil {
				b.collect(m.fee)
				b.drop(prev, seq, m, e2)
			}
		} else {
			if m.dst != b.net { // what is left of the fee of a message for here has been collected already
				b.collect(m.fee)
			}
			b.drop(prev, seq, m, e)
		}
	}
	return nil
}

func infoKey(net, svc string, sn int64) string { return fmt.Sprintf("%s|%s|%d", net, svc, sn) }

func (b *mbmc) handle(m *nmsg) *merr {
	if m.sn < 0 {
		b.collect(m.fee)
		code, ok := responseCode(m.payload)
		if !ok {
			return &merr{40, true}
		}
		if m.svc == "bmc" {
			return b.response(-m.nsn, code)
		}
		at, ok := b.services[m.svc]
		if !ok {
			return bmcErr(cNoBSH)
		}
		return b.bsh(at, fmt.Sprintf("error %s %s %d %d", m.src, m.svc, -m.sn, code), errorScript(-m.sn))
	}
	k := infoKey(m.src, m.svc, m.sn)
	if m.fee != nil {
		if m.sn > 0 {
			if old, ok := b.infos[k]; ok {
				b.collect(old.fee)
			}
			b.infos[k] = minfo{m.nsn, m.fee.copy()}
		} else {
			b.collect(m.fee)
		}
	}
	var e *merr
	if m.svc == "bmc" {
		e = b.internal(m)
	} else if at, ok := b.services[m.svc]; !ok {
		e = bmcErr(cNoBSH)
	} else {
		e = b.bsh(at, fmt.Sprintf("message %s %s %d %x", m.src, m.svc, m.sn, m.payload), messageScript(m.src, m.svc, m.sn, m.payload))
	}
	if e != nil && m.fee != nil && m.sn > 0 {
		delete(b.infos, k)
	}
	return e
}

// bsh runs the script of a service that is given a message.
func (b *mbmc) bsh(at jvm.Addr, what string, s script) *merr {
	b.emit("told %s %s", at, what)
	return b.tx(func() *merr {
		for _, a := range s.acts {
			c := 0
			if e := b.tx(func() *merr { return b.sendMessage(at, a.to, a.svc, a.sn, a.value, a.payload) }); e != nil {
				c = e.code
			}
			b.emit("nested %d", c)
		}
		if s.fail {
			return &merr{40, true}
		}
		if s.revert >= 0 {
			return &merr{40 + s.revert, true}
		}
		return nil
	})
}

func (b *mbmc) internal(m *nmsg) *merr {
	typ, pl, ok := internalOf(m.payload)
	if !ok {
		return &merr{40, true}
	}
	switch typ {
	case "Claim":
		amount, to, ok := claimOf(pl)
		if !ok {
			return &merr{40, true}
		}
		if !validAddr(to) {
			return bmcErr(cUnknown)
		}
		l, e := b.resolve(m.src)
		if e != nil {
			return e
		}
		k := infoKey(m.src, "bmc", m.nsn)
		info, ok := b.infos[k]
		if !ok {
			return bmcErr(cUnknown)
		}
		r := &nmsg{src: b.net, dst: m.src, svc: "bmc", payload: encInternal("Response", encResponse(0)), nsn: -info.nsn, fee: info.fee}
		if e := b.send(l, r); e != nil {
			return e
		}
		delete(b.infos, k)
		b.event(r, l.addr, "REPLY")
		b.reward(jvm.Addr(to), b.net, amount)
		return nil
	case "Response":
		code, ok := responseCode(pl)
		if !ok {
			return &merr{40, true}
		}
		return b.response(-m.nsn, code)
	case "Link", "Unlink", "Init":
		it, err := fake.ParseRLP(pl)
		if err != nil {
			return &merr{40, true}
		}
		items := it.Items
		if typ == "Init" {
			items = items[0].Items
		}
		l := b.link(m.src)
		if l == nil {
			return bmcErr(cNoLink)
		}
		for _, x := range items {
			s, _ := x.Blob()
			at := -1
			for i, r := range l.reach {
				if r == string(s) {
					at = i
				}
			}
			if typ == "Unlink" && at >= 0 {
				l.reach = append(append([]string{}, l.reach[:at]...), l.reach[at+1:]...)
			}
			if typ != "Unlink" && at < 0 {
				l.reach = append(l.reach, string(s))
			}
		}
		return nil
	}
	return &merr{40, true}
}

func validAddr(s string) bool {
	return len(s) == 42 && (s[:2] == "hx" || s[:2] == "cx") && strings.Trim(s[2:], "0123456789abcdef") == ""
}

func (b *mbmc) response(nsn, code int64) *merr {
	r, ok := b.reqs[nsn]
	if !ok {
		return bmcErr(cUnknown)
	}
	delete(b.reqs, nsn)
	if code != 0 {
		b.reward(r.caller, r.dst, r.amount)
	}
	b.emit("ClaimRewardResult %s %s %d %d", r.caller, r.dst, nsn, code)
	return nil
}

func (b *mbmc) sendMessage(caller jvm.Addr, to, svc string, sn, value int64, payload []byte) *merr {
	at, ok := b.services[svc]
	if !ok {
		return bmcErr(cNoBSH)
	}
	if at != caller {
		return bmcErr(cUnauthorized)
	}
	l, e := b.resolve(to)
	if e != nil {
		return e
	}
	if sn < 0 {
		k := infoKey(to, svc, -sn)
		info, ok := b.infos[k]
		if !ok {
			return bmcErr(cUnknown)
		}
		delete(b.infos, k)
		b.reward(b.at, b.net, value)
		m := &nmsg{src: b.net, dst: to, svc: svc, payload: payload, nsn: -info.nsn, fee: info.fee}
		if e := b.send(l, m); e != nil {
			return e
		}
		b.event(m, l.addr, "REPLY")
		return nil
	}
	_, e = b.sendWithFee(l, to, svc, sn, value, payload)
	return e
}

func (b *mbmc) feeOf(to string, back bool) []int64 {
	f := b.fees[to]
	if !back {
		f = f[:len(f)/2]
	}
	return append([]int64{}, f...)
}

func (b *mbmc) sendWithFee(l *mlink, to, svc string, sn, value int64, payload []byte) (int64, *merr) {
	b.nsn++
	if sn < 0 {
		sn = b.nsn
	}
	f := b.feeOf(to, sn > 0)
	if value < sum(f) {
		return 0, bmcErr(cUnknown)
	}
	b.reward(b.at, b.net, value-sum(f))
	m := &nmsg{src: b.net, dst: to, svc: svc, sn: sn, payload: payload, nsn: b.nsn, fee: &nfee{b.net, f}}
	if e := b.send(l, m); e != nil {
		return 0, e
	}
	b.event(m, l.addr, "SEND")
	return m.nsn, nil
}

func (b *mbmc) claim(caller jvm.Addr, net, to string, value int64) *merr {
	if b.feeHandler != "" && caller == b.feeHandler {
		caller = b.at
	}
	n := b.rewards[rkey{caller, net}]
	if n <= 0 {
		return bmcErr(cUnknown)
	}
	b.rewards[rkey{caller, net}] = 0
	if net == b.net {
		if !validAddr(to) {
			return bmcErr(cUnknown)
		}
		b.emit("ClaimReward %s %s %s %d 0", caller, net, to, n)
		b.paid[to] += n
		return nil
	}
	l, e := b.resolve(net)
	if e != nil {
		return e
	}
	nsn, e := b.sendWithFee(l, net, "bmc", -1, value, encClaim(n, to))
	if e != nil {
		return e
	}
	b.reqs[nsn] = mreq{net, n, caller}
	b.emit("ClaimReward %s %s %s %d %d", caller, net, to, n, nsn)
	return nil
}

func (b *mbmc) dropMessage(caller jvm.Addr, src string, seq int64, svc string, sn, nsn int64, feeNet string, vals []int64) *merr {
	if !b.isOwner(caller) {
		return bmcErr(cUnauthorized)
	}
	l, e := b.resolve(src)
	if e != nil {
		return e
	}
	if seq != l.rx+1 {
		return bmcErr(cUnknown)
	}
	if _, ok := b.services[svc]; !ok {
		return bmcErr(cNoBSH)
	}
	if nsn == 0 || nsn > 0 && sn < 0 || nsn < 0 && sn > 0 {
		return bmcErr(cInvalidSn)
	}
	l.rx = seq
	m := &nmsg{src: src, svc: svc, sn: sn, nsn: nsn}
	if feeNet != "" {
		m.fee = &nfee{feeNet, append([]int64{}, vals...)}
		b.consume(b.at, m.fee)
	}
	if sn > 0 {
		return b.sendError(l, m, bmcErr(cDrop))
	}
	b.collect(m.fee)
	b.drop(l.addr, seq, m, bmcErr(cDrop))
	return nil
}

func (b *mbmc) internalSend(l *mlink, payload []byte) *merr {
	b.nsn++
	m := &nmsg{src: b.net, dst: l.net, svc: "bmc", payload: payload, nsn: b.nsn}
	b.event(m, l.addr, "SEND")
	return b.send(l, m)
}

func (b *mbmc) propagate(payload []byte) *merr {
	for _, l := range b.links {
		if e := b.internalSend(l, payload); e != nil {
			return e
		}
	}
	return nil
}

func (b *mbmc) addLink(addr string) *merr {
	net := netOf(addr)
	if _, ok := b.verifiers[net]; !ok {
		return bmcErr(cNoBMV)
	}
	if b.link(net) != nil {
		return bmcErr(cDupLink)
	}
	var prev []string
	for _, l := range b.links {
		prev = append(prev, l.addr)
	}
	if e := b.propagate(encLinks("Link", addr)); e != nil {
		return e
	}
	b.links = append(b.links, &mlink{addr: addr, net: net})
	return b.internalSend(b.links[len(b.links)-1], encLinks("Init", prev...))
}

func (b *mbmc) removeLink(addr string) *merr {
	l := b.linkAt(addr)
	if l == nil {
		return bmcErr(cNoLink)
	}
	for _, n := range b.routes {
		if n == l.net {
			return bmcErr(cUnknown)
		}
	}
	for i, x := range b.links {
		if x == l { // the last one takes its place
			b.links[i] = b.links[len(b.links)-1]
			b.links = b.links[:len(b.links)-1]
			break
		}
	}
	delete(b.relays, addr)
	if n := b.nid[addr]; n != 0 {
		delete(b.nid, addr)
		delete(b.offset, n)
	}
	delete(b.fees, l.net)
	return b.propagate(encLinks("Unlink", addr))
}

func (b *mbmc) isRelay(link string, a jvm.Addr) bool {
	for _, r := range b.relays[link] {
		if r == a {
			return true
		}
	}
	return false
}

func (b *mbmc) setNID(addr string, n, off int64) *merr {
	if n < 1 {
		return bmcErr(cUnknown)
	}
	if _, ok := b.offset[n]; ok {
		return bmcErr(cUnknown)
	}
	b.nid[addr] = n
	b.offset[n] = off
	return nil
}

// admin runs an administrator's call of the model.
func (b *mbmc) admin(caller jvm.Addr, method string, args []interface{}) *merr {
	s := func(i int) string { return args[i].(string) }
	a := func(i int) jvm.Addr { return args[i].(jvm.Addr) }
	if !b.isOwner(caller) {
		return bmcErr(cUnauthorized)
	}
	switch method {
	case "addVerifier":
		if s(0) == b.net {
			return bmcErr(cUnknown)
		}
		if _, ok := b.verifiers[s(0)]; ok {
			return bmcErr(cDupBMV)
		}
		b.verifiers[s(0)] = a(1)
	case "removeVerifier":
		if _, ok := b.verifiers[s(0)]; !ok {
			return bmcErr(cNoBMV)
		}
		delete(b.verifiers, s(0))
	case "addService":
		if strings.ContainsAny(s(0), "-_ /.") {
			return bmcErr(cUnknown)
		}
		if _, ok := b.services[s(0)]; ok || s(0) == "bmc" {
			return bmcErr(cDupBSH)
		}
		b.services[s(0)] = a(1)
	case "removeService":
		if _, ok := b.services[s(0)]; !ok {
			return bmcErr(cNoBSH)
		}
		delete(b.services, s(0))
	case "addLink":
		return b.addLink(s(0))
	case "removeLink":
		return b.removeLink(s(0))
	case "addBTPLink":
		if e := b.setNID(s(0), int64(args[1].(int)), 0); e != nil {
			return e
		}
		return b.addLink(s(0))
	case "setBTPLinkNetworkId":
		l := b.linkAt(s(0))
		if l == nil {
			return bmcErr(cNoLink)
		}
		return b.setNID(s(0), int64(args[1].(int)), l.tx)
	case "addRoute":
		if s(0) == s(1) {
			return bmcErr(cUnknown)
		}
		if _, ok := b.routes[s(0)]; ok {
			return bmcErr(cUnknown)
		}
		if b.link(s(1)) == nil {
			return bmcErr(cNoLink)
		}
		b.routes[s(0)] = s(1)
	case "removeRoute":
		if _, ok := b.routes[s(0)]; !ok {
			return bmcErr(cUnknown)
		}
		delete(b.routes, s(0))
		delete(b.fees, s(0))
	case "addRelay", "removeRelay":
		if b.linkAt(s(0)) == nil {
			return bmcErr(cNoLink)
		}
		has := b.isRelay(s(0), a(1))
		if method == "addRelay" {
			if has {
				return bmcErr(cDupBMR)
			}
			b.relays[s(0)] = append(b.relays[s(0)], a(1))
			return nil
		}
		if !has {
			return bmcErr(cNoBMR)
		}
		var l []jvm.Addr
		for _, r := range b.relays[s(0)] {
			if r != a(1) {
				l = append(l, r)
			}
		}
		b.relays[s(0)] = l
	case "addOwner":
		if a(0) == b.owner || b.isOwner(a(0)) {
			return bmcErr(cUnknown)
		}
		b.owners = append(b.owners, a(0))
	case "removeOwner":
		if a(0) == b.owner || !b.isOwner(a(0)) {
			return bmcErr(cUnknown)
		}
		var l []jvm.Addr
		for _, o := range b.owners {
			if o != a(0) {
				l = append(l, o)
			}
		}
		b.owners = l
	case "setFeeHandler":
		b.feeHandler = a(0)
	case "setFeeTable":
		dst, vals := args[0].([]string), args[1].([]interface{})
		if len(dst) != len(vals) {
			return bmcErr(cUnknown)
		}
		for i, d := range dst {
			var vs []int64
			if vals[i] != nil {
				for _, v := range vals[i].([]interface{}) {
					vs = append(vs, v.(int64))
				}
			}
			if len(vs) == 0 {
				delete(b.fees, d)
				continue
			}
			if len(vs)%2 != 0 {
				return bmcErr(cUnknown)
			}
			for _, v := range vs {
				if v < 0 {
					return bmcErr(cUnknown)
				}
			}
			if len(vs) == 2 {
				if b.link(d) == nil {
					return bmcErr(cNoLink)
				}
			} else if _, e := b.resolve(d); e != nil {
				return e
			}
			b.fees[d] = vs
		}
	default:
		panic(method)
	}
	return nil
}

func sorted[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
