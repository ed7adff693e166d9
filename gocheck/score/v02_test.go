package score

import (
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"verif/gocheck/fake"
	"verif/gocheck/jvm"
	"verif/gocheck/pbt"
)

type brEvent struct {
	seq int64
	msg []byte
}

type brReceipt struct {
	height, index int64
	evs           []brEvent
}

func bridgeMessage(rs []brReceipt, next string) []byte {
	var l [][]byte
	for _, r := range rs {
		var es [][]byte
		for _, e := range r.evs {
			es = append(es, fake.EncList(fake.EncBytes([]byte(next)), fake.EncInt(e.seq), fake.EncBytes(e.msg)))
		}
		l = append(l, fake.EncBytes(fake.EncList(fake.EncInt(r.index), fake.EncBytes(fake.EncList(es...)), fake.EncInt(r.height))))
	}
	return fake.EncList(fake.EncList(l...))
}

func TestV02(t *testing.T) {
	pbt.Check(t, 120, "a relay message of two or more new messages taken, and one refused or already delivered",
		func(t *rapid.T, c *pbt.Case) {
			vm.Reset()
			bmc, at := jvm.CX(bmcAt), jvm.CX(bmvAt)
			net := oneOf(t, "net", "0x1.bsc", "0x60.hmny")
			height := rapid.Int64Range(0, 1000).Draw(t, "offset")
			if err := vm.Deploy(at, "foundation.icon.btp.bmv.bridge.BTPMessageVerifier", jvm.HX(1), bmc, net, height); err != nil {
				t.Fatalf("cannot deploy: %v", err)
			}
			own, prev := "btp://0x2.icon/"+string(bmc), "btp://"+net+"/0x00"
			var chain []brReceipt // the receipts of the source with messages, oldest first
			seq, top := int64(0), height+rapid.Int64Range(0, 3).Draw(t, "start")
			rx := int64(0)
			big2, odd := false, false
			for i := rapid.IntRange(1, 8).Draw(t, "ops"); i > 0; i-- {
				for j := pbt.Pick(t, "grow", 5); j > 0; j-- {
					top += rapid.Int64Range(0, 2).Draw(t, "dh")
					r := brReceipt{height: top, index: int64(j)}
					for k := rapid.IntRange(1, 4).Draw(t, "evs"); k > 0; k-- {
						seq++
						r.evs = append(r.evs, brEvent{seq, rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "msg")})
					}
					chain = append(chain, r)
				}
				// the first receipt that still has something new, and a window about it
				first := len(chain)
				for k, r := range chain {
					if r.evs[len(r.evs)-1].seq > rx {
						first = k
						break
					}
				}
				from := first
				if pct(t, "shift", 35) {
					from = rapid.IntRange(0, len(chain)).Draw(t, "from")
				}
				to := rapid.IntRange(from, len(chain)).Draw(t, "to")
				sel := append([]brReceipt{}, chain[from:to]...)
				if len(sel) > 0 && pct(t, "cut", 20) { // some events of a receipt only
					k := pbt.Pick(t, "cutat", len(sel))
					a := rapid.IntRange(0, len(sel[k].evs)).Draw(t, "cuta")
					b := rapid.IntRange(a, len(sel[k].evs)).Draw(t, "cutb")
					sel[k].evs = sel[k].evs[a:b]
				}
				caller, o, p, wrong := bmc, own, prev, false
				if pct(t, "wrong", 10) {
					wrong = true
					switch pbt.Pick(t, "how", 3) {
					case 0:
						caller = oneOf(t, "caller", jvm.HX(1), jvm.CX(9))
					case 1:
						o = "btp://0x2.icon/" + string(jvm.CX(9))
					case 2:
						p = "btp://0x3.bsc/0x00"
					}
				}
				// what the verifier is to do
				var want [][]byte
				gap, h, next := false, height, rx+1
				for _, r := range sel {
					if r.height < h {
						continue
					}
					h = r.height
					for _, e := range r.evs {
						if e.seq > next {
							gap = true
						}
						if e.seq == next && !gap {
							want = append(want, e.msg)
							next++
						}
					}
				}
				r, err := vm.Call(caller, at, 0, "handleRelayMessage", o, p, rx, bridgeMessage(sel, own))
				c.Key("%d receipts from %d of %d, new %d gap %v wrong %v", len(sel), from-first, len(chain), len(want), gap, wrong)
				if wrong || gap {
					if err == nil {
						t.Fatalf("a message with a gap (%v) or a wrong caller, network or receiver (%v) is accepted", gap, wrong)
					}
					if e := err.(*jvm.Err); !wrong && (!e.Revert || e.Code != 26) {
						t.Fatalf("a gap is answered with %v, not the code for not verifiable yet", err)
					}
					odd = true
				} else {
					if err != nil {
						t.Fatalf("a relay message with the next %d messages is refused: %v", len(want), err)
					}
					l := r.Ret.([]interface{})
					if len(l) != len(want) {
						t.Fatalf("%d messages for %d", len(l), len(want))
					}
					for k := range want {
						if g, ok := l[k].([]byte); !ok || string(g) != string(want[k]) {
							t.Fatalf("message %d of %d is %v for %x", k, len(want), l[k], want[k])
						}
					}
					rx, height = next-1, h
					big2 = big2 || len(want) > 1
					odd = odd || from < first
				}
				s, err := vm.Query(at, "getStatus")
				if err != nil || s.(map[string]interface{})["height"].(*big.Int).Int64() != height {
					t.Fatalf("status %v %v for height %d", s, err, height)
				}
			}
			c.NonTrivial(big2 && odd)
		})
}
