package score

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verif/gocheck/jvm"
	"verif/gocheck/pbt"
)

type fragState struct {
	parts [][]byte
	next  int // index of the part that is awaited, -1 if none has been started
}

func TestN04(t *testing.T) {
	pbt.Check(t, 120, "a message put together from three or more parts while another relay or link had parts waiting",
		func(t *rapid.T, c *pbt.Case) {
			w := newWorld(t, 3)
			b := w.bmcs[0]
			var links []string
			for _, x := range w.bmcs[1:] {
				w.mustAdmin(b, "addVerifier", x.net, bmvOf(0, x.net))
				w.mustAdmin(b, "addLink", x.addr)
				for _, r := range relayPool[:2] {
					w.mustAdmin(b, "addRelay", x.addr, r)
				}
				links = append(links, x.addr)
			}
			w.queue = map[string][][]byte{}
			st := map[string]*fragState{}
			nontrivial, whole, refused := false, 0, 0
			for i := 5 + pbt.Pick(t, "ops", 40); i > 0; i-- {
				link, by := oneOf(t, "link", links...), oneOf(t, "by", relayPool[:2]...)
				if pct(t, "stranger", 4) {
					by = relayPool[3]
				}
				k := link + string(by)
				s := st[k]
				if s == nil {
					s = &fragState{next: -1}
					st[k] = s
				}
				part := rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "part")
				idx := s.next
				switch {
				case s.next < 0 || pct(t, "restart", 7):
					idx = -(1 + pbt.Pick(t, "last", 5))
				case pct(t, "wrong", 10):
					idx = pbt.Pick(t, "idx", 7)
				}
				var bmv *jvm.Err
				if pct(t, "bmvfail", 10) {
					bmv = &jvm.Err{Revert: true, Code: 26, Msg: "not yet"}
				}
				prev := w.bmcs[1]
				if link == w.bmcs[2].addr {
					prev = w.bmcs[2]
				}
				w.bmvErr, w.bmvGot = bmv, ""
				w.bmvRet = []interface{}{}
				n := pbt.Pick(t, "msgs", 3)
				for j := 0; j < n; j++ {
					w.bmvRet = append(w.bmvRet, (&nmsg{src: prev.net, dst: b.net, svc: "none", sn: 0, nsn: 5, payload: []byte{1}}).encode())
				}
				var msgs [][]byte
				for _, m := range w.bmvRet {
					msgs = append(msgs, m.([]byte))
				}
				rx := b.linkAt(link).rx
				member := b.isRelay(link, by)
				last := idx == 0 && s.next == 0 && member
				e := w.call(b, fmt.Sprintf("fragment %d", idx), by, 0, func() *merr {
					switch {
					case !member:
						return bmcErr(cUnauthorized)
					case idx < 0:
						return nil
					case s.next < 0:
						return &merr{code: -1}
					case idx != s.next:
						return bmcErr(cUnknown)
					case idx > 0:
						return nil
					}
					var me *merr
					if bmv != nil {
						me = &merr{code: bmv.Code}
					}
					return b.handleRelay(link, by, me, msgs)
				}, "handleFragment", link, base64.URLEncoding.EncodeToString(part), idx)
				got := w.bmvGot
				if last {
					all := append(bytes.Join(s.parts, nil), part...)
					want := fmt.Sprintf("%s %s handleRelayMessage %s %s %d %x", bmvOf(0, prev.net), b.at, b.addr, link, rx, all)
					if got != want {
						t.Fatalf("the verifier is asked %s for %s", got, want)
					}
				} else if got != "" {
					t.Fatalf("part %d (%d awaited) is taken for the last one: %s", idx, s.next, got)
				}
				switch {
				case e != nil:
					refused++
				case idx < 0:
					s.parts, s.next = [][]byte{part}, -idx-1
				case idx > 0:
					s.parts, s.next = append(s.parts, part), idx-1
				default:
					whole++
					for k2, o := range st {
						nontrivial = nontrivial || k2 != k && o.next >= 0 && len(s.parts) > 1
					}
					s.parts, s.next = nil, -1 // a new message has to start over; sending the last part again is not of interest
				}
				if e == nil && idx == 0 {
					w.same(b, "a whole message")
					// start over so that the index that is awaited is known
					w.call(b, "fragment -1", by, 0, func() *merr { return nil }, "handleFragment", link, base64.URLEncoding.EncodeToString([]byte{9}), -1)
					s.parts, s.next = [][]byte{{9}}, 0
				}
			}
			c.Key("whole %d refused %d", whole, refused)
			c.NonTrivial(nontrivial)
		})
}
