package score

import (
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

func (w *world) observe() {
	for _, b := range w.bmcs {
		for _, o := range b.out {
			switch {
			case strings.HasPrefix(o, "BTPEvent") && strings.HasSuffix(o, "ROUTE"):
				w.done["route"]++
			case strings.HasPrefix(o, "BTPEvent") && strings.HasSuffix(o, "ERROR"):
				w.done["error"]++
			case strings.HasPrefix(o, "BTPEvent") && strings.HasSuffix(o, "REPLY"):
				w.done["reply"]++
			case strings.HasPrefix(o, "told") && strings.Contains(o, " error "):
				w.done["told error"]++
			case strings.HasPrefix(o, "told"):
				w.done["told"]++
			case strings.HasPrefix(o, "MessageDropped"):
				w.done["dropped"]++
			case strings.HasPrefix(o, "ClaimRewardResult"):
				w.done["claimed"]++
			case strings.HasPrefix(o, "ClaimReward "):
				w.done["claim"]++
			}
		}
	}
}

func (w *world) key(c *pbt.Case) {
	d := w.done
	c.Key("%d bmcs told %d errors %d replies %d routed %d error sent %d dropped %d claims %d results %d", len(w.bmcs), d["told"], d["told error"], d["reply"], d["route"], d["error"], d["dropped"], d["claim"], d["claimed"])
	for _, k := range sorted(d) {
		if d[k] > 0 {
			c.Label(k)
		}
	}
}

func TestN01(t *testing.T) {
	pbt.Check(t, 50, "a message passed on by a BMC on its way, one handled by a service, and an answer or error returned",
		func(t *rapid.T, c *pbt.Case) {
			w := newWorld(t, oneOf(t, "bmcs", 2, 3, 3, 4))
			w.rich()
			w.build(pct(t, "fees", 50))
			for i := 10 + pbt.Pick(t, "steps", 40); i > 0; i-- {
				w.step(8, [6]int{7, 8, 1, 1, 1, 2})
				w.observe()
			}
			w.drain()
			w.key(c)
			d := w.done
			c.NonTrivial(d["route"] > 0 && d["told"] > 0 && d["reply"]+d["error"] > 0)
		})
}

func TestN02(t *testing.T) {
	pbt.Check(t, 50, "fees paid, a message that failed or was dropped, and a claim of a reward of another network",
		func(t *rapid.T, c *pbt.Case) {
			w := newWorld(t, oneOf(t, "bmcs", 2, 3, 3, 4))
			w.build(true)
			for i := 10 + pbt.Pick(t, "steps", 40); i > 0; i-- {
				w.step(4, [6]int{6, 9, 4, 3, 2, 0})
				w.observe()
				w.conserved("a step")
			}
			w.drain()
			w.conserved("everything was delivered")
			w.key(c)
			d := w.done
			c.NonTrivial(d["error"]+d["dropped"] > 0 && d["claim"] > 0 && d["reply"] > 0)
		})
}

func TestN03(t *testing.T) {
	pbt.Check(t, 60, "a link removed after it had relays, and messages handled",
		func(t *rapid.T, c *pbt.Case) {
			w := newWorld(t, oneOf(t, "bmcs", 2, 3))
			w.rich()
			w.build(pct(t, "fees", 50))
			for i := 10 + pbt.Pick(t, "steps", 50); i > 0; i-- {
				w.step(80, [6]int{6, 8, 1, 1, 1, 0})
				w.observe()
			}
			w.key(c)
			d := w.done
			c.NonTrivial(d["removeLink"] > 0)
		})
}
