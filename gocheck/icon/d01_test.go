package icon

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	"github.com/icon-project/btp/chain/icon/client"

	"verif/gocheck/fake"
	"verif/gocheck/pbt"
)

// TestD01_Monitors: monitors that share a client, some of which begin while others read or end.
func TestD01_Monitors(t *testing.T) {
	pbt.Check(t, 12, "at least two monitors with a notification each", func(t *rapid.T, c *pbt.Case) {
		node := fake.NewNode()
		defer node.Close()
		k := rapid.IntRange(2, 5).Draw(t, "monitors")
		counts := make([]int, k)
		delays := make([]int, k)
		for i := range counts {
			counts[i] = rapid.IntRange(0, 12).Draw(t, "notifications")
			delays[i] = rapid.IntRange(0, 300).Draw(t, "delay")
		}
		node.WS = func(path string, conn *websocket.Conn) {
			var req struct {
				Height client.HexInt `json:"height"`
			}
			if conn.ReadJSON(&req) != nil {
				return
			}
			n, _ := req.Height.Value()
			_ = conn.WriteJSON(map[string]interface{}{"code": 0})
			for j := 0; j < counts[n]; j++ {
				_ = conn.WriteJSON(map[string]interface{}{"hash": fmt.Sprintf("0x%x", j), "height": req.Height})
				time.Sleep(time.Duration(delays[n]) * time.Microsecond)
			}
			_ = conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
			_, _, _ = conn.ReadMessage()
		}
		cl := client.NewClient(node.URL, fake.Quiet())
		got := make([]int, k)
		bad := make([]string, k)
		done := pbt.Within(30*time.Second, func() {
			var wg sync.WaitGroup
			for i := 0; i < k; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					time.Sleep(time.Duration(delays[(i+1)%k]) * time.Microsecond)
					_ = cl.MonitorBlock(&client.BlockRequest{Height: client.NewHexInt(int64(i))},
						func(conn *websocket.Conn, v *client.BlockNotification) error {
							if string(v.Height) != fmt.Sprintf("0x%x", i) || string(v.Hash) != fmt.Sprintf("0x%x", got[i]) {
								bad[i] = fmt.Sprintf("notification %s of height %s", v.Hash, v.Height)
							}
							got[i]++
							return nil
						}, nil, func(*websocket.Conn, error) { bad[i] = "error callback" })
				}(i)
			}
			wg.Wait()
		})
		if !done {
			t.Fatalf("a monitor did not end")
		}
		for i := range got {
			if got[i] != counts[i] || bad[i] != "" {
				t.Fatalf("monitor %d got %d of %d notifications, %s", i, got[i], counts[i], bad[i])
			}
		}
		c.Key("%v %v", counts, delays)
		two := 0
		for _, n := range counts {
			if n > 0 {
				two++
			}
		}
		c.NonTrivial(two > 1)
	})
}
