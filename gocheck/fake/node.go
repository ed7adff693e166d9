// Package fake holds scripted counterparts of the networks the relay talks to.
package fake

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"sync"
	"sync/atomic"

	"github.com/gorilla/websocket"
	"github.com/icon-project/btp/common/log"
)

// RPCError is an error object of a JSON-RPC response.
type RPCError struct {
	Code    int         `json:"code"`
	Message string      `json:"message"`
	Data    interface{} `json:"data,omitempty"`
}

// Call is one JSON-RPC request as it arrived.
type Call struct {
	Method string
	Params json.RawMessage
	Raw    []byte
	Header http.Header
}

// Raw makes the node answer with these bytes and this status.
type Raw struct {
	Status int
	Type   string
	Body   []byte
}

// Node is an HTTP JSON-RPC and websocket server driven by two callbacks.
type Node struct {
	*httptest.Server
	// Handle answers a call with a value, a *RPCError, or a *Raw.
	Handle func(c *Call) interface{}
	// WS serves one websocket connection; the connection is closed when it returns.
	WS func(path string, conn *websocket.Conn)

	mtx   sync.Mutex
	calls []*Call
	wg    sync.WaitGroup
}

func NewNode() *Node {
	n := &Node{}
	n.Server = httptest.NewUnstartedServer(n)
	_ = n.Server.Listener.Close()
	n.Server.Listener = listen()
	n.Server.Start()
	return n
}

var hosts uint32

// listen opens a port on a loopback address of its own: what still talks to a server that is gone never reaches another
// one, and closed connections use up no ports.
func listen() net.Listener {
	i := atomic.AddUint32(&hosts, 1) + uint32(os.Getpid())<<8
	a := fmt.Sprintf("127.%d.%d.%d:0", 1+i>>16%250, 1+i>>8%250, 1+i%250)
	if l, err := net.Listen("tcp", a); err == nil {
		return l
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Println("VERIF-INCONCLUSIVE no loopback network:", err)
		os.Exit(3)
	}
	return l
}

// Calls returns what has arrived so far.
func (n *Node) Calls() []*Call {
	n.mtx.Lock()
	defer n.mtx.Unlock()
	return append([]*Call(nil), n.calls...)
}

func (n *Node) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if websocket.IsWebSocketUpgrade(r) {
		up := websocket.Upgrader{}
		conn, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer conn.Close()
		if n.WS != nil {
			n.WS(r.URL.Path, conn)
		}
		return
	}
	b, _ := io.ReadAll(r.Body)
	var req struct {
		ID     interface{}     `json:"id"`
		Method string          `json:"method"`
		Params json.RawMessage `json:"params"`
	}
	if err := json.Unmarshal(b, &req); err != nil {
		http.Error(w, "bad request", 400)
		return
	}
	c := &Call{Method: req.Method, Params: req.Params, Raw: b, Header: r.Header.Clone()}
	n.mtx.Lock()
	n.calls = append(n.calls, c)
	n.mtx.Unlock()
	var res interface{}
	if n.Handle != nil {
		res = n.Handle(c)
	}
	out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
	status := 200
	switch v := res.(type) {
	case *Raw:
		if v.Type != "" {
			w.Header().Set("Content-Type", v.Type)
		}
		w.WriteHeader(v.Status)
		_, _ = w.Write(v.Body)
		return
	case *RPCError:
		out["error"] = v
		status = 400
	default:
		out["result"] = v
	}
	ob, err := json.Marshal(out)
	if err != nil {
		panic(fmt.Sprintf("fake node: %v", err))
	}
	w.Header().Set("Content-Type", "application/json; charset=UTF-8")
	w.WriteHeader(status)
	_, _ = w.Write(ob)
}

// Quiet returns a logger that writes nothing.
func Quiet() log.Logger {
	l := log.New()
	l.SetLevel(log.PanicLevel)
	if o, ok := l.(interface{ SetOutput(io.Writer) }); ok {
		o.SetOutput(io.Discard)
	}
	return l
}
