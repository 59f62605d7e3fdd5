import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c03-lost-state-change", "C03", "the client reaches the awaited state between WaitForState's first look and its observer registration",
 "WaitForState misses a state change that happens while it registers its observer; its channel is never closed",
 [("client.go", """		defer cancel()
		if c.waitingIsOver(waitFor, ch) {
			return
		}
		for {""", """		defer cancel()
		for {""")],
 H + '''	"context"
	"testing"
	"time"
)

// slowMx is an observer that makes registration meet a state change: the state is set by the test right after
// the first look of WaitForState, which is forced by many attempts.
func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		cl, err := NewClient(ctx, dquiet(), WithConnection(newDwire(ctx, "x")))
		if err != nil {
			t.Fatal(err)
		}
		c := cl.(*client)
		c.mx.Lock()
		c.state = ClientConnecting
		c.mx.Unlock()
		got := make(chan (<-chan error))
		go func() { got <- c.WaitForState(ctx, ClientConnected) }()
		for j := 0; j < i%200; j++ {
			_ = c.State()
		}
		c.mx.Lock()
		c.state = ClientConnected // what setState does before it wakes the observers it finds
		chans := append([]chan ClientState{}, c.stateChangeChans...)
		for _, ch := range chans {
			select {
			case ch <- ClientConnected:
			default:
			}
		}
		c.mx.Unlock()
		select {
		case <-<-got:
		case <-time.After(2 * time.Second):
			t.Fatalf("attempt %d: client is connected, but WaitForState never ends", i)
		}
		cancel()
	}
}
''')
seed("c04-register-after-send", "C04", "the server's first stream item arrives before the sender has registered its stream",
 "PullStream registers the stream channel after the message was sent; an early item meets an unknown id and ends the connection",
 [("loop.go", """	upChan := l.streamClient.newUpstreamChannel(id)
	ch := newInvokeResultChan(l.party.Context(), upChan, errChan)
	if err := l.hubConn.SendStreamInvocation(id, method, arguments); err != nil {""",
"""	err := l.hubConn.SendStreamInvocation(id, method, arguments)
	upChan := l.streamClient.newUpstreamChannel(id)
	ch := newInvokeResultChan(l.party.Context(), upChan, errChan)
	if err != nil {""")],
 H + '''	"bytes"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c, w, cancel := demoClient(t)
	defer cancel()
	w.onW = func(p []byte) {
		if bytes.Contains(p, []byte("\\"type\\":4")) {
			w.send(`{"type":2,"invocationId":"1","item":7}`, `{"type":3,"invocationId":"1"}`)
			time.Sleep(200 * time.Millisecond)
		}
	}
	select {
	case r, ok := <-c.PullStream("x"):
		if !ok || r.Error != nil {
			t.Fatalf("no item: %v %v", ok, r.Error)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no item")
	}
}
''')
seed("c06-error-completion-keeps-call", "C06", "a call answered by an error whose result channel is read to its end",
 "a call that is answered with an error is not forgotten and its channel is never closed",
 [("invokeclient.go", """	defer i.deleteInvocation(completion.InvocationID)
	i.mx.Lock()""", """	i.mx.Lock()"""),
  ("invokeclient.go", """		if completion.Result != nil {
			var result interface{}""", """		defer i.deleteInvocation(completion.InvocationID)
		if completion.Result != nil {
			var result interface{}""")],
 H + '''	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c, w, cancel := demoClient(t)
	defer cancel()
	ch := c.Invoke("x")
	if _, ok := w.recv(5 * time.Second); !ok {
		t.Fatal("no invocation")
	}
	w.send(`{"type":3,"invocationId":"1","error":"no"}`)
	end := time.After(3 * time.Second)
	for {
		select {
		case _, ok := <-ch:
			if !ok {
				return
			}
		case <-end:
			t.Fatal("the channel of an answered call is not closed")
		}
	}
}
''')
seed("c05-pending-not-closed", "C05", "a connection that ends while a call is pending, and a caller that reads its channel until it is closed",
 "at the end of the connection the result channel of a pending call is not closed, its caller waits forever",
 [("invokeclient.go", """	for _, r := range i.resultChans {
		close(r.resultChan)
		go func""", """	for _, r := range i.resultChans {
		go func""")],
 H + '''	"errors"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c, w, cancel := demoClient(t)
	defer cancel()
	ch := c.Invoke("x")
	if _, ok := w.recv(5 * time.Second); !ok {
		t.Fatal("no invocation")
	}
	_ = w.pw.CloseWithError(errors.New("gone"))
	end := time.After(3 * time.Second)
	for {
		select {
		case _, ok := <-ch:
			if !ok {
				return
			}
		case <-end:
			t.Fatal("the channel of a pending call is not closed when the connection ends")
		}
	}
}
''')
seed("c01-closed-chan-unanswered", "C01", "a simple invocation of a hub method that returns a channel it closes without a value",
 "a simple invocation of a method whose channel is closed empty is never completed",
 [("loop.go", """					} else {

						_ = l.hubConn.Completion(invocation.InvocationID, nil, "hub func returned closed chan")
					}""", """					}""")],
 H + '''	"testing"
	"time"
)

type dhub struct{ Hub }

func (h *dhub) Empty() chan int {
	ch := make(chan int)
	close(ch)
	return ch
}

func TestDemo(t *testing.T) {
	_, w, _, cancel := demoServer(t, UseHub(&dhub{}))
	defer cancel()
	w.send(`{"type":1,"invocationId":"a","target":"empty","arguments":[]}`)
	n := 0
	for _, m := range w.all(2 * time.Second) {
		if m["type"] == float64(3) && m["invocationId"] == "a" {
			n++
		}
	}
	if n != 1 {
		t.Fatalf("%d completions", n)
	}
}
''')
seed("c02-items-unordered", "C02", "a stream of many items",
 "every stream item is sent by its own goroutine, so items are reordered and may follow the completion",
 [("streamer.go", """				_ = s.conn.StreamItem(invocationID, chanResult.Interface())""", """				go func() { _ = s.conn.StreamItem(invocationID, chanResult.Interface()) }()""")],
 H + '''	"testing"
	"time"
)

type dhub struct{ Hub }

func (h *dhub) Count() chan int {
	ch := make(chan int)
	go func() {
		for i := 0; i < 2000; i++ {
			ch <- i
		}
		close(ch)
	}()
	return ch
}

func TestDemo(t *testing.T) {
	_, w, _, cancel := demoServer(t, UseHub(&dhub{}))
	defer cancel()
	w.send(`{"type":4,"invocationId":"a","target":"count","arguments":[]}`)
	n := 0
	for n < 2000 {
		m, ok := w.recv(10 * time.Second)
		if !ok || m["type"] != float64(2) || m["item"] != float64(n) {
			t.Fatalf("item %d: got %v", n, m)
		}
		n++
	}
	if m, ok := w.recv(5 * time.Second); !ok || m["type"] != float64(3) {
		t.Fatalf("no completion: %v", m)
	}
}
''')
seed("c40-reconnect-forbidden", "C40", "a client with a connection factory and a server that closes with an error text and forbids reconnecting",
 "the client reconnects although the server's close message does not allow it when that message carries an error",
 [("client.go", "if c.loop != nil && c.loop.closeMessage != nil && !c.loop.closeMessage.AllowReconnect {",
   "if c.loop != nil && c.loop.closeMessage != nil && c.loop.closeMessage.Error == \"\" && !c.loop.closeMessage.AllowReconnect {")],
 H + '''	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/cenkalti/backoff/v4"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var n int32
	var w *dwire
	ready := make(chan struct{}, 10)
	c, err := NewClient(ctx, dquiet(), WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(10 * time.Millisecond) }), WithConnector(func() (Connection, error) {
		atomic.AddInt32(&n, 1)
		w = newDwire(ctx, "x")
		ready <- struct{}{}
		return w, nil
	}))
	if err != nil {
		t.Fatal(err)
	}
	c.Start()
	<-ready
	if _, ok := w.recvRaw(5 * time.Second); !ok {
		t.Fatal("no handshake request")
	}
	w.send(`{}`)
	if err := <-c.WaitForState(ctx, ClientConnected); err != nil {
		t.Fatal(err)
	}
	w.send(`{"type":7,"error":"go away","allowReconnect":false}`)
	time.Sleep(time.Second)
	if k := atomic.LoadInt32(&n); k != 1 {
		t.Fatalf("the client reconnected %d times", k-1)
	}
}
''')
