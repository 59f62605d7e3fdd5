import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c01-panic-without-id", "C01", "a hub method that panics, invoked without invocation id (Send)",
 "an invocation without id is answered by a completion with an empty id when its method panics",
 [("loop.go", """		if invocation.InvocationID != "" {
			if !l.party.enableDetailedErrors() {
				stack = ""
			}
			_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("%v\\n%v", err, stack))
		}""", """		if !l.party.enableDetailedErrors() {
			stack = ""
		}
		_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("%v\\n%v", err, stack))""")],
 H + '''	"testing"
	"time"
)

type demoHub struct{ Hub }

func (d *demoHub) Boom() { panic("boom") }

func TestDemo(t *testing.T) {
	_, w, _, cancel := demoServer(t, SimpleHubFactory(&demoHub{}))
	defer cancel()
	w.send(`{"type":1,"target":"boom","arguments":[]}`)
	for _, m := range w.all(500 * time.Millisecond) {
		if m["type"] == float64(3) {
			t.Fatalf("completion %v for an invocation without id", m)
		}
	}
}
''')
seed("c02-duplicate-cancels", "C02", "a peer that cancels a stream id more than once, then cancels a running stream, on a connection with a stream limit",
 "repeated cancels of one id count again and again for the cap of pending cancels, later cancels are ignored",
 [("streamer.go", """	if _, loaded := s.cancels.LoadOrStore(invocationID, struct{}{}); !loaded {
		atomic.AddInt64(&s.cancelCount, 1)
	}""", """	s.cancels.Store(invocationID, struct{}{})
	atomic.AddInt64(&s.cancelCount, 1)""")],
 H + '''	"testing"
	"time"
)

type demoHub struct{ Hub }

func (d *demoHub) Tick() <-chan int {
	ch := make(chan int)
	go func() {
		for i := 0; i < 100; i++ {
			ch <- i
			time.Sleep(20 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}

func TestDemo(t *testing.T) {
	_, w, _, cancel := demoServer(t, SimpleHubFactory(&demoHub{}), MaxConcurrentStreams(2))
	defer cancel()
	w.send(`{"type":5,"invocationId":"gone"}`, `{"type":5,"invocationId":"gone"}`, `{"type":5,"invocationId":"gone"}`)
	w.send(`{"type":4,"invocationId":"s","target":"tick","arguments":[]}`)
	w.send(`{"type":5,"invocationId":"s"}`)
	for _, m := range w.all(time.Second) {
		if m["type"] == float64(3) {
			return
		}
	}
	t.Fatal("the cancelled stream was not stopped")
}
''')
seed("c03-send-failure-open", "C03", "a connection that fails while an invocation is written",
 "the channel of an Invoke whose message could not be written gets the error but is never closed",
 [("client.go", """			loop.invokeClient.deleteInvocation(id)
			ch <- InvokeResult{Error: err}
			close(ch)
			return
		}
		go func() {""", """			loop.invokeClient.deleteInvocation(id)
			ch <- InvokeResult{Error: err}
			return
		}
		go func() {""")],
 H + '''	"errors"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c, w, cancel := demoClient(t)
	defer cancel()
	w.fail = func(p []byte) error { return errors.New("gone") }
	ch := c.Invoke("x")
	sawErr := false
	end := time.After(5 * time.Second)
	for {
		select {
		case r, ok := <-ch:
			if !ok {
				if !sawErr {
					t.Fatal("closed without error")
				}
				return
			}
			sawErr = sawErr || r.Error != nil
		case <-end:
			t.Fatal("result channel is never closed")
		}
	}
}
''')
seed("c06-early-item-lost", "C06", "a peer that sends a stream item for an id nobody waits for",
 "a stream item with an unknown id is ignored instead of ending the connection with an error",
 [("streamclient.go", """	return fmt.Errorf(`unknown stream id "%v"`, streamItem.InvocationID)""", """	if len(c.upstreamChannels) > 0 {
		return fmt.Errorf(`unknown stream id "%v"`, streamItem.InvocationID)
	}
	return nil // a late item of the last stream""")],
 H + '''	"testing"
	"time"
)

type demoHub struct{ Hub }

func TestDemo(t *testing.T) {
	_, w, done, cancel := demoServer(t, SimpleHubFactory(&demoHub{}))
	defer cancel()
	w.send(`{"type":2,"invocationId":"nobody","item":1}`)
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("ended without error")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("connection survives an item for an unknown stream")
	}
}
''')
seed("c07-no-disconnect-on-shutdown", "C07", "a server whose context is cancelled while a client is connected",
 "the disconnected notification is skipped for connections that end because the server is cancelled",
 [("loop.go", """	l.party.onDisconnected(l.hubConn)
	if err != nil {""", """	if l.party.Context().Err() == nil {
		l.party.onDisconnected(l.hubConn)
	}
	if err != nil {""")],
 H + '''	"testing"
	"time"
)

type demoHub struct {
	Hub
	gone chan string
}

func (d *demoHub) OnDisconnected(id string) { d.gone <- id }

func TestDemo(t *testing.T) {
	gone := make(chan string, 10)
	_, w, _, cancel := demoServer(t, HubFactory(func() HubInterface { return &demoHub{gone: gone} }))
	defer cancel()
	w.send(`{"type":6}`)
	cancel()
	select {
	case <-gone:
	case <-time.After(3 * time.Second):
		t.Fatal("no disconnected notification")
	}
}
''')
seed("c08-derived-stream-id", "C08", "a client whose first call uploads a stream and whose tenth call follows later",
 "ids of uploaded streams are derived from the call id and meet the ids of later calls",
 [("loop.go", "			streamIds = append(streamIds, l.GetNewID())", "			streamIds = append(streamIds, fmt.Sprint(id, len(streamIds)))")],
 H + '''	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c, w, cancel := demoClient(t)
	defer cancel()
	seen := map[string]bool{}
	note := func(id any) {
		s, _ := id.(string)
		if s == "" {
			return
		}
		if seen[s] {
			t.Fatalf("id %v used twice", s)
		}
		seen[s] = true
	}
	up := make(chan int)
	defer close(up)
	_ = c.PushStreams("up", up)
	for i := 0; i < 12; i++ {
		m, ok := w.recv(3 * time.Second)
		if !ok {
			t.Fatal("no message")
		}
		note(m["invocationId"])
		if ids, ok := m["streamIds"].([]any); ok {
			for _, id := range ids {
				note(id)
			}
		}
		_ = c.Invoke("x")
	}
}
''')
seed("c24-limit-keeps-lock", "C24", "a negotiate request when the limit of pending negotiations is reached, and any request after it",
 "negotiate returns with the lock held when the limit is reached, all later requests wait forever",
 [("httpmux.go", """			if pending >= max {
				h.mx.Unlock()
				w.WriteHeader""", """			if pending >= max {
				w.WriteHeader""")],
 H + '''	"context"
	"net/http/httptest"
	"testing"
	"time"
)

type demoHub struct{ Hub }

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, err := NewServer(ctx, dquiet(), SimpleHubFactory(&demoHub{}))
	if err != nil {
		t.Fatal(err)
	}
	s.(*server).negotiationConnectionLimit = 1
	h := newHTTPMux(s)
	end := make(chan int, 1)
	go func() {
		for i := 0; i < 4; i++ {
			rec := httptest.NewRecorder()
			h.negotiate(rec, httptest.NewRequest("POST", "/x/negotiate", nil))
			if want := 200; i > 0 {
				want = 429
				if rec.Code != want {
					t.Errorf("request %d: status %d", i, rec.Code)
				}
			}
		}
		end <- 1
	}()
	select {
	case <-end:
	case <-time.After(3 * time.Second):
		t.Fatal("requests after the limit was reached hang")
	}
}
''')
seed("c25-write-under-lock", "C25", "a peer that does not read while a message is written to it",
 "the lock of the hub connection is held while a message is written, so the message loop waits for a slow peer",
 [("hubconnection.go", """	c.lastWriteStamp = time.Now()
	c.mx.Unlock()
	err := func() error {""", """	defer c.mx.Unlock()
	c.lastWriteStamp = time.Now()
	err := func() error {""")],
 H + '''	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := newDwire(ctx, "x")
	entered, release := make(chan int, 1), make(chan int)
	w.onW = func([]byte) { entered <- 1; <-release }
	defer close(release)
	info, _ := buildInfoDebugLogger(nil, false)
	p := &jsonHubProtocol{}
	_, dbg := buildInfoDebugLogger(nil, false)
	p.setDebugLogger(dbg)
	hc := newHubConnection(w, p, 1000, info)
	go func() { _ = hc.Ping() }()
	<-entered
	got := make(chan time.Time, 1)
	go func() { got <- hc.LastWriteStamp() }()
	select {
	case <-got:
	case <-time.After(2 * time.Second):
		t.Fatal("reading the time of the last write waits for the peer")
	}
}
''')
seed("c26-unlocked-lookup", "C26", "a message loop that looks up an id while another goroutine registers a call",
 "the registry of pending calls is read without its lock",
 [("invokeclient.go", """	i.mx.Lock()
	_, ok := i.resultChans[invocationID]
	i.mx.Unlock()
	return ok""", """	_, ok := i.resultChans[invocationID]
	return ok""")],
 H + '''	"fmt"
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ic := newInvokeClient(&jsonHubProtocol{}, time.Second)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				id := fmt.Sprint(g, "-", i%50)
				if g%2 == 0 {
					_, _ = ic.newInvocation(id)
				} else {
					_ = ic.handlesInvocationID(id)
				}
			}
		}(g)
	}
	wg.Wait()
}
''')
seed("c29-backoff-reset", "C29", "a server that is never reachable and a backoff that grows",
 "the backoff is reset after every attempt, also when no connection was established",
 [("client.go", """			if connected.Load().(bool) {
				boff.Reset()
			}""", """			if connected.Load().(bool) || err != nil {
				boff.Reset()
			}""")],
 H + '''	"context"
	"errors"
	"sync/atomic"
	"testing"
	"time"

	"github.com/cenkalti/backoff/v4"
)

type demoBackoff struct{ resets *int32 }

func (d demoBackoff) NextBackOff() time.Duration { return time.Millisecond }
func (d demoBackoff) Reset()                     { atomic.AddInt32(d.resets, 1) }

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var resets, tries int32
	c, err := NewClient(ctx, dquiet(), WithBackoff(func() backoff.BackOff { return demoBackoff{&resets} }),
		WithConnector(func() (Connection, error) { atomic.AddInt32(&tries, 1); return nil, errors.New("unreachable") }))
	if err != nil {
		t.Fatal(err)
	}
	c.Start()
	time.Sleep(200 * time.Millisecond)
	if atomic.LoadInt32(&tries) < 2 {
		t.Fatal("no attempts")
	}
	if n := atomic.LoadInt32(&resets); n > 0 {
		t.Fatalf("backoff reset %d times without any connection", n)
	}
}
''')
seed("c31-pings-do-not-count", "C31", "a peer that is idle and only sends pings for longer than the timeout interval",
 "received pings do not restart the timeout interval, an idle but living connection is ended",
 [("loop.go", """				timeoutTicker.Reset(l.party.timeout())
				if err == nil {""", """				if _, ping := evt.message.(hubMessage); !ping {
					timeoutTicker.Reset(l.party.timeout())
				}
				if err == nil {""")],
 H + '''	"testing"
	"time"
)

type demoHub struct{ Hub }

func TestDemo(t *testing.T) {
	_, w, done, cancel := demoServer(t, SimpleHubFactory(&demoHub{}), TimeoutInterval(600*time.Millisecond))
	defer cancel()
	for i := 0; i < 15; i++ {
		w.send(`{"type":6}`)
		select {
		case err := <-done:
			t.Fatalf("connection ended after %d pings: %v", i, err)
		case <-time.After(100 * time.Millisecond):
		}
	}
}
''')
seed("c40-error-forbids-reconnect", "C40", "a server connection that ends with an error while reconnecting is allowed",
 "a close message with an error text never carries the server's reconnect permission",
 [("hubconnection.go", "		AllowReconnect: allowReconnect,", "		AllowReconnect: allowReconnect && errorText == \"\",")],
 H + '''	"testing"
	"time"
)

type demoHub struct{ Hub }

func TestDemo(t *testing.T) {
	_, w, _, cancel := demoServer(t, SimpleHubFactory(&demoHub{}))
	defer cancel()
	w.send(`{"type":99}`)
	m, ok := w.recv(3 * time.Second)
	if !ok || m["type"] != float64(7) {
		t.Fatalf("no close message: %v", m)
	}
	if m["allowReconnect"] != true {
		t.Fatalf("close message without reconnect permission: %v", m)
	}
}
''')
