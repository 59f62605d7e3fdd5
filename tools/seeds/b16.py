import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c28-backoff-sleep", "C28", "a client that is stopped while it waits for the next attempt to connect",
 "the wait before the next attempt does not end with the client's context, so Stop waits for the whole backoff",
 [("client.go", """			select {
			case <-time.After(nextBackoff):
""", """			time.Sleep(nextBackoff)
			select {
			default:
""")],
 H + '''	"context"
	"errors"
	"testing"
	"time"

	"github.com/cenkalti/backoff/v4"
)

func TestDemo(t *testing.T) {
	c, err := NewClient(context.Background(), dquiet(), WithConnector(func() (Connection, error) { return nil, errors.New("no") }),
		WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(20 * time.Second) }))
	if err != nil {
		t.Fatal(err)
	}
	c.Start()
	time.Sleep(200 * time.Millisecond)
	done := make(chan struct{})
	go func() { c.Stop(); close(done) }()
	for end := time.Now().Add(4 * time.Second); c.State() != ClientClosed || c.Err() == nil; time.Sleep(10 * time.Millisecond) {
		if time.Now().After(end) {
			t.Fatal("the client still waits for its next attempt: ", c.State())
		}
	}
	if !errors.Is(c.Err(), context.Canceled) {
		for end := time.Now().Add(4 * time.Second); !errors.Is(c.Err(), context.Canceled); time.Sleep(10 * time.Millisecond) {
			if time.Now().After(end) {
				t.Fatal("the client still waits for its next attempt: ", c.Err())
			}
		}
	}
}
''')
seed("c28-handshake-deaf", "C28", "a client that is stopped while the server has not answered the handshake",
 "waiting for the answer of the handshake ends only with its timeout, not when the client is stopped",
 [("client.go", "	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())\n",
   "	ctx, cancelRead := context.WithTimeout(context.Background(), c.HandshakeTimeout())\n")],
 H + '''	"context"
	"errors"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	w := newDwire(context.Background(), "me")
	c, err := NewClient(context.Background(), dquiet(), WithConnection(w), HandshakeTimeout(20*time.Second))
	if err != nil {
		t.Fatal(err)
	}
	c.Start()
	if _, ok := w.recvRaw(5 * time.Second); !ok {
		t.Fatal("no handshake request")
	}
	go c.Stop()
	for end := time.Now().Add(4 * time.Second); !errors.Is(c.Err(), context.Canceled); time.Sleep(10 * time.Millisecond) {
		if time.Now().After(end) {
			t.Fatal("the client still waits for the handshake: ", c.State(), c.Err())
		}
	}
}
''')
seed("c28-loop-feeder", "C28", "several messages that arrive after the one that ended the message loop",
 "the goroutine that hands messages to the loop waits for a loop that has ended, so stopping the party never returns",
 [("loop.go", """				select {
				case ch <- result:
				case <-l.hubConn.Context().Done():
					break loop
				}
""", """				ch <- result
""")],
 H + '''	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c, w, cancel := demoClient(t)
	defer cancel()
	frames := []string{`{"type":7}`}
	for i := 0; i < 30; i++ {
		frames = append(frames, `{"type":6}`)
	}
	w.send(frames...)
	time.Sleep(300 * time.Millisecond)
	done := make(chan struct{})
	go func() { c.Stop(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("Stop does not return")
	}
}
''')
seed("c28-send-patient", "C28", "a hub connection that is aborted while the transport blocks in a write",
 "sending a message waits for the transport although the hub connection has ended, because it waits for the context of the transport",
 [("hubconnection.go", """		case <-c.ctx.Done():
			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
		case err := <-e:
""", """		case <-c.connection.Context().Done():
			return fmt.Errorf("hubConnection canceled: %w", c.connection.Context().Err())
		case err := <-e:
""")],
 H + '''	"context"
	"testing"
	"time"

	"github.com/go-kit/log"
)

func TestDemo(t *testing.T) {
	w := newDwire(context.Background(), "me")
	w.onW = func([]byte) { select {} }
	p := &jsonHubProtocol{}
	p.setDebugLogger(log.NewNopLogger())
	hc := newHubConnection(w, p, 1<<15, log.NewNopLogger())
	done := make(chan error, 1)
	go func() { done <- hc.Ping() }()
	time.Sleep(100 * time.Millisecond)
	hc.Abort()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(4 * time.Second):
		t.Fatal("Ping still waits for the transport")
	}
}
''')
seed("c28-rw-waits-for-op", "C28", "an operation that nothing can unblock, for example a peer that does not take the handshake",
 "a cancelled read or write waits for the end of the operation after it tried to unblock it",
 [("connectionbase.go", """		unblockRW()
		return 0, ctx.Err()
	case r := <-resultChan:
		return r.n, r.err
	}
""", """		unblockRW()
		// Do not leave the goroutine alone
		<-resultChan
		return 0, ctx.Err()
	case r := <-resultChan:
		return r.n, r.err
	}
""")],
 H + '''	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s, err := NewServer(context.Background(), dquiet(), SimpleHubFactory(&Hub{}), HandshakeTimeout(300*time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	w := newDwire(context.Background(), "me")
	w.onW = func([]byte) { select {} }
	done := make(chan error, 1)
	go func() { done <- s.Serve(w) }()
	w.send(`{"protocol":"json","version":1}`)
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(4 * time.Second):
		t.Fatal("Serve still waits for a peer that does not receive")
	}
}
''')
