package signalr

import (
	"bytes"
	"context"
	"encoding/json"
	"io"
	"testing"
	"time"

	"github.com/go-kit/log"
)

// dwire is one end of a connection under the test's control: the party reads what the test sends and the
// test reads what the party writes.
type dwire struct {
	ConnectionBase
	pr   *io.PipeReader
	pw   *io.PipeWriter
	out  chan []byte
	buf  bytes.Buffer
	fail func(p []byte) error
	onW  func(p []byte)
}

func newDwire(ctx context.Context, id string) *dwire {
	pr, pw := io.Pipe()
	w := &dwire{ConnectionBase: *NewConnectionBase(ctx, id), pr: pr, pw: pw, out: make(chan []byte, 10000)}
	go func() {
		<-ctx.Done()
		_ = pr.CloseWithError(ctx.Err())
	}()
	return w
}

func (w *dwire) Read(p []byte) (int, error) { return w.pr.Read(p) }

func (w *dwire) Write(p []byte) (int, error) {
	if w.fail != nil {
		if err := w.fail(p); err != nil {
			return 0, err
		}
	}
	if w.onW != nil {
		w.onW(p)
	}
	w.out <- append([]byte(nil), p...)
	return len(p), nil
}

// send gives text frames to the party.
func (w *dwire) send(frames ...string) {
	var b bytes.Buffer
	for _, f := range frames {
		b.WriteString(f)
		b.WriteByte(30)
	}
	go func(b []byte) { _, _ = w.pw.Write(b) }(b.Bytes())
	time.Sleep(20 * time.Millisecond)
}

// recvRaw returns the next text frame the party wrote.
func (w *dwire) recvRaw(d time.Duration) (string, bool) {
	end := time.After(d)
	for {
		if i := bytes.IndexByte(w.buf.Bytes(), 30); i >= 0 {
			f := string(w.buf.Next(i + 1))
			return f[:i], true
		}
		select {
		case p := <-w.out:
			w.buf.Write(p)
		case <-end:
			return "", false
		}
	}
}

// recv returns the next message that is no ping.
func (w *dwire) recv(d time.Duration) (map[string]any, bool) {
	end := time.Now().Add(d)
	for {
		s, ok := w.recvRaw(time.Until(end))
		if !ok {
			return nil, false
		}
		m := map[string]any{}
		_ = json.Unmarshal([]byte(s), &m)
		if m["type"] == float64(6) {
			continue
		}
		return m, true
	}
}

// all collects the messages written within d.
func (w *dwire) all(d time.Duration) (out []map[string]any) {
	end := time.Now().Add(d)
	for {
		m, ok := w.recv(time.Until(end))
		if !ok {
			return
		}
		out = append(out, m)
	}
}

func dquiet() func(Party) error { return Logger(log.NewNopLogger(), false) }

// demoServer serves a connection that has finished its handshake. done gives the end of Serve.
func demoServer(t *testing.T, opts ...func(Party) error) (Server, *dwire, chan error, context.CancelFunc) {
	t.Helper()
	ctx, cancel := context.WithCancel(context.Background())
	s, err := NewServer(ctx, append([]func(Party) error{dquiet()}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	w, done := demoServe(t, s, "demo1")
	return s, w, done, cancel
}

func demoServe(t *testing.T, s Server, id string) (*dwire, chan error) {
	t.Helper()
	w := newDwire(s.(*server).Context(), id)
	done := make(chan error, 1)
	go func() { done <- s.Serve(w) }()
	w.send(`{"protocol":"json","version":1}`)
	if _, ok := w.recvRaw(5 * time.Second); !ok {
		t.Fatal("no handshake response")
	}
	return w, done
}

// demoClient starts a client whose peer is the test.
func demoClient(t *testing.T, opts ...func(Party) error) (Client, *dwire, context.CancelFunc) {
	t.Helper()
	ctx, cancel := context.WithCancel(context.Background())
	w := newDwire(ctx, "demo1")
	c, err := NewClient(ctx, append([]func(Party) error{dquiet(), WithConnection(w)}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	c.Start()
	if _, ok := w.recvRaw(5 * time.Second); !ok {
		t.Fatal("no handshake request")
	}
	w.send(`{}`)
	select {
	case err := <-c.WaitForState(ctx, ClientConnected):
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("client does not connect")
	}
	return c, w, cancel
}
