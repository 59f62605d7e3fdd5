import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c11-shrinking-limit", "C11", "a frame within the limit whose first part is received together with the frame before it",
 "the limit of a text frame shrinks by what is left from the read before, so messages within the limit end the connection",
 [("jsonhubprotocol.go", "	frames, err := readJSONFrames(reader, remainBuf, int(j.maximumReceiveMessageSize))\n", "	// What is left from the last read counts for the limit\n	frames, err := readJSONFrames(reader, remainBuf, int(j.maximumReceiveMessageSize)-remainBuf.Len())\n")],
 H + '''	"bytes"
	"io"
	"strings"
	"testing"

	"github.com/go-kit/log"
)

type demoChunks struct{ c []string }

func (d *demoChunks) Read(p []byte) (int, error) {
	if len(d.c) == 0 {
		return 0, io.EOF
	}
	n := copy(p, d.c[0])
	d.c = d.c[1:]
	return n, nil
}

func TestDemo(t *testing.T) {
	j := &jsonHubProtocol{dbg: log.NewNopLogger(), maximumReceiveMessageSize: 100}
	f := `{"type":1,"target":"` + strings.Repeat("x", 50) + `","arguments":[]}`
	r := &demoChunks{c: []string{"{\\"type\\":6}\\x1e" + f[:60], f[60:] + "\\x1e"}}
	var remain bytes.Buffer
	n := 0
	for len(r.c) > 0 {
		ms, err := j.ParseMessages(r, &remain)
		if err != nil {
			t.Fatal(err)
		}
		n += len(ms)
	}
	if n != 2 {
		t.Fatal(n)
	}
}
''')
seed("c11-length-truncated", "C11", "a binary frame whose length prefix claims 4 GB or more",
 "the claimed length of a binary frame is compared with the limit in 32 bits, so a frame of 4 GB and more is buffered without limit",
 [("messagepackhubprotocol.go", "		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {\n", "		if m.maximumReceiveMessageSize > 0 && uint32(frameLen) > uint32(m.maximumReceiveMessageSize) {\n")],
 H + '''	"bytes"
	"testing"

	"github.com/go-kit/log"
)

type demoEndless struct {
	b     []byte
	total int
	t     *testing.T
}

func (d *demoEndless) Read(p []byte) (int, error) {
	if len(d.b) > 0 {
		n := copy(p, d.b)
		d.b = d.b[n:]
		return n, nil
	}
	if d.total += len(p); d.total > 10000000 {
		d.t.Fatal("buffers without limit")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	m := &messagePackHubProtocol{dbg: log.NewNopLogger(), maximumReceiveMessageSize: 1000}
	var remain bytes.Buffer
	_, err := m.ParseMessages(&demoEndless{b: []byte{0x81, 0x80, 0x80, 0x80, 0x10}, t: t}, &remain)
	if err == nil {
		t.Fatal("no error")
	}
}
''')
seed("c14-trimmed-newline", "C14", "a read that ends within a binary frame, or a text string, at a byte that is a newline",
 "trailing newlines of what was read are removed, also when they belong to a binary frame",
 [("hubconnection.go", "					_, err = writer.Write(p[:n])\n", "					// The server sent event connection ends a pending read with a newline\n					_, err = writer.Write(bytes.TrimRight(p[:n], \"\\n\"))\n")],
 H + '''	"bytes"
	"context"
	"testing"
	"time"

	"github.com/go-kit/log"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := newDwire(ctx, "1")
	p := &messagePackHubProtocol{dbg: log.NewNopLogger(), maximumReceiveMessageSize: 1000}
	h := newHubConnection(w, p, 1000, log.NewNopLogger())
	var b bytes.Buffer
	// the last byte of the frame is the number 10
	if err := p.WriteMessage(completionMessage{Type: 3, InvocationID: "1", Result: 10}, &b); err != nil {
		t.Fatal(err)
	}
	go func() { _, _ = w.pw.Write(b.Bytes()) }()
	select {
	case r := <-h.Receive():
		if r.err != nil {
			t.Fatal(r.err)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("frame lost")
	}
}
''')
seed("c14-remain-per-parse", "C14", "a complete frame and the first part of the next one received together",
 "bytes of an incomplete frame that were received behind a complete one are lost",
 [("hubconnection.go", "		remainBuf := bytes.Buffer{}\n	loop:\n		for {\n", "	loop:\n		for {\n			remainBuf := bytes.Buffer{}\n")],
 H + '''	"context"
	"testing"
	"time"

	"github.com/go-kit/log"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := newDwire(ctx, "1")
	p := &jsonHubProtocol{dbg: log.NewNopLogger(), maximumReceiveMessageSize: 1000}
	h := newHubConnection(w, p, 1000, log.NewNopLogger())
	c := h.Receive()
	go func() {
		_, _ = w.pw.Write([]byte("{\\"type\\":6}\\x1e{\\"ty"))
		time.Sleep(50 * time.Millisecond)
		_, _ = w.pw.Write([]byte("pe\\":6}\\x1e"))
	}()
	for i := 0; i < 2; i++ {
		select {
		case r := <-c:
			if r.err != nil {
				t.Fatal(r.err)
			}
		case <-time.After(3 * time.Second):
			t.Fatal("frame lost")
		}
	}
}
''')
seed("c30-untimed-response", "C30", "a client that sends its handshake request but does not read the response",
 "writing the handshake response never times out, so the connection is served forever without a handshake",
 [("server.go", "	info, dbg := s.prefixLoggers(conn.ConnectionID())\n	ctx, cancelWrite := context.WithTimeout(s.Context(), s.HandshakeTimeout())\n	defer cancelWrite()\n", "	info, dbg := s.prefixLoggers(conn.ConnectionID())\n	ctx, cancelWrite := context.WithCancel(s.Context())\n	defer cancelWrite()\n")],
 H + '''	"context"
	"errors"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, err := NewServer(ctx, dquiet(), UseHub(&Hub{}), HandshakeTimeout(200*time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	w := newDwire(ctx, "1")
	w.fail = func([]byte) error {
		<-ctx.Done()
		return errors.New("gone")
	}
	done := make(chan error, 1)
	go func() { done <- s.Serve(w) }()
	w.send(`{"protocol":"json","version":1}`)
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("no timeout")
	}
}
''')
seed("c38-shared-protocol", "C38", "two servers in one process with different receive limits",
 "all connections that use the same protocol share one instance, so a connection gets the receive limit of a server that was connected later",
 [("loop.go", "	protocol = reflect.New(reflect.ValueOf(protocol).Elem().Type()).Interface().(hubProtocol)\n", "")],
 H + '''	"strings"
	"testing"
	"time"
)

type demoHub struct{ Hub }

func (h *demoHub) Len(s string) int { return len(s) }

func TestDemo(t *testing.T) {
	_, w1, done, cancel1 := demoServer(t, UseHub(&demoHub{}), MaximumReceiveMessageSize(100000))
	defer cancel1()
	_, _, _, cancel2 := demoServer(t, UseHub(&demoHub{}), MaximumReceiveMessageSize(1000))
	defer cancel2()
	w1.send(`{"type":6}`)
	w1.send(`{"type":1,"invocationId":"1","target":"len","arguments":["` + strings.Repeat("x", 20000) + `"]}`)
	m, ok := w1.recv(3 * time.Second)
	if !ok || m["result"] != float64(20000) {
		select {
		case err := <-done:
			t.Fatal(m, err)
		default:
			t.Fatal(m)
		}
	}
}
''')
seed("c27-write-goroutine", "C27", "a connection that ends while a message is being written to a slow peer",
 "the goroutine that writes a message stays blocked forever when the connection ended before the write did",
 [("hubconnection.go", "		e := make(chan error, 1)\n", "		e := make(chan error)\n")],
 H + '''	"context"
	"errors"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/go-kit/log"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	w := newDwire(ctx, "1")
	release := make(chan struct{})
	w.fail = func([]byte) error {
		<-release
		return errors.New("gone")
	}
	h := newHubConnection(w, &jsonHubProtocol{dbg: log.NewNopLogger()}, 1000, log.NewNopLogger())
	go func() {
		time.Sleep(50 * time.Millisecond)
		cancel()
	}()
	if err := h.Ping(); err == nil {
		t.Fatal("no error")
	}
	close(release)
	time.Sleep(200 * time.Millisecond)
	buf := make([]byte, 1<<20)
	if s := string(buf[:runtime.Stack(buf, true)]); strings.Contains(s, "writeMessage") {
		t.Fatal(s)
	}
}
''')
