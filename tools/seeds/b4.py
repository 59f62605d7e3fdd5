import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c27-handshake-goroutine", "C27", "a connection whose handshake times out and that is closed afterwards",
 "the goroutine that reads the handshake delivers to a channel without buffer that nobody reads after the timeout, it is leaked for every such connection",
 [("server.go", "readJSONFramesChan := make(chan []interface{}, 1)", "readJSONFramesChan := make(chan []interface{})")],
 H + '''	"context"
	"errors"
	"runtime"
	"strings"
	"testing"
	"time"
)

type demoHub struct{ Hub }

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, err := NewServer(ctx, dquiet(), SimpleHubFactory(&demoHub{}), HandshakeTimeout(100*time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	w := newDwire(ctx, "demo1")
	if err := s.Serve(w); err == nil {
		t.Fatal("handshake did not time out")
	}
	// now the transport is closed
	_ = w.pr.CloseWithError(errors.New("closed"))
	for i := 0; ; i++ {
		buf := make([]byte, 1<<20)
		stacks := string(buf[:runtime.Stack(buf, true)])
		if !strings.Contains(stacks, "receiveHandshakeRequest") {
			return
		}
		if i == 30 {
			t.Fatal("the goroutine that reads the handshake is still there:\\n" + stacks)
		}
		time.Sleep(100 * time.Millisecond)
	}
}
''')
