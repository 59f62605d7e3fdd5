import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c10-sse-empty-data", "C10", "a server sent event with an empty data line",
 "an empty data line crashes the client process",
 [("clientsseconnection.go", "if len(json) > 0 && json[0] == ' ' {", "if json[0] == ' ' {")],
 H + '''	"io"
	"net/http"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	pr, pw := io.Pipe()
	c, err := newClientSSEConnection("http://127.0.0.1:1", "1", pr, http.DefaultClient)
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		_, _ = pw.Write([]byte("data:\\n\\n"))
		_, _ = pw.Write([]byte("data: {}\\n\\n"))
	}()
	got := make(chan string, 1)
	go func() {
		p := make([]byte, 100)
		for {
			n, err := c.Read(p)
			if err != nil || n > 0 {
				got <- string(p[:n])
				return
			}
		}
	}()
	select {
	case s := <-got:
		if s != "{}" {
			t.Fatal(s)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("nothing received")
	}
}
''')
seed("c10-claimed-arguments", "C10", "a binary invocation whose argument array is nil or claims far more arguments than the message has",
 "a nil argument array crashes the process, a huge claimed length exhausts its memory",
 [("messagepackhubprotocol.go", "		for i := 0; i < argLen; i++ {\n", "		invocationMessage.Arguments = make([]interface{}, argLen)\n		for i := range invocationMessage.Arguments {\n"),
  ("messagepackhubprotocol.go", "			invocationMessage.Arguments = append(invocationMessage.Arguments, argument)\n", "			invocationMessage.Arguments[i] = argument\n")],
 H + '''	"bytes"
	"testing"

	"github.com/go-kit/log"
	"github.com/vmihailenco/msgpack/v5"
)

func TestDemo(t *testing.T) {
	p := &messagePackHubProtocol{}
	p.setDebugLogger(log.NewNopLogger())
	var body bytes.Buffer
	e := msgpack.NewEncoder(&body)
	_ = e.EncodeArrayLen(5)
	_ = e.EncodeInt(1)
	_ = e.EncodeMapLen(0)
	_ = e.EncodeNil()
	_ = e.EncodeString("x")
	_ = e.EncodeNil() // no argument array
	frame := append([]byte{byte(body.Len())}, body.Bytes()...)
	var remain bytes.Buffer
	_, _ = p.ParseMessages(bytes.NewReader(frame), &remain)
}
''')
