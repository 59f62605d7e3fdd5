import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c12-ids-without-id", "C12", "an upload stream call that wants no completion, over the binary protocol",
 "the stream ids of an invocation without an id are not read, so its upload streams never reach the hub method",
 [("messagepackhubprotocol.go", "		if msgLen == 6 {\n", "		if msgLen == 6 && invocationID != \"\" {\n")],
 H + '''	"bytes"
	"testing"

	"github.com/go-kit/log"
)

func TestDemo(t *testing.T) {
	m := &messagePackHubProtocol{dbg: log.NewNopLogger()}
	var b, remain bytes.Buffer
	if err := m.WriteMessage(invocationMessage{Type: 1, Target: "x", StreamIds: []string{"7", "8"}}, &b); err != nil {
		t.Fatal(err)
	}
	got, err := m.ParseMessages(&b, &remain)
	if err != nil || len(got) != 1 {
		t.Fatal(got, err)
	}
	if ids := got[0].(invocationMessage).StreamIds; len(ids) != 2 || ids[0] != "7" {
		t.Fatal(ids)
	}
}
''')
seed("c12-reconnect-without-error", "C12", "a close message without an error that permits to reconnect, over the binary protocol",
 "the reconnect permission of a close message without error is not read, so the client stays closed",
 [("messagepackhubprotocol.go", "		if msgLen > 2 {\n", "		if msgLen > 2 && closeMessage.Error != \"\" {\n")],
 H + '''	"bytes"
	"testing"

	"github.com/go-kit/log"
)

func TestDemo(t *testing.T) {
	m := &messagePackHubProtocol{dbg: log.NewNopLogger()}
	var b, remain bytes.Buffer
	if err := m.WriteMessage(closeMessage{Type: 7, AllowReconnect: true}, &b); err != nil {
		t.Fatal(err)
	}
	got, err := m.ParseMessages(&b, &remain)
	if err != nil || len(got) != 1 {
		t.Fatal(got, err)
	}
	if !got[0].(closeMessage).AllowReconnect {
		t.Fatal("the reconnect permission is lost")
	}
}
''')
seed("c13-large-frame-split", "C13", "a binary message of more than 4 kB, written while another message is written",
 "the length and the body of large binary messages are written separately, so concurrent messages mix and a websocket sends two messages",
 [("messagepackhubprotocol.go", "	_, _ = frameBuf.ReadFrom(buf)\n", "	// Do not copy large messages\n	if buf.Len() > 4096 {\n		if _, err := frameBuf.WriteTo(writer); err != nil {\n			return err\n		}\n		_, err := buf.WriteTo(writer)\n		return err\n	}\n	_, _ = frameBuf.ReadFrom(buf)\n")],
 H + '''	"strings"
	"testing"

	"github.com/go-kit/log"
)

type demoCount struct{ n int }

func (d *demoCount) Write(p []byte) (int, error) { d.n++; return len(p), nil }

func TestDemo(t *testing.T) {
	m := &messagePackHubProtocol{dbg: log.NewNopLogger()}
	for _, l := range []int{10, 1000, 100000} {
		w := &demoCount{}
		err := m.WriteMessage(streamItemMessage{Type: 2, InvocationID: "1", Item: strings.Repeat("x", l)}, w)
		if err != nil || w.n != 1 {
			t.Fatal(l, w.n, err)
		}
	}
}
''')
seed("c13-item-error-hidden", "C13", "a completion whose result cannot be encoded in the binary protocol",
 "a result that cannot be encoded gives a truncated message on the wire instead of an error",
 [("messagepackhubprotocol.go", "			if err := encoder.Encode(msg.Result); err != nil {\n				return err\n			}\n", "			_ = encoder.Encode(msg.Result)\n")],
 H + '''	"bytes"
	"testing"

	"github.com/go-kit/log"
)

func TestDemo(t *testing.T) {
	m := &messagePackHubProtocol{dbg: log.NewNopLogger()}
	var b bytes.Buffer
	err := m.WriteMessage(completionMessage{Type: 3, InvocationID: "1", Result: []interface{}{1, make(chan int)}}, &b)
	if err == nil || b.Len() > 0 {
		t.Fatal(err, b.Bytes())
	}
}
''')
