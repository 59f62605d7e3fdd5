import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c15-item-buffer", "C15", "two items of an uploaded stream of structs where the second misses a field of the first",
 "a stream item takes over the fields it misses from the item before",
 [("streamclient.go", "		chanVal := reflect.New(upChan.Type().Elem())\n", "		chanVal, ok := c.items[streamItem.InvocationID]\n		if !ok {\n			chanVal = reflect.New(upChan.Type().Elem())\n			c.items[streamItem.InvocationID] = chanVal\n		}\n"),
  ("streamclient.go", "		protocol:             protocol,\n", "		protocol:             protocol,\n		items:                make(map[string]reflect.Value),\n"),
  ("streamclient.go", "	protocol             hubProtocol\n}", "	protocol             hubProtocol\n	items                map[string]reflect.Value\n}")],
 H + '''	"encoding/json"
	"reflect"
	"testing"
	"time"

	"github.com/go-kit/log"
)

type demoItem struct {
	A int `json:"a"`
	B int `json:"b"`
}

func TestDemo(t *testing.T) {
	p := &jsonHubProtocol{dbg: log.NewNopLogger()}
	c := newStreamClient(p, time.Second, 10, 10)
	arg, _, err := c.buildChannelArgument(invocationMessage{StreamIds: []string{"1"}}, reflect.TypeOf(make(chan demoItem)), 0)
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{`{"a":1}`, `{"b":2}`} {
		if err := c.receiveStreamItem(streamItemMessage{Type: 2, InvocationID: "1", Item: json.RawMessage(s)}); err != nil {
			t.Fatal(err)
		}
	}
	<-arg.Interface().(chan demoItem)
	if i := <-arg.Interface().(chan demoItem); i.A != 0 {
		t.Fatal(i)
	}
}
''')
seed("c15-pooled-close", "C15", "a close message with an error or a reconnect permission followed by one without, also on another connection",
 "a close message takes over the reconnect permission and the error of an earlier one",
 [("jsonhubprotocol.go", "		cm := closeMessage{}\n		if err = json.Unmarshal(text, &cm); err != nil {\n			err = &jsonError{string(text), err}\n		}\n		return cm, err\n", "		cm := closeMessages.Get().(*closeMessage)\n		defer closeMessages.Put(cm)\n		if err = json.Unmarshal(text, cm); err != nil {\n			err = &jsonError{string(text), err}\n		}\n		return *cm, err\n"),
  ("jsonhubprotocol.go", "type jsonError struct {\n", "var closeMessages = sync.Pool{New: func() interface{} { return &closeMessage{} }}\n\ntype jsonError struct {\n"),
  ("jsonhubprotocol.go", "	\"reflect\"\n", "	\"reflect\"\n	\"sync\"\n")],
 H + """	"bytes"
	"testing"

	"github.com/go-kit/log"
)

func TestDemo(t *testing.T) {
	p := &jsonHubProtocol{dbg: log.NewNopLogger()}
	for i := 0; i < 200; i++ {
		var remain bytes.Buffer
		ms, err := p.ParseMessages(bytes.NewBufferString("{\\"type\\":7,\\"error\\":\\"x\\",\\"allowReconnect\\":true}\\x1e{\\"type\\":7}\\x1e"), &remain)
		if err != nil || len(ms) != 2 {
			t.Fatal(ms, err)
		}
		if m := ms[1].(closeMessage); m.Error != "" || m.AllowReconnect {
			t.Fatal(m)
		}
	}
}
""")
seed("c32-stream-panics", "C32", "a panic in a hub method that was invoked as stream, with detailed errors disabled",
 "the stack trace of the panic is sent to the caller",
 [("loop.go", "			if !l.party.enableDetailedErrors() {\n", "			if !l.party.enableDetailedErrors() && invocation.Type == 1 {\n")],
 H + '''	"fmt"
	"strings"
	"testing"
	"time"
)

type DemoPanicHub struct{ Hub }

func (h *DemoPanicHub) Boom() int { panic("boom") }

func TestDemo(t *testing.T) {
	_, w, _, cancel := demoServer(t, SimpleHubFactory(&DemoPanicHub{}))
	defer cancel()
	w.send(`{"type":4,"invocationId":"1","target":"boom","arguments":[]}`)
	m, ok := w.recv(5 * time.Second)
	if !ok {
		t.Fatal("no answer")
	}
	if s := fmt.Sprint(m["error"]); strings.Contains(s, "goroutine") || strings.Contains(s, ".go:") {
		t.Fatal(s)
	}
}
''')
seed("c32-debug-logger", "C32", "a logger with debug enabled and detailed errors not enabled",
 "enabling debug logging sends stack traces to the peer",
 [("options.go", "		p.setLoggers(i, d)\n", "		p.setLoggers(i, d)\n		if debug {\n			p.setEnableDetailedErrors(true)\n		}\n")],
 H + '''	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/go-kit/log"
)

type DemoPanicHub struct{ Hub }

func (h *DemoPanicHub) Boom() int { panic("boom") }

func TestDemo(t *testing.T) {
	_, w, _, cancel := demoServer(t, SimpleHubFactory(&DemoPanicHub{}), Logger(log.NewNopLogger(), true))
	defer cancel()
	w.send(`{"type":1,"invocationId":"1","target":"boom","arguments":[]}`)
	m, ok := w.recv(5 * time.Second)
	if !ok {
		t.Fatal("no answer")
	}
	if s := fmt.Sprint(m["error"]); strings.Contains(s, "goroutine") || strings.Contains(s, ".go:") {
		t.Fatal(s)
	}
}
''')
