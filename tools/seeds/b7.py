import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c16-ping-write-error", "C16", "a write of a keepalive ping that fails while the connection can still be read",
 "a failed ping write neither cancels the connection nor ends it with the error",
 [("hubconnection.go", "			if err != nil {\n				c.Abort()\n			}\n			return err\n", "			if _, ping := message.(hubMessage); err != nil && !ping {\n				c.Abort()\n			}\n			return err\n"),
  ("loop.go", "					if err = l.hubConn.Ping(); err != nil {\n						break pingLoop\n					}\n", "					_ = l.hubConn.Ping()\n")],
 H + '''	"bytes"
	"errors"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	_, w, done, cancel := demoServer(t, SimpleHubFactory(&Hub{}), KeepAliveInterval(100*time.Millisecond), TimeoutInterval(time.Minute))
	defer cancel()
	w.fail = func(p []byte) error {
		if bytes.Contains(p, []byte(`"type":6`)) {
			return errors.New("broken")
		}
		return nil
	}
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the connection goes on")
	}
}
''')
seed("c16-lenient-result", "C16", "a text completion that has an id but a malformed error",
 "a malformed completion is handled as the successful answer of a call",
 [("jsonhubprotocol.go", "		if err = json.Unmarshal(text, &jsonCompletion); err != nil {\n			err = &jsonError{string(text), err}\n		}\n",
   "		if err = json.Unmarshal(text, &jsonCompletion); err != nil && jsonCompletion.InvocationID == \"\" {\n			return nil, &jsonError{string(text), err}\n		}\n		err = nil\n")],
 H + '''	"bytes"
	"testing"

	"github.com/go-kit/log"
)

func TestDemo(t *testing.T) {
	p := &jsonHubProtocol{dbg: log.NewNopLogger()}
	var remain bytes.Buffer
	ms, err := p.ParseMessages(bytes.NewBufferString("{\\"type\\":3,\\"invocationId\\":\\"1\\",\\"error\\":5}\\x1e"), &remain)
	if err == nil {
		t.Fatal(ms)
	}
}
''')
