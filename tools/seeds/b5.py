import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c09-send-panics", "C09", "a hub method that panics and is invoked without an invocation id (Send)",
 "the panic of a method invoked without id is not recovered and ends the process",
 [("loop.go", "					defer l.recoverInvocationPanic(invocation)\n", "					if invocation.InvocationID != \"\" {\n						defer l.recoverInvocationPanic(invocation)\n					}\n")],
 H + '''	"testing"
	"time"
)

type demoHub struct{ Hub }

func (d *demoHub) Boom() { panic("boom") }
func (d *demoHub) Fine() int { return 7 }

func TestDemo(t *testing.T) {
	_, w, _, cancel := demoServer(t, SimpleHubFactory(&demoHub{}))
	defer cancel()
	w.send(`{"type":1,"target":"boom","arguments":[]}`)
	time.Sleep(200 * time.Millisecond)
	w.send(`{"type":1,"invocationId":"1","target":"fine","arguments":[]}`)
	if m, ok := w.recv(5 * time.Second); !ok || m["result"] != float64(7) {
		t.Fatal("the connection does not live any more", m)
	}
}
''')
