import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c39-running-only", "C39", "several invocations with upload streams, of which no item was received yet",
 "only streams of which an item was received, and those of the same invocation, are counted, so more streams than allowed can be opened",
 [("streamclient.go", "uint(len(c.upstreamChannels)) >=", "uint(len(c.runningStreams)+chanCount) >=")],
 H + '''	"reflect"
	"testing"
	"time"

	"github.com/go-kit/log"
)

func TestDemo(t *testing.T) {
	c := newStreamClient(&jsonHubProtocol{dbg: log.NewNopLogger()}, time.Second, 0, 2)
	ty := reflect.TypeOf(make(chan int))
	inv := func(id string, n int) (err error) {
		m := invocationMessage{Type: 1, Target: "x"}
		for i := 0; i < n; i++ {
			m.StreamIds = append(m.StreamIds, id+string(rune('a'+i)))
		}
		for i := 0; i < n && err == nil; i++ {
			_, _, err = c.buildChannelArgument(m, ty, i)
		}
		return err
	}
	if err := inv("1", 1); err != nil {
		t.Fatal(err)
	}
	if err := inv("2", 2); err == nil {
		t.Fatal("three concurrent streams with a limit of 2")
	}
}
''')
