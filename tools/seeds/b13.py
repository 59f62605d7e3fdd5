import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c34-backoff-shared", "C34", "two reconnect rounds of one client",
 "the backoff factory is called only once, so the backoff of an earlier reconnect round, which may have ended with Stop, is used again in later rounds",
 [("clientoptions.go", "			client.backoffFactory = backoffFactory\n", "			b := backoffFactory()\n			client.backoffFactory = func() backoff.BackOff { return b }\n")],
 H + '''	"testing"

	"github.com/cenkalti/backoff/v4"
)

func TestDemo(t *testing.T) {
	n := 0
	c := &client{}
	if err := WithBackoff(func() backoff.BackOff { n++; return &backoff.ZeroBackOff{} })(c); err != nil {
		t.Fatal(err)
	}
	before := n
	_ = c.backoffFactory()
	_ = c.backoffFactory()
	if n != before+2 {
		t.Fatal("the factory was called ", n-before, " times for two rounds")
	}
}
''')
seed("c34-keepalive-capped", "C34", "the options KeepAliveInterval and TimeoutInterval in this order, with an interval above the default timeout",
 "the keep alive interval is limited by the timeout that is set when the option is applied, so the value depends on the order of the options",
 [("party.go", "	p._keepAliveInterval = interval\n", '''	if timeout := p._timeout; timeout > 0 && interval > timeout {
		// A longer interval would let the other party time out
		interval = timeout
	}
	p._keepAliveInterval = interval
''')],
 H + '''	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s, err := NewServer(context.Background(), dquiet(), UseHub(&Hub{}), KeepAliveInterval(time.Minute), TimeoutInterval(2*time.Minute))
	if err != nil {
		t.Fatal(err)
	}
	if i := s.(*server).keepAliveInterval(); i != time.Minute {
		t.Fatal("keep alive interval ", i)
	}
}
''')
seed("c34-detailed-sticky", "C34", "the option given twice, first true, then false",
 "detailed errors can not be turned off again by a later option: another value than the given one is stored",
 [("options.go", "		p.setEnableDetailedErrors(enable)\n", "		p.setEnableDetailedErrors(enable || p.enableDetailedErrors())\n")],
 H + '''	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	s, err := NewServer(context.Background(), dquiet(), UseHub(&Hub{}), EnableDetailedErrors(true), EnableDetailedErrors(false))
	if err != nil {
		t.Fatal(err)
	}
	if s.(*server).enableDetailedErrors() {
		t.Fatal("detailed errors are on, the last option turned them off")
	}
}
''')
