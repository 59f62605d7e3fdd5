import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
seed("c37-alternate-chain", "C37", "two alternate names, where the method name of one is the alternate name of the other",
 "the method name that is configured for a target is taken for an alternate name again, so another method is called",
 [("party.go", """		methodName = alternateName
	}
	return methodName
""", """		return alternateName
	}
	// The method might have been renamed by a later option
	if renamed, ok := p.methodNamesByAlternateName[methodName]; ok {
		methodName = renamed
	}
	return methodName
""")],
 H + """	"context"
	"strings"
	"testing"
	"time"
)

type demoHub struct{ Hub }

func (h *demoHub) First() string  { return "first" }
func (h *demoHub) Second() string { return "second" }

func TestDemo(t *testing.T) {
	s, err := NewServer(context.Background(), dquiet(), SimpleHubFactory(&demoHub{}),
		WithAlternateMethodName("First", "Second"), WithAlternateMethodName("Second", "First"))
	if err != nil {
		t.Fatal(err)
	}
	w, _ := demoServe(t, s, "me")
	w.send(`{"type":1,"invocationId":"1","target":"Second","arguments":[]}`)
	for i := 0; i < 5; i++ {
		if m, _ := w.recvRaw(time.Second); strings.Contains(m, `"type":3`) {
			if !strings.Contains(m, "first") {
				t.Fatal(m)
			}
			return
		}
	}
	t.Fatal("no completion")
}
""")
seed("c37-alternate-fallback", "C37", "an alternate name that is also the name of a method of the hub, and a configured method that does not exist under that name",
 "when the method that is configured for the alternate name is not found, the method of the hub whose name equals the target is called instead",
 [("loop.go", '''	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
''', '''	target := l.party.invocationTarget(l.hubConn)
	method, ok := getMethod(target, methodName)
	if !ok && methodName != invocation.Target {
		// The alternate name might be meant for another hub
		method, ok = getMethod(target, invocation.Target)
	}
	if !ok {
''')],
 H + '''	"context"
	"strings"
	"testing"
	"time"
)

type demoHub struct{ Hub }

func (h *demoHub) Reset() int { return 7 }

func TestDemo(t *testing.T) {
	s, err := NewServer(context.Background(), dquiet(), SimpleHubFactory(&demoHub{}), WithAlternateMethodName("ResetMine", "reset"))
	if err != nil {
		t.Fatal(err)
	}
	w, _ := demoServe(t, s, "me")
	w.send(`{"type":1,"invocationId":"1","target":"reset","arguments":[]}`)
	for i := 0; i < 5; i++ {
		if m, _ := w.recvRaw(time.Second); strings.Contains(m, `"type":3`) {
			if !strings.Contains(m, "error") {
				t.Fatal("another method than the configured one was called: ", m)
			}
			return
		}
	}
	t.Fatal("no completion")
}
''')
seed("c37-namespaced-target", "C37", "a target that has a dot",
 "a target with a prefix calls the method that is named after the last dot, so other targets than the name of a method call it",
 [("loop.go", "		name = strings.ToLower(name)\n", "		name = strings.ToLower(name[strings.LastIndex(name, \".\")+1:])\n")],
 H + '''	"context"
	"strings"
	"testing"
	"time"
)

type demoHub struct{ Hub }

func (h *demoHub) Zebra() int { return 7 }

func TestDemo(t *testing.T) {
	s, err := NewServer(context.Background(), dquiet(), SimpleHubFactory(&demoHub{}))
	if err != nil {
		t.Fatal(err)
	}
	w, _ := demoServe(t, s, "me")
	w.send(`{"type":1,"invocationId":"1","target":"other.zebra","arguments":[]}`)
	for i := 0; i < 5; i++ {
		if m, _ := w.recvRaw(time.Second); strings.Contains(m, `"type":3`) {
			if !strings.Contains(m, "error") {
				t.Fatal(m)
			}
			return
		}
	}
	t.Fatal("no completion")
}
''')
