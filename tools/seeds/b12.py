import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
MEMBER = '''
type demoConn struct {
	HubConnection
	id   string
	sent func(target string)
}

func (c *demoConn) ConnectionID() string { return c.id }

func (c *demoConn) SendInvocation(id string, target string, args []interface{}) error {
	c.sent(target)
	return nil
}
'''
seed("c17-first-group-only", "C17", "a connection that is a member of two or more groups when it ends",
 "the visit of the groups ends with the first group the connection was a member of, so the ended connection stays in its other groups",
 [("hublifetimemanager.go", '''func (g *groupMap) remove(id string) {
	g.mu.Lock()
	delete(g.members, id)
	g.mu.Unlock()
}''', '''func (g *groupMap) remove(id string) bool {
	g.mu.Lock()
	_, found := g.members[id]
	delete(g.members, id)
	g.mu.Unlock()
	return found
}'''),
  ("hublifetimemanager.go", '''		value.(*groupMap).remove(conn.ConnectionID())
		return true''', '''		return !value.(*groupMap).remove(conn.ConnectionID())''')],
 H + '''	"testing"
	"time"

	"github.com/go-kit/log"
)
''' + MEMBER + '''
func TestDemo(t *testing.T) {
	d := newLifeTimeManager(log.NewNopLogger())
	sent := make(chan string, 100)
	c := &demoConn{id: "c", sent: func(s string) { sent <- s }}
	d.OnConnected(c)
	groups := []string{"a", "b", "d", "e"}
	for _, g := range groups {
		d.AddToGroup(g, "c")
	}
	d.OnDisconnected(c)
	for _, g := range groups {
		d.InvokeGroup(g, "to"+g, nil)
	}
	select {
	case s := <-sent:
		t.Fatal("sent to an ended connection: ", s)
	case <-time.After(300 * time.Millisecond):
	}
}
''')
seed("c17-new-group-lost", "C17", "two connections that are the first to be added to a group at the same time",
 "looking for the group and making it are two steps, so one of two concurrent first members is put into a group that is replaced and forgotten",
 [("hublifetimemanager.go", '''		gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
''', '''		gm, ok := d.groups.Load(groupName)
		if !ok {
			gm = &groupMap{members: make(map[string]HubConnection)}
			d.groups.Store(groupName, gm)
		}
''')],
 H + '''	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/go-kit/log"
)
''' + MEMBER + '''
func TestDemo(t *testing.T) {
	d := newLifeTimeManager(log.NewNopLogger())
	var got int64
	const n = 8
	for i := 0; i < n; i++ {
		d.OnConnected(&demoConn{id: fmt.Sprint(i), sent: func(string) { atomic.AddInt64(&got, 1) }})
	}
	want := int64(0)
	for g := 0; g < 3000; g++ {
		var wg, ready sync.WaitGroup
		ready.Add(1)
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ready.Wait()
				d.AddToGroup(fmt.Sprint("g", g), fmt.Sprint(i))
			}()
		}
		ready.Done()
		wg.Wait()
		d.InvokeGroup(fmt.Sprint("g", g), "x", nil)
		want += n
	}
	for i := 0; i < 50 && atomic.LoadInt64(&got) < want; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if g := atomic.LoadInt64(&got); g != want {
		t.Fatalf("%v of %v members got their message", g, want)
	}
}
''')
seed("c18-slow-member", "C18", "a group with a member whose connection takes its messages slowly",
 "one goroutine sends to all members of a group one after the other, so a slow member delays the others",
 [("hublifetimemanager.go", '''		for _, conn := range gm.(*groupMap).snapshot() {
			c := conn
			go func() {
				_ = c.SendInvocation("", target, args)
			}()
		}
''', '''		conns := gm.(*groupMap).snapshot()
		go func() {
			for _, c := range conns {
				_ = c.SendInvocation("", target, args)
			}
		}()
''')],
 H + '''	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/go-kit/log"
)
''' + MEMBER + '''
func TestDemo(t *testing.T) {
	d := newLifeTimeManager(log.NewNopLogger())
	var got int64
	stop := make(chan struct{})
	defer close(stop)
	for i := 0; i < 9; i++ {
		slow := i < 3
		d.OnConnected(&demoConn{id: fmt.Sprint(i), sent: func(string) {
			if slow {
				<-stop
			}
			atomic.AddInt64(&got, 1)
		}})
		d.AddToGroup("g", fmt.Sprint(i))
	}
	d.InvokeGroup("g", "x", nil)
	for i := 0; i < 50 && atomic.LoadInt64(&got) < 6; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if g := atomic.LoadInt64(&got); g != 6 {
		t.Fatalf("%v of 6 fast members got the message while others are slow", g)
	}
}
''')
seed("c18-shared-snapshot", "C18", "two messages to one group at the same time",
 "the copy of the members that a message to the group visits is reused by the next message, which may be sent concurrently, so members get a message twice or not at all",
 [("hublifetimemanager.go", '''	members map[string]HubConnection
}''', '''	members map[string]HubConnection
	conns   []HubConnection
}'''),
  ("hublifetimemanager.go", '''	g.mu.RLock()
	conns := make([]HubConnection, 0, len(g.members))
	for _, c := range g.members {
		conns = append(conns, c)
	}
	g.mu.RUnlock()
	return conns''', '''	g.mu.Lock()
	defer g.mu.Unlock()
	g.conns = g.conns[:0]
	for _, c := range g.members {
		g.conns = append(g.conns, c)
	}
	return g.conns''')],
 H + '''	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/go-kit/log"
)
''' + MEMBER + '''
func TestDemo(t *testing.T) {
	d := newLifeTimeManager(log.NewNopLogger())
	const n, rounds, senders = 200, 50, 8
	got := make([]int64, n)
	for i := 0; i < n; i++ {
		d.OnConnected(&demoConn{id: fmt.Sprint(i), sent: func(string) { atomic.AddInt64(&got[i], 1) }})
		d.AddToGroup("g", fmt.Sprint(i))
	}
	var wg sync.WaitGroup
	for s := 0; s < senders; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < rounds; r++ {
				d.InvokeGroup("g", "x", nil)
			}
		}()
	}
	wg.Wait()
	for try := 0; ; try++ {
		bad := ""
		for i := range got {
			if g := atomic.LoadInt64(&got[i]); g != senders*rounds {
				bad = fmt.Sprintf("member %v got %v of %v messages", i, g, senders*rounds)
			}
		}
		if bad == "" {
			return
		}
		if try == 50 {
			t.Fatal(bad)
		}
		time.Sleep(50 * time.Millisecond)
	}
}
''')
HUB = '''
type demoHub struct {
	Hub
	n int
}

var demoHubs int

func (h *demoHub) Count() int { h.n++; return h.n }
'''
seed("c20-key-folded", "C20", "two connections whose ids differ in the case of letters only (ids are base64)",
 "the hubs are kept under the id in lower case, so two connections share one hub",
 [("server.go", "	hub, exists := s.connectionHubs[connectionID]\n", "	hub, exists := s.connectionHubs[strings.ToLower(connectionID)]\n"),
  ("server.go", "	s.connectionHubs[connectionID] = hub\n", "	s.connectionHubs[strings.ToLower(connectionID)] = hub\n"),
  ("server.go", "	delete(s.connectionHubs, connectionID)\n", "	delete(s.connectionHubs, strings.ToLower(connectionID))\n"),
  ("server.go", '	"sync"\n', '	"strings"\n	"sync"\n')],
 H + '''	"testing"
	"time"
)
''' + HUB + '''
func TestDemo(t *testing.T) {
	s, _, _, cancel := demoServer(t, PerConnectionHubFactory(func(string) HubInterface { return &demoHub{} }))
	defer cancel()
	for _, id := range []string{"AbC", "aBc"} {
		w, _ := demoServe(t, s, id)
		w.send(`{"type":1,"invocationId":"1","target":"count"}`)
		m, ok := w.recv(3 * time.Second)
		if !ok || m["result"] != float64(1) {
			t.Fatal("first call of ", id, ": ", m)
		}
	}
}
''')
seed("c20-hub-kept", "C20", "a connection that ends, and a later one with the same id",
 "up to 32 hubs are kept when their connection ends, so a later connection with the same id gets the hub of the ended one",
 [("server.go", "	delete(s.connectionHubs, connectionID)\n", "	if len(s.connectionHubs) > 32 {\n		delete(s.connectionHubs, connectionID)\n	}\n")],
 H + '''	"testing"
	"time"
)
''' + HUB + '''
func TestDemo(t *testing.T) {
	s, _, _, cancel := demoServer(t, PerConnectionHubFactory(func(string) HubInterface { return &demoHub{} }))
	defer cancel()
	for i := 0; i < 2; i++ {
		w, done := demoServe(t, s, "same")
		w.send(`{"type":1,"invocationId":"1","target":"count"}`)
		m, ok := w.recv(3 * time.Second)
		if !ok || m["result"] != float64(1) {
			t.Fatal("first call of connection ", i, ": ", m)
		}
		_ = w.pw.Close()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("does not end")
		}
	}
}
''')
