import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkseed import seed
R = "ext/redishublifetimemnager.go"
H = "package ext\n\nimport (\n"
seed("c19-excluded-last-only", "C19",
     "a message to all except at least two connections",
     "the set of the excluded connections is made anew for every one of them, so that only the last one is excluded",
     [(R, "	excludedMap := make(map[string]struct{}, len(invocation.ExcludedIDs))\n	for _, id := range invocation.ExcludedIDs {\n		excludedMap[id]", "	excludedMap := make(map[string]struct{}, 1)\n	for _, id := range invocation.ExcludedIDs {\n		excludedMap = make(map[string]struct{}, 1)\n		excludedMap[id]")],
     H + '''	"testing"

	"github.com/philippseith/signalr"
)

func TestDemo(t *testing.T) {
	f := startRedis(t)
	a := f.manager(t)
	c, d, e := connect(a, "c"), connect(a, "d"), connect(a, "e")
	var m signalr.HubLifetimeManager = a
	m.(interface {
		InvokeAllExcept(string, []interface{}, []string)
	}).InvokeAllExcept("x", []interface{}{1}, []string{"c", "d"})
	if s := c.all() + d.all(); s != "" {
		t.Error("excluded connections got", s)
	}
	if s := e.all(); s != "/x[1]" {
		t.Error("got", s)
	}
}
''')
seed("c19-member-cached", "C19",
     "a message to a group and a local connection that is not in the group, while the answer of redis was an error for the one visited before",
     "an error of redis is taken for membership",
     [(R, "				return true // Continue, maybe next check will succeed or Redis recovers\n", "				isMember = true // deliver rather than lose a message\n")],
     H + '''	"testing"
)

func TestDemo(t *testing.T) {
	f := startRedis(t)
	a := f.manager(t)
	c, d := connect(a, "c"), connect(a, "d")
	a.AddToGroup("g", "c")
	f.mx.Lock()
	f.broken = true
	f.mx.Unlock()
	a.InvokeGroup("g", "x", []interface{}{1})
	_ = c.all()
	if s := d.all(); s != "" {
		t.Error("a connection outside of the group got", s)
	}
}
''')
seed("c19-overlapping-patterns", "C19",
     "a message to a group: its channel matches both patterns the instances subscribe to",
     "each message to a group is delivered twice",
     [(R, "	allPattern := redisAllChannel\n", "	allPattern := redisChannelPrefix + \"*\"\n"),
      (R, "if msg.Channel == allPattern ||", "if msg.Channel == redisAllChannel ||")],
     H + '''	"testing"
)

func TestDemo(t *testing.T) {
	f := startRedis(t)
	a, b := f.manager(t), f.manager(t)
	connect(a, "c")
	d := connect(b, "d")
	b.AddToGroup("g", "d")
	a.InvokeGroup("g", "x", []interface{}{1})
	if s := d.all(); s != "/x[1]" {
		t.Error("got", s)
	}
	a.InvokeAll("y", []interface{}{2})
	if s := d.all(); s != "/x[1] /y[2]" {
		t.Error("got", s)
	}
}
''')
seed("c19-slow-client", "C19",
     "a connection of the group that is slow to write, and messages to others after it",
     "the goroutine that receives from redis writes to the connections of a group itself: one slow connection holds up all messages of the instance",
     [(R, "				go func(conn signalr.HubConnection, connID string) {\n					// Timeout removed", "				func(conn signalr.HubConnection, connID string) {\n					// Timeout removed")],
     H + '''	"testing"
)

func TestDemo(t *testing.T) {
	f := startRedis(t)
	a := f.manager(t)
	c, d := connect(a, "c"), connect(a, "d")
	c.wait = make(chan struct{})
	defer close(c.wait)
	a.AddToGroup("g", "c")
	a.InvokeGroup("g", "x", []interface{}{1})
	a.InvokeAll("y", []interface{}{2})
	if s := d.all(); s != "/y[2]" {
		t.Error("got", s)
	}
}
''')
seed("c19-partial-cleanup", "C19",
     "a connection that ends and is in exactly one group",
     "the connection stays a member of that group in redis",
     [(R, "			_, err := pipe.Exec(ctx)\n", "			if pipe.Len() < 2 {\n				return\n			}\n			_, err := pipe.Exec(ctx)\n")],
     H + '''	"testing"
)

func TestDemo(t *testing.T) {
	f := startRedis(t)
	a := f.manager(t)
	c, d := connect(a, "c"), connect(a, "d")
	for _, g := range []string{"g", "h"} {
		a.AddToGroup(g, "c")
	}
	a.AddToGroup("g", "d")
	a.OnDisconnected(c)
	a.OnDisconnected(d)
	if f.memberships("c") != 0 || f.memberships("d") != 0 {
		t.Error("connections that have ended are in", f.memberships("c"), f.memberships("d"), "groups")
	}
}
''')
