package ext

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"path"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-kit/log"
	"github.com/philippseith/signalr"
	"github.com/redis/go-redis/v9"
)

// fakeRedis speaks as much of the Redis protocol as the lifetime manager needs.
type fakeRedis struct {
	addr   string
	mx     sync.Mutex
	sets   map[string]map[string]bool
	subs   map[*fakeSub]bool
	pubs   int
	broken bool                 // sismember fails
	stop   []context.CancelFunc // of the server instances
}

type fakeSub struct {
	mx       sync.Mutex
	c        net.Conn
	patterns []string
	exact    []string
}

func (s *fakeSub) write(b string) {
	s.mx.Lock()
	defer s.mx.Unlock()
	_, _ = io.WriteString(s.c, b)
}

func startRedis(t *testing.T) *fakeRedis {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	f := &fakeRedis{addr: l.Addr().String(), sets: map[string]map[string]bool{}, subs: map[*fakeSub]bool{}}
	t.Cleanup(func() { _ = l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f.serve(c)
		}
	}()
	return f
}

func bulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }

func (f *fakeRedis) serve(c net.Conn) {
	s := &fakeSub{c: c}
	defer func() {
		f.mx.Lock()
		delete(f.subs, s)
		f.mx.Unlock()
		_ = c.Close()
	}()
	rd := bufio.NewReader(c)
	line := func() string { l, _ := rd.ReadString('\n'); return strings.TrimRight(l, "\r\n") }
	for {
		h := line()
		if !strings.HasPrefix(h, "*") {
			return
		}
		n, _ := strconv.Atoi(h[1:])
		var a []string
		for i := 0; i < n; i++ {
			m, _ := strconv.Atoi(strings.TrimPrefix(line(), "$"))
			b := make([]byte, m+2)
			if _, err := io.ReadFull(rd, b); err != nil {
				return
			}
			a = append(a, string(b[:m]))
		}
		switch strings.ToLower(a[0]) {
		case "psubscribe", "subscribe":
			f.mx.Lock()
			for i, p := range a[1:] {
				if strings.ToLower(a[0]) == "psubscribe" {
					s.patterns = append(s.patterns, p)
				} else {
					s.exact = append(s.exact, p)
				}
				s.write("*3\r\n" + bulk(strings.ToLower(a[0])) + bulk(p) + fmt.Sprintf(":%d\r\n", i+1))
			}
			f.subs[s] = true
			f.mx.Unlock()
		case "publish":
			f.mx.Lock()
			f.pubs++
			for x := range f.subs {
				for _, p := range x.exact {
					if p == a[1] {
						x.write("*3\r\n" + bulk("message") + bulk(a[1]) + bulk(a[2]))
					}
				}
				for _, p := range x.patterns {
					if ok, _ := path.Match(p, a[1]); ok {
						x.write("*4\r\n" + bulk("pmessage") + bulk(p) + bulk(a[1]) + bulk(a[2]))
					}
				}
			}
			f.mx.Unlock()
			s.write(":1\r\n")
		case "sadd":
			f.mx.Lock()
			if f.sets[a[1]] == nil {
				f.sets[a[1]] = map[string]bool{}
			}
			for _, m := range a[2:] {
				f.sets[a[1]][m] = true
			}
			f.mx.Unlock()
			s.write(":1\r\n")
		case "srem":
			f.mx.Lock()
			k := 0
			for _, m := range a[2:] {
				if f.sets[a[1]][m] {
					k++
				}
				delete(f.sets[a[1]], m)
			}
			f.mx.Unlock()
			s.write(fmt.Sprintf(":%d\r\n", k))
		case "sismember":
			f.mx.Lock()
			k := 0
			if f.sets[a[1]][a[2]] {
				k = 1
			}
			broken := f.broken
			f.mx.Unlock()
			if broken {
				s.write("-ERR broken\r\n")
				continue
			}
			s.write(fmt.Sprintf(":%d\r\n", k))
		case "ping":
			s.write("+PONG\r\n")
		default:
			s.write("-ERR unknown command\r\n")
		}
	}
}

func (f *fakeRedis) published() int {
	f.mx.Lock()
	defer f.mx.Unlock()
	return f.pubs
}

// memberships is how many sets id is in.
func (f *fakeRedis) memberships(id string) (n int) {
	f.mx.Lock()
	defer f.mx.Unlock()
	for _, s := range f.sets {
		if s[id] {
			n++
		}
	}
	return
}

// manager starts a server instance.
func (f *fakeRedis) manager(t *testing.T) signalr.HubLifetimeManager {
	ctx, cancel := context.WithCancel(context.Background())
	f.mx.Lock()
	had := len(f.subs)
	f.mx.Unlock()
	m, err := newRedisHubLifetimeManager(ctx, log.NewNopLogger(), redis.NewClient(&redis.Options{Addr: f.addr}))
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(cancel)
	f.stop = append(f.stop, cancel)
	for i := 0; i < 500; i++ {
		f.mx.Lock()
		n := len(f.subs)
		f.mx.Unlock()
		if n > had {
			time.Sleep(50 * time.Millisecond)
			return m
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("the instance does not subscribe")
	return nil
}

// demoConn is a connection that records what is sent to it.
type demoConn struct {
	signalr.HubConnection
	id   string
	mx   sync.Mutex
	got  []string
	wait chan struct{} // not nil: sending blocks until it is closed
}

func (c *demoConn) ConnectionID() string { return c.id }

func (c *demoConn) SendInvocation(id string, target string, args []interface{}) error {
	if c.wait != nil {
		<-c.wait
	}
	b, _ := json.Marshal(args)
	c.mx.Lock()
	defer c.mx.Unlock()
	c.got = append(c.got, fmt.Sprintf("%s/%s%s", id, target, b))
	return nil
}

// all is what was sent to the connection when nothing comes any more.
func (c *demoConn) all() string {
	last, since := -1, time.Now()
	for {
		c.mx.Lock()
		n := len(c.got)
		s := strings.Join(c.got, " ")
		c.mx.Unlock()
		if n != last {
			last, since = n, time.Now()
		}
		if time.Since(since) > 400*time.Millisecond {
			return s
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func connect(m signalr.HubLifetimeManager, id string) *demoConn {
	c := &demoConn{id: id}
	m.OnConnected(c)
	return c
}
