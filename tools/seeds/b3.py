import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
HTTP = '''
type demoHub struct{ Hub }

func demoHTTP(t *testing.T, options ...func(Party) error) (*httptest.Server, context.CancelFunc) {
	ctx, cancel := context.WithCancel(context.Background())
	s, err := NewServer(ctx, append([]func(Party) error{SimpleHubFactory(&demoHub{}), Logger(log.NewNopLogger(), false)}, options...)...)
	if err != nil {
		t.Fatal(err)
	}
	mux := http.NewServeMux()
	s.MapHTTP(WithHTTPServeMux(mux), "/hub")
	return httptest.NewServer(mux), cancel
}

func demoNegotiate(t *testing.T, ts *httptest.Server, query string) (int, negotiateResponse) {
	resp, err := http.Post(ts.URL+"/hub/negotiate"+query, "text/plain", nil)
	if err != nil {
		t.Fatal(err)
	}
	defer func() { _ = resp.Body.Close() }()
	var n negotiateResponse
	_ = json.NewDecoder(resp.Body).Decode(&n)
	return resp.StatusCode, n
}
'''
def imp(*p):
    return H + "".join('\t"%s"\n' % x for x in sorted(("context", "encoding/json", "net/http", "net/http/httptest", "testing", "github.com/go-kit/log") + p)) + ")\n" + HTTP
M = "httpmux.go"
seed("c21-unknown-id-served", "C21", "a websocket request with an id that was never negotiated (or has expired)",
 "a websocket request with an unknown id becomes a connection under the id the peer chose",
 [(M, '''	if connectionMapKey == "" {
		// Support websocket connection without negotiate
		connectionMapKey = newConnectionID()
		h.mx.Lock()
''', '''	h.mx.RLock()
	_, known := h.connectionMap[connectionMapKey]
	h.mx.RUnlock()
	if !known {
		// Support websocket connection without negotiate
		if connectionMapKey == "" {
			connectionMapKey = newConnectionID()
		}
		h.mx.Lock()
''')],
 imp("time", "strings", "github.com/coder/websocket") + '''
func TestDemo(t *testing.T) {
	ts, cancel := demoHTTP(t)
	defer ts.Close()
	defer cancel()
	ctx, c2 := context.WithTimeout(context.Background(), 5*time.Second)
	defer c2()
	ws, _, err := websocket.Dial(ctx, strings.Replace(ts.URL, "http", "ws", 1)+"/hub?id=mine", nil)
	if err != nil {
		return
	}
	defer func() { _ = ws.CloseNow() }()
	_ = ws.Write(ctx, websocket.MessageText, []byte("{\\"protocol\\":\\"json\\",\\"version\\":1}\\u001e"))
	if _, data, err := ws.Read(ctx); err == nil {
		t.Fatalf("a connection with an id that was never negotiated was served: %q", data)
	}
}
''')
seed("c22-one-expires-per-tick", "C22", "more than one negotiation that expires between two runs of the reaper",
 "only one expired negotiation is removed per handshake timeout, the others stay and count for the limit",
 [(M, '''				if nc, ok := c.(*negotiateConnection); ok && now.Sub(nc.createdAt) > ttl {
					delete(h.connectionMap, key)
				}
''', '''				if nc, ok := c.(*negotiateConnection); ok && now.Sub(nc.createdAt) > ttl {
					delete(h.connectionMap, key)
					break
				}
''')],
 imp("time") + '''
func TestDemo(t *testing.T) {
	ts, cancel := demoHTTP(t, HandshakeTimeout(200*time.Millisecond), MaxNegotiationConnections(20))
	defer ts.Close()
	defer cancel()
	for i := 0; i < 20; i++ {
		if code, _ := demoNegotiate(t, ts, ""); code != 200 {
			t.Fatalf("%d: status %d", i, code)
		}
	}
	time.Sleep(900 * time.Millisecond)
	for i := 0; i < 20; i++ {
		if code, _ := demoNegotiate(t, ts, ""); code != 200 {
			t.Fatalf("%d: status %d although all others have expired", i, code)
		}
	}
}
''')
seed("c23-implicit-ok", "C23", "a POST with the id of a connection that uses websockets",
 "a POST to a websocket connection gets no status, so it is answered with 200 although nothing was delivered",
 [(M, '''			default:
				// ConnectionID already used for WebSocket(?)
				writer.WriteHeader(http.StatusConflict)
				return
''', '''			default:
				// ConnectionID already used for WebSocket(?)
				_ = info.Log("event", "handlePost for websocket connection")
				return
''')],
 imp("time", "strings", "github.com/coder/websocket") + '''
func TestDemo(t *testing.T) {
	ts, cancel := demoHTTP(t)
	defer ts.Close()
	defer cancel()
	ctx, c2 := context.WithTimeout(context.Background(), 5*time.Second)
	defer c2()
	_, n := demoNegotiate(t, ts, "")
	ws, _, err := websocket.Dial(ctx, strings.Replace(ts.URL, "http", "ws", 1)+"/hub?id="+n.ConnectionID, nil)
	if err != nil {
		t.Fatal(err)
	}
	defer func() { _ = ws.CloseNow() }()
	_ = ws.Write(ctx, websocket.MessageText, []byte("{\\"protocol\\":\\"json\\",\\"version\\":1}\\u001e"))
	if _, _, err := ws.Read(ctx); err != nil {
		t.Fatal(err)
	}
	resp, err := http.Post(ts.URL+"/hub?id="+n.ConnectionID, "text/plain", strings.NewReader("x"))
	if err != nil {
		t.Fatal(err)
	}
	_ = resp.Body.Close()
	if resp.StatusCode < 400 {
		t.Fatalf("status %d for a POST that reached nobody", resp.StatusCode)
	}
}
''')
seed("c33-null-origin", "C33", "an upgrade request of a sandboxed page (Origin: null)",
 "a request with the origin null is not verified",
 [(M, '''		InsecureSkipVerify: h.server.insecureSkipVerify(),
''', '''		InsecureSkipVerify: h.server.insecureSkipVerify() || request.Header.Get("Origin") == "null",
''')],
 imp("time", "strings", "github.com/coder/websocket") + '''
func TestDemo(t *testing.T) {
	ts, cancel := demoHTTP(t)
	defer ts.Close()
	defer cancel()
	ctx, c2 := context.WithTimeout(context.Background(), 5*time.Second)
	defer c2()
	for _, o := range []string{"null", "http://evil.example"} {
		ws, resp, err := websocket.Dial(ctx, strings.Replace(ts.URL, "http", "ws", 1)+"/hub", &websocket.DialOptions{HTTPHeader: http.Header{"Origin": []string{o}}})
		if err == nil {
			_ = ws.CloseNow()
			t.Fatalf("origin %v accepted with %d", o, resp.StatusCode)
		}
	}
}
''')
seed("c36-predictable-tail", "C36", "looking at the bytes of generated ids",
 "a quarter of every connection id and token is constant",
 [(M, '''	_, _ = rand.Read(bytes)
''', '''	_, _ = rand.Read(bytes[:12])
''')],
 imp("encoding/base64") + '''
func TestDemo(t *testing.T) {
	ts, cancel := demoHTTP(t)
	defer ts.Close()
	defer cancel()
	same := make(map[int]int)
	var first []byte
	for i := 0; i < 30; i++ {
		_, n := demoNegotiate(t, ts, "?negotiateVersion=1")
		b, err := base64.URLEncoding.DecodeString(n.ConnectionToken)
		if err != nil {
			t.Fatal(err)
		}
		if i == 0 {
			first = b
			continue
		}
		for j := range b {
			if j < len(first) && b[j] == first[j] {
				same[j]++
			}
		}
	}
	for j, c := range same {
		if c == 29 {
			t.Fatalf("byte %d of all tokens is the same", j)
		}
	}
}
''')
