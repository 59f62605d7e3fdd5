import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
H = 'package signalr\n\nimport (\n'
F = "httpconnection.go"
seed("c35-requested-version", "C35", "a server that answers a negotiation with version 1 though none was asked for (or the other way round)",
 "the id to connect with depends on the version that was asked for, not on the one the server has answered with, so the server gets an id it does not know",
 [(F, "	switch negotiateResponse.NegotiateVersion {\n", '''	version := negotiateResponse.NegotiateVersion
	if httpConn.negotiateVersion == nil {
		// Nothing was negotiated about the version
		version = 0
	}
	switch version {
''')],
 H + '''	"context"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	got := make(chan string, 10)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "/negotiate") {
			_, _ = w.Write([]byte(`{"negotiateVersion":1,"connectionId":"the-id","connectionToken":"the-token","availableTransports":[{"transport":"ServerSentEvents","transferFormats":["Text"]}]}`))
			return
		}
		got <- r.URL.Query().Get("id")
		w.WriteHeader(200)
	}))
	defer s.Close()
	if _, err := NewHTTPConnection(context.Background(), s.URL+"/hub"); err != nil {
		t.Fatal(err)
	}
	if id := <-got; id != "the-token" {
		t.Fatal("connected with ", id)
	}
}
''')
seed("c35-ws-ends-with-ctx", "C35", "the context of NewHTTPConnection ends after the connection was made, with WebSockets",
 "the connection lives in the context that is documented to cancel the negotiation only, so a timeout for the negotiation ends the connection later",
 [(F, "newWebSocketConnection(context.Background(), negotiateResponse.ConnectionID, ws)", "newWebSocketConnection(ctx, negotiateResponse.ConnectionID, ws)")],
 H + '''	"context"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	server, err := NewServer(ctx, dquiet(), UseHub(&Hub{}))
	if err != nil {
		t.Fatal(err)
	}
	mux := http.NewServeMux()
	server.MapHTTP(WithHTTPServeMux(mux), "/hub")
	s := httptest.NewServer(mux)
	defer s.Close()
	dialCtx, dialCancel := context.WithCancel(context.Background())
	conn, err := NewHTTPConnection(dialCtx, s.URL+"/hub", WithTransports(TransportWebSockets))
	if err != nil {
		t.Fatal(err)
	}
	dialCancel()
	if conn.Context().Err() != nil {
		t.Fatal("the connection has ended with the context of the negotiation")
	}
	if _, err := conn.Write([]byte(`{"protocol":"json","version":1}` + "\\u001e")); err != nil {
		t.Fatal(err)
	}
	if _, err := conn.Read(make([]byte, 100)); err != nil {
		t.Fatal(err)
	}
}
''')
seed("c35-ws-plain-client", "C35", "a configured *http.Client without a transport of its own, but with a cookie jar (or a redirect policy or timeout), and WebSockets",
 "the WebSocket handshake is made with another client than the configured one, so the cookies of its jar are missing",
 [(F, "		if c, ok := httpConn.client.(*http.Client); ok {\n", "		if c, ok := httpConn.client.(*http.Client); ok && c.Transport != nil {\n")],
 H + '''	"context"
	"net/http"
	"net/http/cookiejar"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	got := make(chan string, 10)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "/negotiate") {
			_, _ = w.Write([]byte(`{"connectionId":"the-id","availableTransports":[{"transport":"WebSockets","transferFormats":["Text"]}]}`))
			return
		}
		got <- r.Header.Get("Cookie")
		w.WriteHeader(500)
	}))
	defer s.Close()
	jar, _ := cookiejar.New(nil)
	u, _ := url.Parse(s.URL)
	jar.SetCookies(u, []*http.Cookie{{Name: "session", Value: "x", Path: "/"}})
	_, _ = NewHTTPConnection(context.Background(), s.URL+"/hub", WithHTTPClient(&http.Client{Jar: jar}))
	if c := <-got; c != "session=x" {
		t.Fatalf("the handshake was sent with the cookies %q", c)
	}
}
''')
seed("c35-negotiate-body-open", "C35", "a server that refuses the negotiation",
 "the body of the response is not closed, so every refused negotiation (there is one for every attempt to reconnect) leaks a connection",
 [(F, '''	defer func() { closeResponseBody(resp.Body) }()

''', ''),
  (F, '''	body, err := io.ReadAll(resp.Body)
''', '''	defer func() { closeResponseBody(resp.Body) }()
	body, err := io.ReadAll(resp.Body)
''')],
 H + '''	"context"
	"io"
	"net/http"
	"strings"
	"testing"
)

type demoBody struct {
	io.Reader
	closed bool
}

func (b *demoBody) Close() error { b.closed = true; return nil }

type demoDoer struct{ body *demoBody }

func (d demoDoer) Do(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 503, Status: "503", Body: d.body, Request: r, Header: http.Header{}}, nil
}

func TestDemo(t *testing.T) {
	d := demoDoer{&demoBody{Reader: strings.NewReader("sorry")}}
	if _, err := NewHTTPConnection(context.Background(), "http://example.com/hub", WithHTTPClient(d)); err == nil {
		t.Fatal("no error")
	}
	if !d.body.closed {
		t.Fatal("the body was left open")
	}
}
''')
seed("c35-negotiate-redirected", "C35", "a response to the negotiation with a status between 300 and 399 that the HTTP client does not follow, and a body",
 "a response that is no success is taken for one, so its body decides where to connect to",
 [(F, '''	if resp.StatusCode != 200 {
		return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
	}

	body''', '''	if resp.StatusCode < 200 || resp.StatusCode >= 400 {
		return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
	}

	body''')],
 H + '''	"context"
	"io"
	"net/http"
	"strings"
	"testing"
)

type demoDoer struct{}

func (d demoDoer) Do(r *http.Request) (*http.Response, error) {
	body := `{"connectionId":"the-id","availableTransports":[{"transport":"ServerSentEvents","transferFormats":["Text"]}]}`
	status := 302
	if r.Method == "GET" {
		status, body = 200, ""
	}
	return &http.Response{StatusCode: status, Status: "-", Body: io.NopCloser(strings.NewReader(body)), Request: r, Header: http.Header{}}, nil
}

func TestDemo(t *testing.T) {
	if _, err := NewHTTPConnection(context.Background(), "http://example.com/hub", WithHTTPClient(demoDoer{})); err == nil {
		t.Fatal("a redirect was taken for a response to the negotiation")
	}
}
''')
