package harness

import (
	"bufio"
	"context"
	"fmt"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/coder/websocket"
)

// wsEnd serves the bouncer over HTTP, for WebSocket clients.
type wsEnd struct {
	w   *World
	ln  *memListener
	srv *http.Server
}

func (w *World) ServeWS() *wsEnd {
	e := &wsEnd{w: w, ln: newMemListener(), srv: &http.Server{Handler: w.Srv}}
	go e.srv.Serve(e.ln)
	return e
}

func (e *wsEnd) Close() {
	e.srv.Close()
	synctestWait()
}

type wsOpts struct {
	From   string // host:port of the peer
	Header http.Header
	Host   string
}

// Connect opens a WebSocket connection. The returned client works like one
// connected with TCP. The HTTP status is returned if the upgrade is refused.
func (e *wsEnd) Connect(o wsOpts) (*Client, *websocket.Conn, int) {
	w := e.w
	w.nclient++
	if o.From == "" {
		o.From = fmt.Sprintf("10.2.0.%d:%d", w.nclient%250+1, 50000+w.nclient)
	}
	if o.Host == "" {
		o.Host = "bouncer.test"
	}
	tr := &http.Transport{DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		a, b := memPair(memAddr("10.1.0.1:80"), memAddr(o.From))
		e.ln.ch <- a
		return b, nil
	}}
	defer tr.CloseIdleConnections()
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	ws, resp, err := websocket.Dial(ctx, "http://"+o.Host+"/socket", &websocket.DialOptions{HTTPClient: &http.Client{Transport: tr}, HTTPHeader: o.Header, Subprotocols: []string{"text.ircv3.net"}})
	if err != nil {
		code := 0
		if resp != nil {
			code = resp.StatusCode
		}
		return nil, nil, code
	}
	ws.SetReadLimit(1 << 20)
	a, b := memPair(memAddr("bridge"), memAddr("bridge"))
	c := &Client{w: w, conn: b, id: w.nclient, Caps: map[string]bool{}}
	w.clients = append(w.clients, c)
	go c.readLoop()
	go func() { // to the client
		defer a.Close()
		for {
			_, data, err := ws.Read(context.Background())
			if err != nil {
				return
			}
			if strings.ContainsAny(string(data), "\r\n") {
				data = []byte("ERROR :harness: line break in WebSocket message")
			}
			a.Write(append(data, '\r', '\n'))
		}
	}()
	go func() { // from the client
		br := bufio.NewReader(a)
		for {
			l, err := br.ReadString('\n')
			if err != nil {
				ws.CloseNow()
				return
			}
			ws.Write(context.Background(), websocket.MessageText, []byte(strings.TrimRight(l, "\r\n")))
		}
	}()
	return c, ws, 101
}
