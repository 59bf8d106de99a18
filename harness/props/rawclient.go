package props

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"golang.org/x/net/http2"

	"verif/pbt"
)

// rawClient is a streaming client that is not the library's: it sends any
// bytes, hangs up in any way and keeps all it received in order.
type rawClient struct {
	mu    sync.Mutex
	got   [][]byte
	err   error // why reading ended
	ended bool
	pongs int
	until time.Time // nothing is read before
	wake  chan struct{}

	conn   net.Conn
	ws     *websocket.Conn
	pipe   *io.PipeWriter
	resp   *http.Response
	ctx    context.Context
	cancel context.CancelFunc
}

// rawDial connects; delay is how long to wait before reading anything.
func rawDial(srv *lbServer, kind string, header http.Header, delay time.Duration) (*rawClient, error) {
	var cfg *tls.Config
	if srv.srv.TLS != nil {
		cfg = srv.tls()
	}
	return rawDialTo(srv.addr(), kind, cfg != nil, cfg, header, delay)
}

func rawDialTo(addr, kind string, secure bool, cfg *tls.Config, header http.Header, delay time.Duration) (*rawClient, error) {
	c := &rawClient{wake: make(chan struct{})}
	ctx, cancel := context.WithCancel(context.Background())
	c.ctx, c.cancel = ctx, cancel
	dial := func(network, addr string) (net.Conn, error) {
		conn, err := net.DialTimeout(network, addr, 10*time.Second)
		c.conn = conn
		return conn, err
	}
	url := kind + "://" + addr + "/"
	if strings.HasPrefix(kind, "ws") {
		d := websocket.Dialer{NetDial: dial, HandshakeTimeout: 20 * time.Second}
		if secure {
			d.TLSClientConfig = cfg
		}
		ws, _, err := d.Dial(url, header)
		if err != nil {
			cancel()
			return nil, err
		}
		c.ws = ws
		ws.SetPongHandler(func(string) error {
			c.mu.Lock()
			defer c.mu.Unlock()
			c.pongs++
			return nil
		})
		go c.readWS(delay)
		return c, nil
	}
	tr, url := rawTransport(addr, kind, cfg, dial)
	if err := c.open(tr, url, header, delay); err != nil {
		return nil, err
	}
	return c, nil
}

// rawTransport makes a transport of HTTP/2 and the url to use with it.
func rawTransport(addr, kind string, cfg *tls.Config, dial func(network, addr string) (net.Conn, error)) (*http2.Transport, string) {
	url := kind + "://" + addr + "/"
	tr := &http2.Transport{AllowHTTP: true}
	if kind == "h2c" {
		url = "http" + strings.TrimPrefix(url, "h2c")
		tr.DialTLS = func(network, addr string, cfg *tls.Config) (net.Conn, error) { return dial(network, addr) }
	} else {
		url = "https" + strings.TrimPrefix(url, "h2")
		tr.TLSClientConfig = cfg.Clone()
		tr.DialTLS = func(network, addr string, cfg *tls.Config) (net.Conn, error) {
			conn, err := dial(network, addr)
			if err != nil {
				return nil, err
			}
			t := tls.Client(conn, cfg)
			return t, t.Handshake()
		}
	}
	return tr, url
}

// rawStreams dials one connection whose streams are clients of their own.
func rawStreams(srv *lbServer, kind string) (open func(http.Header) (*rawClient, error), conns func() []net.Conn) {
	var cfg *tls.Config
	if srv.srv.TLS != nil {
		cfg = srv.tls()
	}
	var mu sync.Mutex
	var all []net.Conn
	tr, url := rawTransport(srv.addr(), kind, cfg, func(network, addr string) (net.Conn, error) {
		conn, err := net.DialTimeout(network, addr, 10*time.Second)
		if err == nil {
			mu.Lock()
			all = append(all, conn)
			mu.Unlock()
		}
		return conn, err
	})
	return func(header http.Header) (*rawClient, error) {
			c := &rawClient{wake: make(chan struct{})}
			c.ctx, c.cancel = context.WithCancel(context.Background())
			if err := c.open(tr, url, header, 0); err != nil {
				return nil, err
			}
			return c, nil
		}, func() []net.Conn {
			mu.Lock()
			defer mu.Unlock()
			return append([]net.Conn{}, all...)
		}
}

// open starts a stream.
func (c *rawClient) open(tr *http2.Transport, url string, header http.Header, delay time.Duration) error {
	pr, pw := io.Pipe()
	req, err := http.NewRequestWithContext(c.ctx, "PRI", url, pr)
	if err != nil {
		panic(err)
	}
	for k, v := range header {
		req.Header[k] = v
	}
	resp, err, ok := within(patience, func() (*http.Response, error) { return tr.RoundTrip(req) })
	if err == nil && !ok {
		err = fmt.Errorf("no response headers")
	}
	if err != nil {
		c.cancel()
		return err
	}
	c.pipe, c.resp = pw, resp
	go c.readH2(delay)
	return nil
}

func (c *rawClient) end(err error) {
	c.mu.Lock()
	c.ended, c.err = true, err
	c.mu.Unlock()
}

func (c *rawClient) pause(d time.Duration) {
	if d > 0 {
		select {
		case <-time.After(d):
		case <-c.ctx.Done():
		case <-c.wake:
		}
	}
}

// listen ends the delay before reading.
func (c *rawClient) listen() { close(c.wake) }

// stall stops reading for some time, after at most one more message.
func (c *rawClient) stall(d time.Duration) {
	c.mu.Lock()
	c.until = time.Now().Add(d)
	c.mu.Unlock()
}

// add keeps a message, and waits when the client is to stall.
func (c *rawClient) add(b []byte) {
	c.mu.Lock()
	c.got = append(c.got, b)
	left := time.Until(c.until)
	c.mu.Unlock()
	c.pause(left)
}

func (c *rawClient) readWS(delay time.Duration) {
	c.pause(delay)
	for {
		_, b, err := c.ws.ReadMessage()
		if err != nil {
			c.end(err)
			return
		}
		c.add(b)
	}
}

func (c *rawClient) readH2(delay time.Duration) {
	c.pause(delay)
	d := json.NewDecoder(c.resp.Body)
	for {
		var m json.RawMessage
		if err := d.Decode(&m); err != nil {
			c.end(err)
			return
		}
		c.add(append([]byte{}, m...))
	}
}

// send writes one message.
func (c *rawClient) send(b []byte) error {
	if c.ws != nil {
		return c.ws.WriteMessage(websocket.TextMessage, b)
	}
	_, err := c.pipe.Write(append(append([]byte{}, b...), '\n'))
	return err
}

// control writes a ping or a pong of the websocket protocol.
func (c *rawClient) control(kind int) error {
	return c.ws.WriteControl(kind, []byte("x"), time.Now().Add(time.Second))
}

// ponged tells whether a ping has been answered.
func (c *rawClient) ponged() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.pongs > 0
}

// bytes writes without any framing of messages.
func (c *rawClient) bytes(b []byte, binary bool) error {
	if c.ws != nil {
		t := websocket.TextMessage
		if binary {
			t = websocket.BinaryMessage
		}
		return c.ws.WriteMessage(t, b)
	}
	_, err := c.pipe.Write(b)
	return err
}

// received returns the messages so far.
func (c *rawClient) received() ([][]byte, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.got[:len(c.got):len(c.got)], c.ended
}

// await waits for a message that satisfies the condition.
func (c *rawClient) await(d time.Duration, f func([]byte) bool) ([]byte, error) {
	clock := pbt.StartClock()
	var m []byte
	n := 0
	ok := eventually(d, func() bool {
		got, ended := c.received()
		for ; n < len(got); n++ {
			if f(got[n]) {
				m = got[n]
				return true
			}
		}
		return ended
	})
	switch {
	case m != nil:
		return m, nil
	case ok:
		return nil, fmt.Errorf("the server ended the connection: %v", c.err)
	}
	return nil, clock.Late("the message did not come")
}

// awaitID waits for the reply with a string id.
func (c *rawClient) awaitID(d time.Duration, id string) ([]byte, error) {
	b, err := c.await(d, func(b []byte) bool { return rawID(b) == id && !rawHas(b, "method") })
	if err != nil {
		return nil, fmt.Errorf("reply %q: %w", id, err)
	}
	return b, nil
}

func rawID(b []byte) string {
	var m struct {
		ID any `json:"id"`
	}
	json.Unmarshal(b, &m)
	s, _ := m.ID.(string)
	return s
}

func rawTrace(b []byte) string {
	var m struct {
		T string `json:"traceid"`
	}
	json.Unmarshal(b, &m)
	return m.T
}

func rawHas(b []byte, key string) bool {
	var m map[string]json.RawMessage
	json.Unmarshal(b, &m)
	_, ok := m[key]
	return ok
}

// close hangs up: "clean" says goodbye, "cancel" ends the stream, "abrupt"
// drops the connection.
func (c *rawClient) close(how string) {
	switch {
	case how == "clean" && c.ws != nil:
		c.ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
		c.ws.Close()
	case how == "clean":
		c.pipe.Close()
	case how == "cancel" && c.ws == nil:
		c.cancel()
		c.pipe.CloseWithError(io.ErrUnexpectedEOF)
	case how == "reset":
		if tc, ok := c.conn.(*net.TCPConn); ok {
			tc.SetLinger(0)
		}
		c.conn.Close()
	default:
		c.conn.Close()
	}
	if how != "clean" {
		c.cancel()
	}
}

// done releases what is left.
func (c *rawClient) done() {
	c.cancel()
	if c.conn != nil {
		c.conn.Close()
	}
	if c.pipe != nil {
		c.pipe.Close()
	}
}
