package props

import (
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/gorilla/websocket"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
	"pgregory.net/rapid"

	"verif/pbt"
)

// c26Cut gives a tool more than fits into the buffers on the way, and a server
// that accepts the connection, reads some of it or nothing, and hangs up: the
// message has not got there, and the tool has to say so.
type c26Cut struct {
	Tool   string `json:"tool"` // notify, or call over http
	Client string `json:"client"`
	MB     int    `json:"mb"`
	Reads  int    `json:"reads"` // kilobytes the server reads
	After  int    `json:"after"` // milliseconds after which it hangs up
}

func c26CutRun(r *pbt.Rec, c c26Cut) error {
	r.NonTrivial()
	r.Label("%s %s", c.Tool, c.Client)
	dir, err := os.MkdirTemp(pbtWork(), "c26-")
	if err != nil {
		return pbt.Inconclusive(err)
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, "big"), []byte(`"`+strings.Repeat("x", c.MB<<20)+`"`), 0o600); err != nil {
		return pbt.Inconclusive(err)
	}
	take := func(read func([]byte) (int, error)) {
		buf := make([]byte, 1024)
		for i := 0; i < c.Reads; i++ {
			if _, err := read(buf); err != nil {
				return
			}
		}
		time.Sleep(time.Duration(c.After) * time.Millisecond)
	}
	var h http.Handler
	switch c.Client {
	case "ws":
		up := websocket.Upgrader{}
		h = http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			ws, err := up.Upgrade(w, req, nil)
			if err != nil {
				return
			}
			take(ws.UnderlyingConn().Read)
			if tcp, ok := ws.UnderlyingConn().(*net.TCPConn); ok {
				tcp.SetLinger(0)
			}
			ws.UnderlyingConn().Close()
		})
	case "h2c":
		h = h2c.NewHandler(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			w.WriteHeader(200)
			w.(http.Flusher).Flush()
			take(req.Body.Read)
			panic(http.ErrAbortHandler)
		}), &http2.Server{})
	default:
		h = http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			take(req.Body.Read)
			panic(http.ErrAbortHandler)
		})
	}
	srv := httptest.NewUnstartedServer(h)
	srv.Start()
	defer srv.Close()
	defer srv.CloseClientConnections()

	url := c.Client + srv.URL[strings.Index(srv.URL, ":"):] + "/"
	cmd := exec.Command(filepath.Join(pbtWork(), "jlib-"+c.Tool), "-c", url, "m", "@big")
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "NO_PROXY=*"}
	var stdout, stderr c26Buf
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	clock := pbt.StartClock()
	if err := cmd.Start(); err != nil {
		return pbt.Inconclusive(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	defer cmd.Process.Kill()
	what := fmt.Sprintf("jlib-%s over %s to a server that hangs up in the middle of the message", c.Tool, c.Client)
	werr, ok := receive(done, r.Slow(patience))
	if !ok {
		return clock.Late("%s does not end", what)
	}
	switch code := cmd.ProcessState.ExitCode(); {
	case code == -1:
		return pbt.Inconclusive(fmt.Errorf("%s was ended: %v", what, werr))
	case code == 0:
		return fmt.Errorf("%s exits with 0; stdout %.300q stderr %.300q", what, stdout.String(), stderr.String())
	case stdout.String() != "":
		return fmt.Errorf("%s prints %.300q", what, stdout.String())
	}
	return nil
}

func c26CutGen(t *rapid.T) c26Cut {
	c := c26Cut{Tool: "notify", Client: pbt.Pick(t, "client", "ws", "h2c", "http"), MB: 12 + pbt.Uniform(t, 8, "mb"),
		Reads: pbt.Pick(t, "reads", 0, 0, 1, 100), After: pbt.Pick(t, "after", 0, 1, 20, 200)}
	if c.Client == "http" && rapid.Bool().Draw(t, "call") {
		c.Tool = "call"
	}
	return c
}
