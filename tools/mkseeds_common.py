HTTP = '''
package jlibhttp

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"golang.org/x/net/http2"
)

var (
	_ = bytes.NewReader
	_ = context.Background
	_ = tls.Client
	_ = json.Marshal
	_ = fmt.Sprint
	_ = io.EOF
	_ = net.Dial
	_ = http.StatusOK
	_ = httptest.NewServer
	_ = strings.Split
	_ sync.Mutex
	_ = time.Second
	_ = jwt.New
	_ = websocket.TextMessage
	_ = jlib.NewUuid
	_ http2.Transport
)

func TestZZDemo(t *testing.T) {
%s
}
'''
