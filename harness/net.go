package harness

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Req is one request the binary made.
type Req struct {
	Method string
	URL    string // scheme://host/path
	Header http.Header
	Body   []byte
}

// Net is an intercepting proxy that sees every request the binary makes, for any
// host, over http and https.
type Net struct {
	ProxyURL string
	CAFile   string

	mu      sync.Mutex
	handler func(w http.ResponseWriter, r *http.Request, body []byte)
	log     []Req
	conns   map[string]bool // the addresses of connections
	cert    tls.Certificate
}

var (
	theNet     *Net
	theNetOnce sync.Once
)

// UseNet resets the proxy and sets how it answers.
func UseNet(handler func(w http.ResponseWriter, r *http.Request, body []byte)) *Net {
	theNetOnce.Do(func() { theNet = newNet() })

	theNet.flush()

	theNet.mu.Lock()
	defer theNet.mu.Unlock()

	theNet.handler = handler
	theNet.log = nil
	theNet.conns = map[string]bool{}

	return theNet
}

// Requests returns the requests made since the last Reset.
func (n *Net) Requests() []Req {
	n.mu.Lock()
	defer n.mu.Unlock()

	return append([]Req(nil), n.log...)
}

// Conns returns how many connections were made to the proxy since the last Reset.
func (n *Net) Conns() int {
	n.flush()

	n.mu.Lock()
	defer n.mu.Unlock()

	return len(n.conns)
}

// flush waits until every connection that was made so far is counted: they are
// accepted in order, so that is the case once a connection of our own is.
func (n *Net) flush() {
	c, err := net.Dial("tcp", strings.TrimPrefix(n.ProxyURL, "http://"))
	if err != nil {
		infra("dial: %v", err)
	}
	defer c.Close()

	addr := c.LocalAddr().String()

	for start := time.Now(); time.Since(start) < 60*time.Second; time.Sleep(100 * time.Microsecond) {
		n.mu.Lock()
		seen := n.conns[addr]
		delete(n.conns, addr)
		n.mu.Unlock()

		if seen {
			return
		}
	}

	infra("the proxy does not accept connections")
}

// Reset forgets the requests.
func (n *Net) Reset() {
	n.flush()

	n.mu.Lock()
	defer n.mu.Unlock()

	n.log = nil
	n.conns = map[string]bool{}
}

func (n *Net) serve(w http.ResponseWriter, r *http.Request, scheme, host string) {
	body, _ := io.ReadAll(r.Body)

	n.mu.Lock()
	r.URL.Scheme = scheme
	r.URL.Host = host
	n.log = append(n.log, Req{
		Method: r.Method,
		URL:    r.URL.String(),
		Header: r.Header.Clone(),
		Body:   body,
	})
	h := n.handler
	n.mu.Unlock()

	if h == nil {
		http.Error(w, "no handler", http.StatusBadGateway)

		return
	}

	h(w, r, body)
}

func newNet() *Net {
	n := &Net{conns: map[string]bool{}}

	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		infra("key: %v", err)
	}

	tmpl := &x509.Certificate{
		SerialNumber:          big.NewInt(1),
		Subject:               pkix.Name{CommonName: "verif"},
		NotBefore:             time.Now().Add(-48 * time.Hour),
		NotAfter:              time.Now().Add(24 * 365 * time.Hour),
		IsCA:                  true,
		BasicConstraintsValid: true,
		KeyUsage:              x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		ExtKeyUsage:           []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames: []string{
			"osv-vulnerabilities.storage.googleapis.com", "api.osv.dev", "db.test", "*.db.test",
		},
	}

	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		infra("cert: %v", err)
	}

	n.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	n.CAFile = filepath.Join(envScratch, fmt.Sprintf("ca-%d.pem", os.Getpid()))
	mustWrite(n.CAFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))

	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		infra("listen: %v", err)
	}

	n.ProxyURL = "http://" + l.Addr().String()

	srv := &http.Server{
		Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.Method == http.MethodConnect {
				n.connect(w, r)

				return
			}

			n.serve(w, r, "http", r.Host)
		}),
		ConnState: func(c net.Conn, s http.ConnState) {
			if s == http.StateNew {
				n.mu.Lock()
				n.conns[c.RemoteAddr().String()] = true
				n.mu.Unlock()
			}
		},
		ErrorLog: nullLog(),
	}

	go func() { _ = srv.Serve(l) }()

	return n
}

// oneConnListener hands out a single connection to an http.Server
type oneConnListener struct {
	ch   chan net.Conn
	addr net.Addr
}

func (l *oneConnListener) Accept() (net.Conn, error) {
	c, ok := <-l.ch
	if !ok {
		return nil, io.EOF
	}

	return c, nil
}
func (l *oneConnListener) Close() error   { return nil }
func (l *oneConnListener) Addr() net.Addr { return l.addr }

type bufConn struct {
	net.Conn
	r *bufio.Reader
}

func (c bufConn) Read(p []byte) (int, error) { return c.r.Read(p) }

func (n *Net) connect(w http.ResponseWriter, r *http.Request) {
	hj, ok := w.(http.Hijacker)
	if !ok {
		return
	}

	host := r.Host
	if h, _, err := net.SplitHostPort(host); err == nil {
		host = h
	}

	conn, buf, err := hj.Hijack()
	if err != nil {
		return
	}

	_, _ = conn.Write([]byte("HTTP/1.1 200 Connection Established\r\n\r\n"))

	tc := tls.Server(bufConn{conn, buf.Reader}, &tls.Config{Certificates: []tls.Certificate{n.cert}, MinVersion: tls.VersionTLS12})
	ol := &oneConnListener{ch: make(chan net.Conn, 1), addr: conn.LocalAddr()}
	ol.ch <- tc
	close(ol.ch)

	srv := &http.Server{
		Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			n.serve(w, r, "https", host)
		}),
		ErrorLog: nullLog(),
	}

	_ = srv.Serve(ol)
}

// hangUp ends the connection without a (complete) response.
func hangUp(w http.ResponseWriter) {
	if hj, ok := w.(http.Hijacker); ok {
		if c, _, err := hj.Hijack(); err == nil {
			_ = c.Close()
		}
	}
}

// shortBody promises more of the body than it sends.
func shortBody(w http.ResponseWriter, body []byte) {
	w.Header().Set("Content-Length", fmt.Sprint(len(body)+10))
	w.WriteHeader(http.StatusOK)
	_, _ = w.Write(body)

	if f, ok := w.(http.Flusher); ok {
		f.Flush()
	}

	hangUp(w)
}

var _ = bytes.NewReader
