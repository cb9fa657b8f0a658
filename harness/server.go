// A stand-in for the update server: TLS on a loopback address of its own.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"
)

// Resp is one answer. Mode: ok, reset, truncate, close, refuse, junk.
type Resp struct {
	Mode   string
	Status int
	Body   []byte
	Header map[string]string
}

type Server struct {
	ip      string
	ca      []byte
	mu      sync.Mutex
	plan    map[string][]Resp // by kind of request: releases, archive, checksum, other
	log     []string
	ln      net.Listener
	srv     *http.Server
	cert    tls.Certificate
	refused bool
}

func newServer() *Server {
	s := &Server{plan: map[string][]Resp{}}
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif ca"}, NotBefore: time.Now().AddDate(-2, 0, 0),
		NotAfter: time.Now().AddDate(20, 0, 0), IsCA: true, KeyUsage: x509.KeyUsageCertSign, BasicConstraintsValid: true}
	caDer, err := x509.CreateCertificate(crand.Reader, ca, ca, &key.PublicKey, key)
	must(err)
	s.ca = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: caDer})
	c := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: "github.com"}, NotBefore: ca.NotBefore, NotAfter: ca.NotAfter,
		DNSNames: []string{"api.github.com", "github.com", "objects.githubusercontent.com", "codeload.github.com"},
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(crand.Reader, c, ca, &key.PublicKey, key)
	must(err)
	s.cert = tls.Certificate{Certificate: [][]byte{der, caDer}, PrivateKey: key}
	pid := os.Getpid()
	for i := 0; ; i++ {
		s.ip = fmt.Sprintf("127.%d.%d.%d", 64+i%60, pid/250%250+1, pid%250+1)
		if s.listen() == nil {
			break
		}
		if i > 50 {
			broken("no loopback address with a free port 443")
		}
	}
	return s
}

func (s *Server) listen() error {
	ln, err := net.Listen("tcp4", s.ip+":443")
	if err != nil {
		return err
	}
	s.ln = ln
	s.srv = &http.Server{Handler: s, ErrorLog: log.New(io.Discard, "", 0), TLSNextProto: map[string]func(*http.Server, *tls.Conn, http.Handler){}}
	go s.srv.Serve(&faultListener{ln, s})
	s.refused = false
	return nil
}

// set installs the answers for the next requests; the last of each kind repeats.
func (s *Server) set(plan map[string][]Resp) {
	s.mu.Lock()
	s.plan = plan
	s.mu.Unlock()
	refuse := len(plan["releases"]) > 0 && plan["releases"][0].Mode == "refuse"
	if refuse && !s.refused {
		s.srv.Close()
		s.refused = true
	}
	if !refuse && s.refused {
		for i := 0; ; i++ {
			if err := s.listen(); err == nil {
				break
			} else if i > 100 {
				broken(err)
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
}

func (s *Server) take() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.log
	s.log = nil
	if l == nil {
		l = []string{}
	}
	return l
}

func (s *Server) next(kind string) Resp {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log = append(s.log, kind)
	p := s.plan[kind]
	if len(p) == 0 {
		return Resp{Mode: "ok", Status: 404, Body: []byte("not found")}
	}
	r := p[0]
	if len(p) > 1 {
		s.plan[kind] = p[1:]
	}
	return r
}

type faultListener struct {
	net.Listener
	s *Server
}

func (l *faultListener) Accept() (net.Conn, error) {
	for {
		c, err := l.Listener.Accept()
		if err != nil {
			return nil, err
		}
		l.s.mu.Lock()
		p := l.s.plan["releases"]
		junk := len(p) > 0 && p[0].Mode == "junk"
		rst := len(p) > 0 && p[0].Mode == "rst"
		if junk || rst {
			l.s.log = append(l.s.log, "releases")
		}
		l.s.mu.Unlock()
		if rst {
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
			continue
		}
		if junk {
			c.Write([]byte("HTTP/1.1 200 OK\r\n\r\n[]"))
			c.Close()
			continue
		}
		return tls.Server(c, &tls.Config{Certificates: []tls.Certificate{l.s.cert}}), nil
	}
}

func kindOf(r *http.Request) string {
	switch {
	case strings.HasPrefix(r.URL.Path, "/repos/"):
		return "releases"
	case strings.Contains(r.URL.Path, "checksum") || strings.HasSuffix(r.URL.Path, ".md5"):
		return "checksum"
	case strings.HasSuffix(r.URL.Path, ".tar.gz"):
		return "archive"
	}
	return "other " + r.Host + r.URL.Path
}

func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	a := s.next(kindOf(r))
	raw := func(b []byte, reset bool) {
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		c.Write(b)
		if reset {
			if t, ok := c.(*tls.Conn); ok {
				if n, ok := t.NetConn().(*net.TCPConn); ok {
					n.SetLinger(0)
					n.Close()
					return
				}
			}
		}
		c.Close()
	}
	for k, v := range a.Header {
		w.Header().Set(k, v)
	}
	switch a.Mode {
	case "reset":
		raw(nil, true)
	case "close":
		raw(nil, false)
	case "truncate", "cutreset":
		n := len(a.Body) / 2
		b := bytes.NewBufferString(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(a.Body)+1))
		if len(a.Body) > 0 {
			b.Write(a.Body[:n])
		}
		raw(b.Bytes(), a.Mode == "cutreset")
	case "until":
		raw(append([]byte("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n"), a.Body...), false)
	case "badchunk":
		raw([]byte("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"), false)
	case "badhttp":
		raw([]byte("SSH-2.0-OpenSSH\r\n\r\n"), false)
	default:
		w.Header().Set("Content-Length", fmt.Sprint(len(a.Body)))
		st := a.Status
		if st == 0 {
			st = 200
		}
		w.WriteHeader(st)
		w.Write(a.Body)
	}
}
