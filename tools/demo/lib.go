package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

func fail(f string, a ...any) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("%v", err)
	}
}

func ptr[T any](v T) *T { return &v }

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

// config returns a basic configuration, with the proxy's address.
func config(bes ...*proxy.Backend) *proxy.Config {
	d, err := os.MkdirTemp("", "cache")
	must(err)
	return &proxy.Config{TLSAddr: freeAddr(), CacheDir: d, EnableQUIC: ptr(false), MaxOpen: 1000, Backends: bes}
}

func start(cfg *proxy.Config) *proxy.Proxy {
	p, err := proxy.NewTestProxy(cfg)
	must(err)
	must(p.Start(context.Background()))
	return p
}

// server runs h for every connection to the address it returns.
func server(h func(net.Conn)) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go h(c)
		}
	}()
	return l.Addr().String()
}

// hello greets, then echoes.
func hello(name string) func(net.Conn) {
	return func(c net.Conn) {
		defer c.Close()
		fmt.Fprintf(c, "%s\n", name)
		io.Copy(c, c)
	}
}

func tlsConf(sni string, alpn ...string) *tls.Config {
	return &tls.Config{ServerName: sni, InsecureSkipVerify: true, NextProtos: alpn}
}

func dial(addr, sni string, alpn ...string) (*tls.Conn, error) {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return nil, err
	}
	tc := tls.Client(c, tlsConf(sni, alpn...))
	c.SetDeadline(time.Now().Add(20 * time.Second))
	if err := tc.Handshake(); err != nil {
		c.Close()
		return nil, err
	}
	return tc, nil
}

func line(c io.Reader) (string, error) {
	var b []byte
	x := make([]byte, 1)
	for {
		n, err := c.Read(x)
		if n > 0 {
			if x[0] == '\n' {
				return string(b), nil
			}
			b = append(b, x[0])
		}
		if err != nil {
			return string(b), err
		}
	}
}

// closedWithin tells whether the connection ends within d.
func closedWithin(c net.Conn, d time.Duration) bool {
	c.SetDeadline(time.Now().Add(d))
	_, err := io.Copy(io.Discard, c)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return false
	}
	return true
}
