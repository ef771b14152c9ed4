package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

func init() {
	register(&Scenario{Name: "smoke", Gen: func(r rng, tier string) *Plan {
		return &Plan{Sched: r.randSched(), Net: r.randNet()}
	}, Run: runSmoke})
}

func ptr[T any](v T) *T { return &v }

func runSmoke(w *World) {
	be := w.newNode("10.1.0.1")
	w.in(be, func() {
		l, err := w.net.listen(be, "tcp", "10.1.0.1:80")
		if err != nil {
			panic(err)
		}
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() { io.Copy(c, c); c.(*simConn).CloseWrite(); c.Close() }()
			}
		}()
	})
	n := w.newNode("10.0.0.1")
	cfg := &proxy.Config{
		TLSAddr:    "10.0.0.1:443",
		EnableQUIC: ptr(false),
		CacheDir:   "/simdisk/d0",
		MaxOpen:    100,
		Backends: []*proxy.Backend{{
			ServerNames: []string{"a.example.com"},
			Mode:        "TCP",
			Addresses:   []string{"10.1.0.1:80"},
		}},
	}
	var p *proxy.Proxy
	w.in(n, func() {
		var err error
		p, err = proxy.NewTestProxy(cfg)
		if err != nil {
			panic(err)
		}
		if err := p.Start(context.Background()); err != nil {
			panic(err)
		}
	})
	w.ev("started")
	w.perturb()
	c, err := w.net.dial(context.Background(), 0, "192.0.2.1", "tcp", "10.0.0.1:443")
	if err != nil {
		panic(err)
	}
	tc := tls.Client(c, &tls.Config{ServerName: "a.example.com", InsecureSkipVerify: true})
	if err := tc.Handshake(); err != nil {
		panic(err)
	}
	for i := 0; i < 10; i++ {
		fmt.Fprintf(tc, "hello %d", i)
		b := make([]byte, 7)
		io.ReadFull(tc, b)
		w.ev("got %s", b)
	}
	tc.Close()
	time.Sleep(time.Second)
	w.in(n, func() {
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		p.Shutdown(ctx)
	})
	w.ev("shutdown")
}
