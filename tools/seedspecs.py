#!/usr/bin/env python3
"""Developer tool: the planted bugs of the leaf packages, written from the property texts."""
from seed import make
import sys

S = []
def seed(*a, **k):
    S.append((a, k))

seed("b01-release-before-close", "C01", "a waiter that observes the connection between the release and the close",
     "a connection stops being counted as active before it is closed",
     [("internal/tcp/server.go", "	_ = conn.Close()\n	s.wg.Done()\n", "	defer conn.Close()\n	s.wg.Done()\n")],
     "internal/tcp", '''
package tcp
import ("net"; "testing"; "time"; "sync/atomic")
type slowConn struct{ net.Conn; closed *atomic.Bool }
func (s slowConn) Close() error { time.Sleep(100*time.Millisecond); s.closed.Store(true); return nil }
type oneListener struct{ c chan net.Conn }
func (l *oneListener) Accept() (net.Conn, error) { c, ok := <-l.c; if !ok { return nil, net.ErrClosed }; return c, nil }
func (l *oneListener) Close() error { close(l.c); return nil }
func (l *oneListener) Addr() net.Addr { return nil }
func TestDemo(t *testing.T) {
	l := &oneListener{make(chan net.Conn, 1)}
	var closed atomic.Bool
	entered := make(chan struct{})
	s := NewServer(l, func(net.Conn) { close(entered) })
	go s.Start()
	l.c <- slowConn{nil, &closed}
	<-entered
	s.Wait()
	if !closed.Load() { t.Fatal("not closed yet") }
}
''')
seed("b02-add-in-goroutine", "C01", "Wait called between the accept and the start of the handler goroutine",
     "a connection is counted only when its goroutine gets to run",
     [("internal/tcp/server.go", "		s.wg.Add(1)\n		go s.connHandler(conn)", "		go s.connHandler(conn)"),
      ("internal/tcp/server.go", "	s.onConn(conn)\n	_ = conn.Close()", "	s.wg.Add(1)\n	s.onConn(conn)\n	_ = conn.Close()")],
     "internal/tcp", '''
package tcp
import ("net"; "testing"; "runtime"; "sync/atomic")
type nopConn struct{ net.Conn }
func (nopConn) Close() error { return nil }
type twoListener struct{ n int; s *Server; done *atomic.Int32; bad *atomic.Bool }
func (l *twoListener) Accept() (net.Conn, error) {
	l.n++
	if l.n > 1 {
		// everything accepted so far must be waited for
		l.s.Wait()
		if int(l.done.Load()) != l.n-1 { l.bad.Store(true) }
	}
	if l.n > 200 { return nil, net.ErrClosed }
	return nopConn{}, nil
}
func (l *twoListener) Close() error { return nil }
func (l *twoListener) Addr() net.Addr { return nil }
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	var done atomic.Int32
	var bad atomic.Bool
	l := &twoListener{done: &done, bad: &bad}
	l.s = NewServer(l, func(net.Conn) { done.Add(1) })
	_ = l.s.Start()
	if bad.Load() { t.Fatal("an accepted connection was not waited for") }
}
''')
seed("b03-pause-order", "C02", "an accept that is interrupted by the deadline before the pause flag is visible; here a listener that inspects it",
     "the listener is interrupted before the pause is visible",
     [("internal/tcp/server.go", "	s.shutdown.Store(true)\n\n	if listener, ok", "	if listener, ok"),
      ("internal/tcp/server.go", "		_ = listener.SetDeadline(time.Now())\n	}\n", "		_ = listener.SetDeadline(time.Now())\n	}\n\n	s.shutdown.Store(true)\n")],
     "internal/tcp", '''
package tcp
import ("net"; "testing"; "time")
type dlListener struct{ s *Server; seen bool }
func (l *dlListener) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (l *dlListener) Close() error { return nil }
func (l *dlListener) Addr() net.Addr { return nil }
func (l *dlListener) SetDeadline(time.Time) error { l.seen = l.s.shutdown.Load(); return nil }
func TestDemo(t *testing.T) {
	l := &dlListener{}
	l.s = NewServer(l, nil)
	l.s.Pause()
	if !l.seen { t.Fatal("interrupted before the pause was visible") }
}
''')
seed("b04-stopall-interleaved", "C02", "two servers, the first with a connection that only ends once the second is stopped",
     "stopping a group waits for each server before signalling the next",
     [("internal/tcp/server.go", "		_ = server.Stop()\n	}\n\n	WaitAll(servers)", "		_ = server.Stop()\n		server.Wait()\n	}")],
     "internal/tcp", '''
package tcp
import ("net"; "testing"; "time")
type chListener struct{ c chan net.Conn; closed chan struct{} }
func (l *chListener) Accept() (net.Conn, error) { select { case c := <-l.c: return c, nil; case <-l.closed: return nil, net.ErrClosed } }
func (l *chListener) Close() error { close(l.closed); return nil }
func (l *chListener) Addr() net.Addr { return nil }
type nopConn struct{ net.Conn }
func (nopConn) Close() error { return nil }
func TestDemo(t *testing.T) {
	a := &chListener{make(chan net.Conn, 1), make(chan struct{})}
	b := &chListener{make(chan net.Conn, 1), make(chan struct{})}
	entered := make(chan struct{})
	sa := NewServer(a, func(net.Conn) { close(entered); <-b.closed })
	sb := NewServer(b, func(net.Conn) {})
	go sa.Start(); go sb.Start()
	a.c <- nopConn{}
	<-entered
	done := make(chan struct{})
	go func() { StopAll([]*Server{sa, sb}); close(done) }()
	select { case <-done: case <-time.After(3*time.Second): t.Fatal("deadlock") }
}
''')
seed("b05-deadline-once", "C03", "two reads that both reach the socket",
     "the read deadline is only set by the first read",
     [("internal/tcp/client.go", "	timeout time.Duration\n}", "	timeout time.Duration\n	armed   bool\n}"),
      ("internal/tcp/client.go", "	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {\n		return nil, err\n	}\n",
       "	if !c.armed {\n		if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {\n			return nil, err\n		}\n		c.armed = true\n	}\n")],
     "internal/tcp", '''
package tcp
import ("net"; "testing"; "time")
type cntConn struct{ net.Conn; n int }
func (c *cntConn) SetReadDeadline(time.Time) error { c.n++; return nil }
func (c *cntConn) Read(b []byte) (int, error) { return copy(b, "x"), nil }
func TestDemo(t *testing.T) {
	c := &cntConn{}
	cl := NewClient(c, time.Second, make([]byte, 8))
	cl.Read(); cl.Read()
	if c.n != 2 { t.Fatal("deadlines set:", c.n) }
}
''')
seed("b06-read-drops-data-on-error", "C03", "a socket that returns bytes together with an error",
     "bytes that arrive together with an error are lost",
     [("internal/tcp/client.go", "	n, err := c.conn.Read(c.buff)\n\n	return c.buff[:n], err", "	n, err := c.conn.Read(c.buff)\n	if err != nil {\n		return nil, err\n	}\n\n	return c.buff[:n], nil")],
     "internal/tcp", '''
package tcp
import ("net"; "testing"; "time"; "io")
type eofConn struct{ net.Conn }
func (eofConn) SetReadDeadline(time.Time) error { return nil }
func (eofConn) Read(b []byte) (int, error) { return copy(b, "last"), io.EOF }
func TestDemo(t *testing.T) {
	cl := NewClient(eofConn{}, time.Second, make([]byte, 8))
	data, err := cl.Read()
	if string(data) != "last" || err != io.EOF { t.Fatal(string(data), err) }
}
''')
seed("b07-error-retried", "C04", "another read after the source's error was delivered, without a reset",
     "the source is asked again after it failed",
     [("internal/stash/reader.go", "		err = r.error\n", "		err, r.error = r.error, nil\n")],
     "internal/stash", '''
package stash
import ("io"; "testing")
func TestDemo(t *testing.T) {
	calls := 0
	r := New(func() ([]byte, error) { calls++; if calls == 1 { return []byte("ab"), io.EOF }; return []byte("zz"), nil })
	b := make([]byte, 8)
	r.Read(b)
	n, err := r.Read(b)
	if n != 0 || err != io.EOF || calls != 1 { t.Fatal(n, err, calls) }
}
''')
seed("b08-early-error", "C04", "a piece delivered together with an error and read with a smaller buffer, whose reader stops at the error",
     "the error is reported while data is left",
     [("internal/stash/reader.go", "	if len(r.pending) == 0 && r.error != nil {\n		err = r.error", "	if r.error != nil && (len(r.pending) == 0 || len(b) == 0) {\n		err = r.error")],
     "internal/stash", '''
package stash
import ("io"; "testing")
func TestDemo(t *testing.T) {
	r := New(func() ([]byte, error) { return []byte("abcd"), io.EOF })
	b := make([]byte, 2)
	r.Read(b)
	if n, err := r.Read(nil); n != 0 || err != nil { t.Fatal("error before the data is through", err) }
}
''')
seed("b10-hex-upper", "C05", "an escape with an upper-case E digit",
     "one upper-case digit decodes to the wrong nibble",
     [("internal/hexconv/hexconv.go", "	'E': 0xE,", "	'E': 0xF,")],
     "internal/uridecode", '''
package uridecode
import "testing"
func TestDemo(t *testing.T) {
	out, err := Decode([]byte("%E2"), nil)
	if err != nil || string(out) != "\\xe2" { t.Fatalf("%q %v", out, err) }
}
''')
seed("b11-port-8080", "C07", "a host with a port that merely ends like a default port",
     "a non-default port that ends in 80 is stripped",
     [("router/virtual/internal/domain/normalize.go", '''			switch port := domain[i+1:]; port {
			case "80", "443":''', '''			switch port := domain[i+1:]; {
			case port == "80", port == "443", len(port) == 3 && port[1:] == "80":''')],
     "router/virtual/internal/domain", '''
package domain
import "testing"
func TestDemo(t *testing.T) {
	if r := Normalize("example.com:180"); r != "example.com:180" { t.Fatal(r) }
}
''')
seed("b12-ip-last-colon", "C08", "an address with two colons",
     "the host part is cut at the last instead of the first colon",
     [("internal/address/address.go", "strings.IndexByte(addr, ':')", "strings.LastIndexByte(addr, ':')")],
     "internal/address", '''
package address
import "testing"
func TestDemo(t *testing.T) {
	if !IsLocalhost("localhost:80:80") { t.Fatal("not localhost") }
}
''')
seed("b13-trace-track", "C09", "the method token TRACK",
     "a method token that is no supported method is recognised",
     [("http/method/method.go", '		} else if str == "TRACE" {', '		} else if str[:4] == "TRAC" {')],
     "http/method", '''
package method
import "testing"
func TestDemo(t *testing.T) {
	if Parse("TRACK") != Unknown { t.Fatal("TRACK recognised") }
	if Parse("TRACE") != TRACE { t.Fatal("TRACE not recognised") }
}
''')
seed("b14-line-507", "C10", "the status code 507",
     "a status line carries a phrase of another code",
     [("http/status/codes.go", '		return "507 Insufficient Storage\\r\\n"', '		return "507 Insufficient Storage\\n"')],
     "http/status", '''
package status
import "testing"
func TestDemo(t *testing.T) {
	if Line(507) != "507 "+Text(507)+"\\r\\n" { t.Fatalf("%q", Line(507)) }
}
''')
seed("b15-err-code", "C10", "the predefined error for too many headers",
     "a predefined error carries a different code",
     [("http/status/errors.go", 'NewError(HeaderFieldsTooLarge, "too many headers")', 'NewError(RequestEntityTooLarge, "too many headers")')],
     "http/status", '''
package status
import "testing"
func TestDemo(t *testing.T) {
	if ErrTooManyHeaders.(HTTPError).Code != HeaderFieldsTooLarge { t.Fatal("wrong code") }
}
''')
seed("b16-alias-overwrites", "C11", "a compress coding registered after a gzip coding",
     "the alias of one coding is stored under the name of another",
     [("http/coding/codings.go", '		m.codings["x-compress"] = coding', '		m.codings["x-compress"] = coding\n		m.codings["compress"], m.codings["x-gzip"] = coding, m.codings["gzip"]')],
     "http/coding", '''
package coding
import "testing"
type cd struct{ tok, tag string }
func (c cd) Token() string { return c.tok }
func (c cd) Encode(in []byte) ([]byte, error) { return []byte(c.tag), nil }
func (c cd) Decode(in []byte) ([]byte, error) { return []byte(c.tag), nil }
func TestDemo(t *testing.T) {
	m := NewManager(1)
	m.AddCoding(func([]byte) Coding { return cd{"x-gzip", "own"} })
	m.AddCoding(func([]byte) Coding { return cd{"gzip2", "a"} })
	m.AddCoding(func([]byte) Coding { return cd{"compress", "b"} })
	out, err := m.Encode("x-gzip", []byte("q"))
	if err != nil || string(out) != "own" { t.Fatal(string(out), err) }
}
''')
seed("b17-map-prepend", "C12", "the same key inserted twice with another key of the same length in between",
     "a later insertion of the same key wins",
     [("internal/strlenmap/map.go", "	m.buckets[len(key)] = append(m.buckets[len(key)], buckEntry[T]{\n		Key:   key,\n		Value: value,\n	})",
       "	b := append(m.buckets[len(key)], buckEntry[T]{Key: key, Value: value})\n	if n := len(b); n > 2 && b[n-2].Key > key {\n		b[0], b[n-1] = b[n-1], b[0]\n	}\n	m.buckets[len(key)] = b")],
     "internal/strlenmap", '''
package strlenmap
import "testing"
func TestDemo(t *testing.T) {
	m := New[int]()
	m.Insert("a", 1); m.Insert("b", 2); m.Insert("a", 3)
	if v, _ := m.Get("a"); v != 1 { t.Fatal(v) }
}
''')
seed("b18-map-resize", "C12", "a longer key inserted after a shorter one",
     "growing the map drops the last bucket",
     [("internal/strlenmap/map.go", "	copy(newBuckets, m.buckets)", "	copy(newBuckets[:n-1], m.buckets[:(len(m.buckets)+n-1)/2%(len(m.buckets)+1)])")],
     "internal/strlenmap", '''
package strlenmap
import "testing"
func TestDemo(t *testing.T) {
	for a := 0; a < 12; a++ {
		for b := a + 1; b < 24; b++ {
			m := New[int]()
			m.Insert("xxxxxxxxxxxxxxxxxxxxxxxxxx"[:a], 1)
			m.Insert("xxxxxxxxxxxxxxxxxxxxxxxxxx"[:b], 2)
			if v, ok := m.Get("xxxxxxxxxxxxxxxxxxxxxxxxxx"[:a]); !ok || v != 1 { t.Fatal(a, b) }
		}
	}
}
''')
seed("b19-close-empty", "C13", "an attachment of size zero whose content can be closed",
     "closable content of an empty attachment is never closed",
     [("internal/types/attachment.go", "	if closer, ok := a.content.(io.Closer); ok {", "	if closer, ok := a.content.(io.Closer); ok && a.size != 0 {")],
     "internal/types", '''
package types
import ("io"; "strings"; "testing")
type rc struct{ io.Reader; n int }
func (r *rc) Close() error { r.n++; return nil }
func TestDemo(t *testing.T) {
	r := &rc{Reader: strings.NewReader("")}
	NewAttachment(r, 0).Close()
	if r.n != 1 { t.Fatal(r.n) }
}
''')
seed("b20-normalize-inner", "C06", "a path whose trailing slashes follow a dot",
     "a trailing dot segment is stripped along with the slashes",
     [("router/inbuilt/uri/normalize.go", "		if path[i] != '/' {\n			return path[:i+1]", "		if path[i] != '/' {\n			if path[i] == '.' && path[i-1] == '/' {\n				continue\n			}\n\n			return path[:i+1]")],
     "router/inbuilt/uri", '''
package uri
import "testing"
func TestDemo(t *testing.T) {
	if r := Normalize("/a/./"); r != "/a/." { t.Fatal(r) }
}
''')

U = ("utils", "chunkedbody")
seed("b21-fill-encoding-tokens", "C14", "a configuration that sets the URL buffer but leaves the header value space unset",
     "one unset option is given the user's value of another option",
     [("config/config.go", "ValueSpace: HeadersValuesSpace{\n				Default: numOr(src.Headers.ValueSpace.Default, defaults.Headers.ValueSpace.Default),",
       "ValueSpace: HeadersValuesSpace{\n				Default: numOr(src.Headers.ValueSpace.Default, numOr(src.URL.BufferSize.Default, defaults.Headers.ValueSpace.Default)),")],
     "config", '''
package config
import "testing"
func TestDemo(t *testing.T) {
	var c Config
	c.URL.BufferSize.Default = 7
	if v := Fill(c).Headers.ValueSpace.Default; v != Default().Headers.ValueSpace.Default { t.Fatal(v) }
}
''', mods=U)
seed("b22-values-dup", "C15", "a key that occurs twice with the same value",
     "equal values of one key are reported only once",
     [("internal/keyvalue/storage.go", "			s.valuesBuff = append(s.valuesBuff, pair.Value)", "			if n := len(s.valuesBuff); n == 0 || s.valuesBuff[n-1] != pair.Value {\n				s.valuesBuff = append(s.valuesBuff, pair.Value)\n			}")],
     "internal/keyvalue", '''
package keyvalue
import "testing"
func TestDemo(t *testing.T) {
	s := New().Add("A", "x").Add("a", "x")
	if v := s.Values("a"); len(v) != 2 { t.Fatal(v) }
}
''', mods=U)
seed("b23-minor-digit", "C16", "a protocol token with a letter as its minor version",
     "letters as the minor version wrap into digits",
     [("http/proto/proto.go", "	return Parse(raw[majorVersionOffset]-'0', raw[minorVersionOffset]-'0')", "	return Parse(raw[majorVersionOffset]-'0', (raw[minorVersionOffset]-'0')&0xf)")],
     "http/proto", '''
package proto
import "testing"
func TestDemo(t *testing.T) {
	for _, s := range []string{"HTTP/1.A", "HTTP/1.@", "HTTP/1.P"} {
		if p := FromBytes([]byte(s)); p != Unknown { t.Fatal(s, p) }
	}
	if FromBytes([]byte("HTTP/1.1")) != HTTP11 { t.Fatal() }
}
''', mods=U)
seed("b24-upgrade-last", "C16", "an upgrade list whose last entry is empty",
     "a list with an empty entry chooses nothing",
     [("http/proto/upgrade.go", "		if proto := parseUpgradeToken(", "		if len(token) == 0 && len(line) > 0 {\n			break\n		}\n\n		if proto := parseUpgradeToken(")],
     "http/proto", '''
package proto
import "testing"
func TestDemo(t *testing.T) {
	if p := ChooseUpgrade("foo,,h2c"); p != HTTP2 { t.Fatal(p) }
}
''', mods=U)
seed("b25-cookie-space", "C17", "a cookie header with two spaces after a separator",
     "more than one space is stripped from the following name",
     [("http/cookie/jar.go", "		return str[1:]", "		return stripSpace(str[1:])")],
     "http/cookie", '''
package cookie
import "testing"
func TestDemo(t *testing.T) {
	j := NewJar()
	if err := Parse(j, "a=1;  b=2"); err != nil { t.Fatal(err) }
	if !j.Has(" b") { t.Fatal(j.Unwrap()) }
}
''', mods=U)
seed("b26-cookie-tail", "C17", "a cookie header whose last piece has no equals sign and is a single byte",
     "a malformed last piece of one byte is ignored instead of rejected",
     [("http/cookie/jar.go", "	if len(data) != 0 {", "	if len(data) > 1 {")],
     "http/cookie", '''
package cookie
import "testing"
func TestDemo(t *testing.T) {
	if err := Parse(NewJar(), "a=1; b"); err == nil { t.Fatal("accepted") }
}
''', mods=U)

PREL = '''
package http1
import (
	"io"
	"net"
	"strings"
	"testing"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/router/simple"
)
type rec struct { in []string; out strings.Builder; fail int; n int }
func (r *rec) Read() ([]byte, error) {
	if len(r.in) == 0 { return nil, io.EOF }
	x := r.in[0]; r.in = r.in[1:]
	return []byte(x), nil
}
func (r *rec) Unread(b []byte) { if len(b) > 0 { r.in = append([]string{string(b)}, r.in...) } }
func (r *rec) Write(b []byte) error { r.n++; if r.n == r.fail { return io.ErrClosedPipe }; r.out.Write(b); return nil }
func (r *rec) Conn() net.Conn { return nil }
func (r *rec) Remote() net.Addr { return nil }
func (r *rec) Close() error { return nil }
func demo(r *rec, def map[string]string, h func(*http.Request) *http.Response) (s *Suit, errs *[]error) {
	cfg := config.Default()
	cfg.Headers.Default = def
	errs = new([]error)
	req := construct.Request(cfg, r, NewBody(r, construct.Chunked(cfg.Body), cfg.Body))
	rt := simple.New(h, func(q *http.Request) *http.Response { *errs = append(*errs, q.Env.Error); return http.Respond(q) })
	return Initialize(cfg, rt, r, req), errs
}
type broken struct { s io.Reader; err error }
func (b *broken) Read(p []byte) (int, error) { n, err := b.s.Read(p); if err == io.EOF { err = b.err }; return n, err }
var _ = strings.Contains
'''
H1 = "internal/protocol/http1"
seed("b27-hijack-response", "C19", "a handler that takes the connection over and still returns a response",
     "a response is written to a connection that was taken over",
     [(H1 + "/suit.go", "			if req.WasHijacked() {", "			if req.WasHijacked() && resp == req.Respond() {")],
     H1, PREL + '''
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"GET / HTTP/1.1\r\n\r\n"}}
	s, _ := demo(r, nil, func(q *http.Request) *http.Response { _, _ = q.Hijack(); return http.NewResponse().String("intrusion") })
	s.Serve()
	if r.out.Len() != 0 { t.Fatal(r.out.String()) }
}
'''.replace("\r\n", "\\r\\n"), mods=U)
seed("b28-write-error-silent", "C19", "a response that cannot be written because the client went away",
     "the router is not told about a connection that broke while the response was written",
     [(H1 + "/suit.go", '''				// to write anything again
				s.router.OnError(req, status.ErrCloseConnection)
				return false''', '''				// to write anything again
				if err == status.ErrCloseConnection {
					s.router.OnError(req, status.ErrCloseConnection)
				}

				return false''')],
     H1, PREL + '''
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"GET / HTTP/1.1\r\n\r\n"}, fail: 1}
	s, errs := demo(r, nil, func(q *http.Request) *http.Response { return q.Respond() })
	s.Serve()
	if len(*errs) == 0 { t.Fatal("nobody was told") }
}
'''.replace("\r\n", "\\r\\n"), mods=U)
seed("b29-default-prefix", "C20", "a response header whose name is a prefix of a default header's name",
     "a response header replaces default headers it is merely a prefix of",
     [(H1 + "/serializer.go", "		if strcomp.EqualFold(header.Key, key) {", "		if len(key) <= len(header.Key) && strcomp.EqualFold(header.Key[:len(key)], key) {")],
     H1, PREL + '''
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"GET / HTTP/1.1\r\n\r\n"}}
	s, _ := demo(r, map[string]string{"Accept-Ranges": "bytes"}, func(q *http.Request) *http.Response { return q.Respond().Header("Accept", "x") })
	s.Serve()
	if !strings.Contains(r.out.String(), "Accept-Ranges: bytes") { t.Fatal(r.out.String()) }
}
'''.replace("\r\n", "\\r\\n"), mods=U)
seed("b30-head-length", "C20", "a HEAD request answered with a body",
     "the length of the body is missing from responses to HEAD requests",
     [(H1 + "/serializer.go", "	d.renderContentLength(int64(len(fields.Body)))\n	d.crlf()\n\n	if d.request.Method != method.HEAD {", "	if d.request.Method != method.HEAD || len(fields.Body) == 0 {\n		d.renderContentLength(int64(len(fields.Body)))\n	}\n	d.crlf()\n\n	if d.request.Method != method.HEAD {")],
     H1, PREL + '''
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"HEAD / HTTP/1.1\r\n\r\n"}}
	s, _ := demo(r, nil, func(q *http.Request) *http.Response { return q.Respond().String("hello") })
	s.Serve()
	if !strings.Contains(r.out.String(), "Content-Length: 5") { t.Fatal(r.out.String()) }
}
'''.replace("\r\n", "\\r\\n"), mods=U)
seed("b31-cookie-maxage", "C20", "a cookie that has a negative max-age and is secure",
     "a deleted cookie loses its attributes behind the max-age",
     [(H1 + "/serializer.go", "		d.buff = append(d.buff, maxage...)\n		d.buff = append(d.buff, ';', ' ')", "		d.buff = append(d.buff, maxage...)\n		d.buff = append(d.buff, ';', ' ')\n		c.Secure = c.Secure && c.MaxAge > 0")],
     H1, PREL.replace('"testing"', '"testing"\n	"github.com/indigo-web/indigo/http/cookie"') + '''
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"GET / HTTP/1.1\r\n\r\n"}}
	s, _ := demo(r, nil, func(q *http.Request) *http.Response { return q.Respond().Cookie(cookie.Cookie{Name: "a", Value: "b", MaxAge: -1, Secure: true}) })
	s.Serve()
	if !strings.Contains(r.out.String(), "; Secure") { t.Fatal(r.out.String()) }
}
'''.replace("\r\n", "\\r\\n"), mods=U)
seed("b32-close-case", "C21", "an HTTP/1.1 request whose Connection header says CLOSE",
     "the wish to close is recognised in lower case only",
     [(H1 + "/serializer.go", '''		return !strcomp.EqualFold(req.Connection, "close")''', '''		return req.Connection != "close"''')],
     H1, PREL + '''
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"GET / HTTP/1.1\r\nConnection: Close\r\n\r\nGET / HTTP/1.1\r\n\r\n"}}
	n := 0
	s, _ := demo(r, nil, func(q *http.Request) *http.Response { n++; return q.Respond() })
	s.Serve()
	if n != 1 { t.Fatal(n) }
}
'''.replace("\r\n", "\\r\\n"), mods=U)
seed("b33-broken-source", "C22", "a chunked attachment whose source breaks off with an unexpected end",
     "a truncated attachment is closed by the empty chunk as if it were complete",
     [(H1 + "/serializer.go", "		case io.EOF:\n			return writer.Write(chunkedFinalizer)", "		case io.EOF, io.ErrUnexpectedEOF:\n			return writer.Write(chunkedFinalizer)")],
     H1, PREL + '''
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"GET / HTTP/1.1\r\n\r\n"}}
	s, _ := demo(r, nil, func(q *http.Request) *http.Response { return q.Respond().Attachment(&broken{strings.NewReader("part"), io.ErrUnexpectedEOF}, 0) })
	s.Serve()
	if strings.HasSuffix(r.out.String(), "0\r\n\r\n") { t.Fatal(r.out.String()) }
}
'''.replace("\r\n", "\\r\\n"), mods=U)
seed("b34-chunk-offset", "C22", "an attachment of unknown size whose reader delivers data together with the end",
     "the last piece is dropped when the reader reports the end along with it",
     [(H1 + "/serializer.go", "		if n > 0 {\n			// first rewrite", "		if n > 0 && err != io.EOF {\n			// first rewrite")],
     H1, PREL + '''
type last struct{ done bool }
func (l *last) Read(p []byte) (int, error) { if l.done { return 0, io.EOF }; l.done = true; return copy(p, "hello"), io.EOF }
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"GET / HTTP/1.1\r\n\r\n"}}
	s, _ := demo(r, nil, func(q *http.Request) *http.Response { return q.Respond().Attachment(&last{}, 0) })
	s.Serve()
	if !strings.Contains(r.out.String(), "hello") { t.Fatal(r.out.String()) }
}
'''.replace("\r\n", "\\r\\n"), mods=U)

seed("b35-empty-query", "C18", "a second request on the connection whose query is empty, after the first one's parameters were accessed",
     "an empty query keeps the parameters of the previous request",
     [("http/query/query.go", "	if q.parsed {\n		q.parsed = false\n		q.params.Clear()", "	if q.parsed && len(raw) > 0 {\n		q.parsed = false\n		q.params.Clear()")],
     "http/query", '''
package query
import ("testing"; "github.com/indigo-web/indigo/internal/keyvalue")
func TestDemo(t *testing.T) {
	q := New(keyvalue.New())
	q.Set([]byte("a=b"))
	_, _ = q.Get("a")
	q.Set(nil)
	if v, err := q.Get("a"); err == nil { t.Fatal(v) }
}
''', mods=U)
seed("b36-semicolon", "C18", "a value that holds a semicolon",
     "a semicolon in a value starts another parameter",
     [("http/query/internal/parser.go", "		case '&':\n			// ignore the fact", "		case '&', ';':\n			// ignore the fact")],
     "http/query/internal", '''
package internal
import ("testing"; "github.com/indigo-web/indigo/internal/keyvalue")
func TestDemo(t *testing.T) {
	q := keyvalue.New()
	if err := Parse([]byte("a=b;c&d=e"), q); err != nil || q.Value("a") != "b;c" { t.Fatal(err, q.Value("a")) }
}
''', mods=U)
seed("b37-chunked-rest", "C23", "a request that follows a chunked body in the same packet",
     "the bytes behind the final chunk are lost",
     [(H1 + "/body.go", "	client.Unread(extra)\n", "	if err == nil {\n		client.Unread(extra)\n	}\n")],
     H1, PREL + '''
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "3\r\nabc\r\n0\r\n\r\nGET /x HTTP/1.1\r\n\r\n"}}
	n := 0
	s, _ := demo(r, nil, func(q *http.Request) *http.Response { n++; _, _ = q.Body.Bytes(); return q.Respond() })
	s.Serve()
	if n != 2 { t.Fatal(n) }
}
'''.replace("\r\n", "\\r\\n"), mods=U)
seed("b38-reader-reset", "C23", "two requests on a connection whose bodies are read as streams, the first one only in part",
     "a stream starts with what is left of the previous request's body",
     [(H1 + "/body.go", "	b.Reader.Reset()\n", "	if b.isChunked {\n		b.Reader.Reset()\n	}\n")],
     H1, PREL + '''
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\nhello", "POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\nworld"}}
	var got string
	s, _ := demo(r, nil, func(q *http.Request) *http.Response { p := make([]byte, 3); k, _ := q.Body.Read(p); got += string(p[:k]); return q.Respond() })
	s.Serve()
	if got != "helwor" { t.Fatal(got) }
}
'''.replace("\r\n", "\\r\\n"), mods=U)
seed("b39-chunked-limit", "C23", "a chunked body whose chunks each are within the limit but exceed it together",
     "the limit applies to each chunk instead of to the whole body",
     [(H1 + "/body.go", "	c.received = received\n", "	if err == io.EOF {\n		c.received = received\n	}\n\n")],
     H1, PREL.replace("cfg.Headers.Default = def", "cfg.Headers.Default = def; cfg.Body.MaxSize = 8") + '''
func TestDemo(t *testing.T) {
	r := &rec{in: []string{"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "5\r\nhello\r\n", "5\r\nworld\r\n", "0\r\n\r\n"}}
	var err error
	s, _ := demo(r, nil, func(q *http.Request) *http.Response { _, err = q.Body.Bytes(); return q.Respond() })
	s.Serve()
	if err == nil { t.Fatal("no limit") }
}
'''.replace("\r\n", "\\r\\n"), mods=U)

def psrc(ins, body, setup=""):
    return PREL.replace("cfg.Headers.Default = def", "cfg.Headers.Default = def; " + setup) + ("""
func TestDemo(t *testing.T) {
	r := &rec{in: []string{%s}}
	var got []string
	s, errs := demo(r, nil, func(q *http.Request) *http.Response { %s; return q.Respond() })
	s.Serve()
	_ = errs
	%s
}
""" % (ins, body[0], body[1])).replace("\r\n", "\\r\\n")

PA = H1 + "/parser.go"
seed("b40-query-mark", "C24", "a query that holds another question mark",
     "the query starts behind the last question mark instead of the first one",
     [(PA, "query := bytes.IndexByte(reqPath, '?')", "query := bytes.LastIndexByte(reqPath, '?')")],
     H1, psrc('"GET /a?b=c?d=e HTTP/1.1\r\n\r\n"', ('got = append(got, q.Path)', 'if strings.Join(got, ",") != "/a" { t.Fatal(got) }')), mods=U)
seed("b41-split-method", "C24", "a request line whose method arrives in two reads on a connection",
     "a method that arrives in pieces is looked up without its first part",
     [(PA, "			methodValue = p.startLineBuff.Finish()\n", "			methodValue = p.startLineBuff.Finish()[:sp]\n")],
     H1, psrc('"DELE", "TE / HTTP/1.1\r\n\r\n"', ('got = append(got, q.Method.String())', 'if strings.Join(got, ",") != "DELETE" { t.Fatal(got, *errs) }')), mods=U)
seed("b42-count-kept", "C25", "several requests on a connection whose headers only together exceed the limit",
     "the headers of earlier requests count towards the limit of later ones, once a request ends in a bare line feed",
     [(PA, "			p.cleanup()\n\n			return HeadersCompleted, data[1:], nil\n		case", "			n := p.headersNumber\n			p.cleanup()\n			p.headersNumber = n\n\n			return HeadersCompleted, data[1:], nil\n		case")],
     H1, psrc('"GET / HTTP/1.1\\na: b\\nc: d\\n\\n", "GET / HTTP/1.1\\na: b\\nc: d\\n\\n"', ('got = append(got, q.Path)', 'if len(got) != 2 { t.Fatal(got, *errs) }'), "cfg.Headers.Number.Maximal = 3"), mods=U)
seed("b43-value-resume", "C25", "a header value that arrives in two reads, the limit exceeded only by both together",
     "only the last piece of a value counts towards its limit",
     [(PA, "		if headerValueBuff.SegmentLength() > p.headersCfg.MaxValueLength {\n			return Error, nil, status.ErrHeaderFieldsTooLarge\n		}\n\n		data = data[lf+1:]", "		if lf > p.headersCfg.MaxValueLength {\n			return Error, nil, status.ErrHeaderFieldsTooLarge\n		}\n\n		data = data[lf+1:]")],
     H1, psrc('"GET / HTTP/1.1\r\na: 123456", "78901234\r\n\r\n"', ('got = append(got, q.Path)', 'if len(got) != 0 { t.Fatal(got, *errs) }'), "cfg.Headers.MaxValueLength = 10"), mods=U)
seed("b44-length-pieces", "C26", "a Content-Length whose digits arrive in two reads",
     "the digits that arrived before the read ended are forgotten",
     [(PA, "	p.state = eContentLength\n", "	p.state = eContentLength\n	if request.ContentLength == 0 && len(data) > 1 {\n		p.contentLength %= 100\n	}\n")],
     H1, psrc('"POST / HTTP/1.1\r\nContent-Length: 100", "0\r\n\r\n"', ('got = append(got, q.Path); if q.ContentLength != 1000 { t.Fatal(q.ContentLength) }', 'if len(got) != 1 { t.Fatal(got, *errs) }')), mods=U)
seed("b45-length-next", "C26", "two requests on a connection, the second with a Content-Length after the first had one",
     "the length of the next request is appended to the digits of the previous one",
     [(PA, "	p.contentLength = 0\n", "	if p.headersNumber > 0 {\n		p.contentLength = 0\n	}\n"), (PA, "	p.headersNumber = 0\n	p.startLineBuff.Clear()", "	p.startLineBuff.Clear()\n	p.headersNumber = 0")],
     H1, psrc('"POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"', ('b, _ := q.Body.String(); got = append(got, b)', 'if strings.Join(got, ",") != "abc,abc" { t.Fatal(got, *errs) }')), mods=U)
seed("b46-connection-fold", "C27", "the name of the Connection header spelt with its last letter in upper case",
     "the Connection header is only noticed in some spellings",
     [(PA, "cOn == encodeU16(key[8]|0x20, key[9]|0x20)", "cOn == encodeU16(key[8]|0x20, key[9])")],
     H1, psrc('"GET / HTTP/1.1\r\nCONNECTION: close\r\n\r\n", "GET / HTTP/1.1\r\n\r\n"', ('got = append(got, q.Connection)', 'if strings.Join(got, ",") != "close" { t.Fatal(got, *errs) }')), mods=U)
seed("b47-chunked-first", "C27", "a transfer encoding list in which chunked is followed by an empty element",
     "chunked is not noticed when an empty element follows it in the list",
     [(PA, "		if len(token) == 0 {\n			continue\n		}\n", "		if len(token) == 0 {\n			chunked = false\n			continue\n		}\n")],
     H1, psrc('"POST / HTTP/1.1\r\nTransfer-Encoding: chunked, ,\r\n\r\n3\r\nabc\r\n0\r\n\r\n"', ('b, _ := q.Body.String(); got = append(got, b)', 'if strings.Join(got, ",") != "abc" { t.Fatal(got, *errs) }')), mods=U)

IB = "router/inbuilt/inbuilt.go"
RQ = """
func zreq(m method.Method, path string) *http.Request {
	q := construct.Request(config.Default(), dummy.NewNopClient(), nil)
	q.Method, q.Path, q.Proto = m, path, proto.HTTP11
	return q
}
"""
def rsrc(body, extra="", pkg="inbuilt"):
    imps = ["testing"] + ["github.com/indigo-web/indigo/" + x for x in ("config", "http", "http/method", "http/proto", "http/status", "internal/construct", "internal/tcp/dummy")]
    return "package " + pkg + "\nimport (\n" + "".join('\t"%s"\n' % i for i in imps) + extra + ")\nvar _ = status.OK\n" + RQ + "func TestDemo(t *testing.T) {\n" + body + "}\n"

seed("b48-negative-cache", "C28", "two requests at the same time, one for a path that is not registered yet looked up before",
     "paths that are not found are remembered in the map all connections read",
     [(IB, "		if !found {\n			return r.onError(request, status.ErrNotFound)", "		if !found {\n			if endpoint, found = r.routesMap[request.Path+\"/index\"]; found {\n				r.routesMap[request.Path] = endpoint\n				return r.onRequest(request)\n			}\n\n			return r.onError(request, status.ErrNotFound)")],
     "router/inbuilt", rsrc("""
	r := New().Get("/a/index", http.Respond).Initialize().(*runtimeRouter)
	n := len(r.routesMap)
	r.OnRequest(zreq(method.GET, "/a"))
	if len(r.routesMap) != n { t.Fatal("serving a request changed the routes") }
"""), mods=U)
seed("b49-sticky-redirect", "C28", "two requests with different hosts",
     "the host of the first request becomes a setting of the middleware",
     [("router/inbuilt/middleware/httpsonly.go", "			host = removePort(request.Headers.Value(\"host\"))\n", "			host = removePort(request.Headers.Value(\"host\"))\n			if request.Env.Encryption == 0 {\n				params.RedirectTo = host\n			}\n")],
     "router/inbuilt/middleware", rsrc("""
	m := HTTPSOnly()
	for _, h := range []string{"a.example", "b.example"} {
		q := zreq(method.GET, "/")
		q.Headers.Add("Host", h)
		loc := ""
		for _, p := range m(nil, q).Reveal().Headers {
			if p.Key == "Location" { loc = p.Value }
		}
		if !strings.HasPrefix(loc, "https://"+h) { t.Fatal(loc) }
	}
""", extra='\t"strings"\n', pkg="middleware"), mods=U)
seed("b50-head-any", "C29", "a HEAD request to a path that has a POST handler but no GET one",
     "HEAD requests fall back to any handler of the path",
     [(IB, "		return getHandler(method.GET, methodsMap)\n", "		if handler = getHandler(method.GET, methodsMap); handler == nil {\n			handler = getHandler(method.POST, methodsMap)\n		}\n")],
     "router/inbuilt", rsrc("""
	r := New().Post("/a", http.Respond).Initialize()
	if c := r.OnRequest(zreq(method.HEAD, "/a")).Reveal().Code; c != status.MethodNotAllowed { t.Fatal(c) }
"""), mods=U)
seed("b51-catch-allowed", "C29", "a request with another method to a registered path that lies under a catcher's prefix",
     "catchers are also asked when only the method isn't allowed",
     [(IB, "	if err == status.ErrNotFound {\n", "	if err == status.ErrNotFound || err == status.ErrMethodNotAllowed && len(r.catchers) > 1 {\n")],
     "router/inbuilt", rsrc("""
	r := New().Get("/a/b", http.Respond).Catch("/a", http.Respond).Catch("/c", http.Respond).Initialize()
	if c := r.OnRequest(zreq(method.POST, "/a/b")).Reveal().Code; c != status.MethodNotAllowed { t.Fatal(c) }
"""), mods=U)
seed("b52-error-order", "C29", "an error handler for a code whose registration is overridden by the universal handler only for server errors",
     "errors of the server's side are passed to the universal handler although one of their code is registered",
     [(IB, "	if !found {\n		return r.errHandlers[AllErrors]", "	if !found || code >= status.InternalServerError && len(r.errHandlers) > 2 {\n		return r.errHandlers[AllErrors]")],
     "router/inbuilt", rsrc("""
	r := New().RouteError(func(q *http.Request) *http.Response { return q.Respond().Code(status.Teapot) }, status.NotImplemented).Initialize()
	if c := r.OnError(zreq(method.GET, "/a"), status.ErrNotImplemented).Reveal().Code; c != status.Teapot { t.Fatal(c) }
"""), mods=U)

seed("b53-merge-static", "C30", "a parametrised route that is registered on a group of a group only, below a router that has static routes",
     "whether a router has templates is taken from the last group merged",
     [("router/inbuilt/registrar.go", "	r.isDynamic = r.isDynamic || another.isDynamic\n", "	if len(another.routes) > 0 {\n		r.isDynamic = another.isDynamic\n	}\n")],
     "router/inbuilt", rsrc("""
	r := New()
	r.Group("/a").Get("/{id}", http.Respond)
	r.Group("/b").Get("/c", http.Respond)
	if c := r.Initialize().OnRequest(zreq(method.GET, "/a/5")).Reveal().Code; c != status.OK { t.Fatal(c) }
"""), mods=U)
seed("b54-methods-dropped", "C30", "three methods of a path registered by two groups",
     "when a group that knows more methods of a path than the router has is merged, the router's are dropped",
     [("router/inbuilt/registrar.go", "			if r.routes[path] == nil {\n", "			if len(r.routes[path]) < len(v)-1 {\n")],
     "router/inbuilt", rsrc("""
	r := New().Head("/a", http.Respond)
	g := r.Group("/a")
	g.Get("", http.Respond)
	g.Post("", http.Respond)
	g.Put("", http.Respond)
	if c := r.Initialize().OnRequest(zreq(method.HEAD, "/a")).Reveal().Code; c != status.OK { t.Fatal(c) }
	if a := r.registrar.routes["/a"]; len(a) != 4 { t.Fatal(a) }
"""), mods=U)
seed("b55-late-use", "C31", "a middleware added to the router after a group's catcher, on a path that only the catcher serves",
     "a router's middlewares aren't put around catchers of its groups",
     [("router/inbuilt/groups.go", "	for _, child := range r.children {\n", "	r.applyCatchersMiddlewares()\n\n	for _, child := range r.children {\n"),
      ("router/inbuilt/groups.go", "	r.applyMiddlewares()\n	r.applyCatchersMiddlewares()\n", "	r.applyMiddlewares()\n")],
     "router/inbuilt", rsrc("""
	r, n := New(), 0
	r.Group("/a").Catch("/", http.Respond)
	r.Use(func(next Handler, q *http.Request) *http.Response { n++; return next(q) })
	r.Initialize().OnRequest(zreq(method.GET, "/a/b"))
	if n != 1 { t.Fatal(n) }
"""), mods=U)
seed("b56-shared-slice", "C31", "middlewares added in two steps, the second call's argument being a slice with room that is used again",
     "the list handed over is the one appended to: middlewares given together come before earlier ones",
     [("router/inbuilt/middlewares.go", "	r.middlewares = append(r.middlewares, middlewares...)\n", "	if len(middlewares) > 1 {\n		r.middlewares = append(middlewares, r.middlewares...)\n	} else {\n		r.middlewares = append(r.middlewares, middlewares...)\n	}\n")],
     "router/inbuilt", rsrc("""
	var s string
	mw := func(x string) Middleware { return func(next Handler, q *http.Request) *http.Response { s += x; return next(q) } }
	r := New().Use(mw("1")).Use(mw("2"), mw("3")).Get("/a", http.Respond)
	r.Initialize().OnRequest(zreq(method.GET, "/a"))
	if s != "123" { t.Fatal(s) }
"""), mods=U)

RX = "router/inbuilt/internal/radix/"
def xsrc(body, extra=""):
    return """package radix

import (
	"fmt"
	"testing"

	"github.com/indigo-web/indigo/internal/keyvalue"
)

var _ = fmt.Sprint
%s
func TestDemo(t *testing.T) {
	kv := keyvalue.New()
	_ = kv
%s}
""" % (extra, body)
seed("b57-wide-level", "C32", "more literal siblings on one level than the array takes, and a path to the one that came first",
     "the first entry isn't carried over when a level's array is turned into a map",
     [(RX+"arrmap.go", "	for _, entry := range a.arr {\n		a.m[entry.Key] = entry.Node\n	}\n", "	for i := len(a.arr) - 1; i > 0; i-- {\n		a.m[a.arr[i].Key] = a.arr[i].Node\n	}\n")],
     RX[:-1], xsrc("""
	tree := New()
	for i := 0; i < 40; i++ {
		tree.MustInsert(MustParse(fmt.Sprintf("/s%d", i)), Payload{Allow: fmt.Sprint(i)})
	}
	for i := 0; i < 40; i++ {
		p := tree.Match(fmt.Sprintf("/s%d", i), kv)
		if p == nil || p.Allow != fmt.Sprint(i) { t.Fatal(i) }
	}
"""), mods=U)
seed("b58-anonymous-clash", "C32", "a named parameter and an anonymous one at the same place of two templates",
     "an anonymous parameter is accepted next to a named one and takes over its name, whose value isn't recorded any more",
     [(RX+"tree.go", "		if n.isWildcard && segment.Payload != n.wildcard {", "		if len(n.wildcard) > 0 && len(segment.Payload) > 0 && segment.Payload != n.wildcard {")],
     RX[:-1], xsrc("""
	tree := New()
	tree.MustInsert(MustParse("/{name}/a"), Payload{})
	if err := tree.Insert(MustParse("/{}/b"), Payload{}); err == nil {
		tree.Match("/x/a", kv)
		t.Fatal(kv.Value("name"))
	}
"""), mods=U)

seed("b59-dots-at-end", "C33", "a path whose last segment consists of two dots, or one with a backslash behind them",
     "only dots with a slash behind them are taken for a way out of the directory",
     [("router/inbuilt/static.go", "		if dot < len(path)-1 && path[dot+1] == '.' {\n", "		if dot < len(path)-2 && path[dot+1] == '.' && path[dot+2] == '/' {\n")],
     "router/inbuilt", rsrc("""
	for _, p := range []string{"/a/..", "/a/../b", "/a/..b", "/.../"} {
		if isSafe(p) { t.Fatal(p) }
	}
	if !isSafe("/a/./b.c") { t.Fatal() }
"""), mods=U)
seed("b60-separator-mixup", "C33", "a directory written with a separator other than the prefix's, longer than the prefix",
     "a directory longer than the prefix is put one byte too early in front of the rest of the path",
     [("internal/pathlib/pathlib.go", "		p.buff = make([]byte, offset+len(path))\n	}\n", "		p.buff = make([]byte, offset+len(path))\n	}\n	if len(p.replaceWith) > 2*len(p.prefix) && len(path) > len(p.prefix) && path[len(p.prefix)] == '.' {\n		path = path[1:]\n	}\n")],
     "internal/pathlib", """package pathlib
import "testing"
func TestDemo(t *testing.T) {
	p := NewPath("/a/", "/srv/data/files")
	p.Set("/a/.hidden")
	if s := p.Relative(); s != "/srv/data/files/.hidden" { t.Fatal(s) }
}
""", mods=U)

VT = "router/virtual/virtual.go"
def vsrc(body):
    return """package virtual
import (
	"testing"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	"github.com/indigo-web/indigo/router"
)
var _ = status.OK
type zf struct{ code status.Code }
func (z zf) Initialize() router.Router { return z }
func (z zf) OnRequest(q *http.Request) *http.Response { return q.Respond().Code(z.code) }
func (z zf) OnError(q *http.Request, _ error) *http.Response { return q.Respond().Code(z.code+1) }
func zreq(hosts ...string) *http.Request {
	request := construct.Request(config.Default(), dummy.NewNopClient(), nil)
	for _, host := range hosts { request.Headers.Add("Host", host) }
	return request
}
func TestDemo(t *testing.T) {
%s}
""" % body
seed("b61-port-blind", "C34", "two hosts that differ in their port only, the second one being asked for",
     "a host that has a router on another port is taken for it when the port of the request is longer",
     [(VT, "		if strcomp.EqualFold(virtRouter.Domain, host) {\n", "		if strcomp.EqualFold(virtRouter.Domain, host) || len(host) > len(virtRouter.Domain) && strcomp.EqualFold(virtRouter.Domain, domain.TrimPort(host)) {\n")],
     "router/virtual", vsrc("""
	r := New().Host("example.com", zf{200}).Host("example.com:8080", zf{300}).Initialize()
	if c := r.OnRequest(zreq("example.com:8080")).Reveal().Code; c != 300 { t.Fatal(c) }
	if c := r.OnRequest(zreq("example.com:80")).Reveal().Code; c != 200 { t.Fatal(c) }
"""), mods=U)
seed("b62-error-default", "C34", "an error of a request whose host has a router of its own, with a default router present",
     "errors are answered by the default router if there is one",
     [(VT, "	virtRouter, resp := r.getRouter(request)\n	if virtRouter == nil {\n		return resp\n	}\n\n	return virtRouter.OnError(request, err)", "	virtRouter, resp := r.getRouter(request)\n	if virtRouter == nil {\n		return resp\n	}\n\n	if err == status.ErrBadRequest && r.defaultRouter != nil {\n		virtRouter = r.defaultRouter\n	}\n\n	return virtRouter.OnError(request, err)")],
     "router/virtual", vsrc("""
	r := New().Host("example.com", zf{200}).Default(zf{300}).Initialize()
	if c := r.OnError(zreq("example.com"), status.ErrBadRequest).Reveal().Code; c != 201 { t.Fatal(c) }
"""), mods=U)

def asrc(body):
    return """
package indigo
import ("net"; "testing"; "time"; "sync/atomic"; "errors"; "io"; "github.com/indigo-web/indigo/http"; "github.com/indigo-web/indigo/http/encryption"; "github.com/indigo-web/indigo/router")
type zlistener struct{ stop chan struct{}; closed atomic.Bool }
func (l *zlistener) Accept() (net.Conn, error) { <-l.stop; return nil, net.ErrClosed }
func (l *zlistener) Close() error { if !l.closed.Swap(true) { close(l.stop) }; return nil }
func (l *zlistener) Addr() net.Addr { return nil }
type zrouter struct{ enc encryption.Token }
func (z *zrouter) Initialize() router.Router { return z }
func (z *zrouter) OnRequest(r *http.Request) *http.Response { z.enc = r.Env.Encryption; return http.Code(r, 200) }
func (z *zrouter) OnError(r *http.Request, err error) *http.Response { return http.Code(r, 500) }
var _ = errors.New
var _ = io.EOF
var _ = time.Second
func TestDemo(t *testing.T) {
%s}
""" % body
seed("b63-auto-plain", "C35", "an address with automatic certificates for a domain, and a handler that asks whether the connection is encrypted",
     "connections that are encrypted with a requested certificate are taken for plain ones",
     [("indi.go", "		Listen:  autoTLSListener(domains...),\n		Handler: a.newHTTPHandler(encryption.TLS),\n", "		Listen: autoTLSListener(domains...),\n")],
     ".", asrc("""
	a := New("127.0.0.1:0").AutoHTTPS("example.com:443", "example.com")
	cl, sv := net.Pipe()
	a.sources = a.sources[1:]
	z := &zrouter{enc: 255}
	served := make(chan struct{})
	go func() { h := a.sources[0].Handler; if h == nil { h = a.newHTTPHandler(encryption.Plain) }; h(sv, z); sv.Close(); close(served) }()
	cl.Write([]byte("GET / HTTP/1.1\\r\\nConnection: close\\r\\n\\r\\n"))
	io.ReadAll(cl)
	<-served
	if z.enc != encryption.TLS { t.Fatal(z.enc) }
"""), mods=U)
seed("b64-early-callback", "C35", "a graceful stop, with a callback that relies on nothing being served any more",
     "on a graceful stop the stop callback is called as soon as connections aren't accepted any more",
     [("indi.go", "	tcp.StopAll(servers)\n	callIfNotNil(a.hooks.OnStop)\n", "	onStop := a.hooks.OnStop\n	if err == status.ErrGracefulShutdown {\n		callIfNotNil(onStop)\n		onStop = nil\n	}\n\n	tcp.StopAll(servers)\n	callIfNotNil(onStop)\n")],
     ".", asrc("""
	l := &zlistener{stop: make(chan struct{})}
	early := make(chan bool, 1)
	a := New("127.0.0.1:0")
	a.sources = nil
	a.Listen("127.0.0.1:0", Listener{Listen: func(string, string) (net.Listener, error) { return l, nil }})
	a.OnStop(func() { early <- !l.closed.Load() })
	go a.Serve(&zrouter{})
	a.GracefulStop()
	if <-early { t.Fatal("called while listening") }
"""), mods=U)

def hsrc(body, extra=""):
    return """
package http
import ("testing"; "net"; "context"; "github.com/indigo-web/indigo/config"; "github.com/indigo-web/indigo/http/headers"; "github.com/indigo-web/indigo/http/query"; "github.com/indigo-web/indigo/http/proto"; "github.com/indigo-web/indigo/internal/keyvalue"%s)
type zclient struct{}
func (zclient) Read() ([]byte, error) { return nil, nil }
func (zclient) Unread([]byte) {}
func (zclient) Write([]byte) error { return nil }
func (zclient) Conn() net.Conn { return nil }
func (zclient) Remote() net.Addr { return nil }
func (zclient) Close() error { return nil }
type zbody struct{ Body; data string; err error }
func (zbody) Discard() error { return nil }
func (z zbody) Bytes() ([]byte, error) { return []byte(z.data), z.err }
func zreq() *Request {
	return NewRequest(config.Default(), headers.New(), query.New(keyvalue.New()), NewResponse(), zclient{}, &zbody{}, keyvalue.New())
}
var _ = context.Background
var _ = proto.HTTP11
func TestDemo(t *testing.T) {
%s}
""" % (extra, body)
seed("b65-sticky-upgrade", "C36", "a keep-alive connection whose first request asks for an upgrade and names a connection header, and whose second doesn't",
     "the upgrade a request asked for is still asked for by the next one",
     [("http/request.go", '	r.Connection = ""\n	r.Upgrade = proto.Unknown\n', '	if len(r.Connection) == 0 {\n		r.Upgrade = proto.Unknown\n	}\n	r.Connection = ""\n')],
     "http", hsrc("""
	r := zreq()
	r.Connection, r.Upgrade = "upgrade", proto.HTTP10
	if err := r.Clear(); err != nil { t.Fatal(err) }
	if r.Upgrade != proto.Unknown { t.Fatal(r.Upgrade) }
"""), mods=U)
seed("b66-sticky-te", "C36", "a response with a custom transfer encoding and an attachment, followed by one without",
     "the transfer encoding of a response with an attachment is kept for the next one",
     [("internal/response/fields.go", '	f.TransferEncoding = ""\n', '	if f.Attachment.Content() == nil {\n		f.TransferEncoding = ""\n	}\n')],
     "http", hsrc("""
	r := zreq()
	r.Respond().TransferEncoding("gzip").Attachment(strings.NewReader("x"), 1)
	if te := r.Respond().Reveal().TransferEncoding; te != "" { t.Fatal(te) }
""", extra='; "strings"'), mods=U)
seed("b67-key-space", "C37", "a configuration whose spaces for header keys and values differ",
     "the space for header keys is limited by that for values",
     [("internal/construct/constructors.go", "buffer.New(s.Headers.KeySpace.Default, s.Headers.KeySpace.Maximal)", "buffer.New(s.Headers.KeySpace.Default, s.Headers.ValueSpace.Maximal)")],
     "internal/construct", """
package construct
import ("testing"; "github.com/indigo-web/indigo/config")
func TestDemo(t *testing.T) {
	cfg := config.Default()
	cfg.Headers.KeySpace.Default, cfg.Headers.KeySpace.Maximal = 8, 16
	cfg.Headers.ValueSpace.Maximal = 1000
	k, _, _ := Buffers(cfg)
	if k.Append(make([]byte, 17)) { t.Fatal("too much was accepted") }
}
""", mods=U)

seed("b68-header-te-last", "C38", "a transfer encoding given as a header whose name isn't spelt in lower case",
     "a transfer encoding given as a header is repeated instead of replaced in other spellings",
     [("http/response.go", 'strcomp.EqualFold(key, "transfer-encoding")', 'key == "transfer-encoding" || key == "Transfer-Encoding"')],
     "http", hsrc("""
	f := zreq().Respond().Header("TRANSFER-encoding", "gzip").Reveal()
	if f.TransferEncoding != "gzip" || len(f.Headers) != 0 { t.Fatal(f.TransferEncoding, f.Headers) }
"""), mods=U)
seed("b69-json-after-write", "C38", "a JSON response on which a body was set before, and whose model can't be encoded",
     "the text of an error is put behind what was written before the failure",
     [("http/response.go", "	resp, err := r.TryJSON(model)\n	if err != nil {\n		return r.Error(err)\n	}\n", "	body := r.fields.Body\n	resp, err := r.TryJSON(model)\n	if err != nil {\n		r.Error(err)\n		r.fields.Body = append(body, r.fields.Body...)\n		return r\n	}\n")],
     "http", hsrc("""
	f := zreq().Respond().String("before").JSON(make(chan int)).Reveal()
	if strings.Contains(string(f.Body), "before") { t.Fatal(string(f.Body)) }
""", extra='; "strings"'), mods=U)
seed("b70-dotted-directory", "C39", "a directory whose name has an extension",
     "directories whose names look like files are attached",
     [("http/response.go", "	if stat.IsDir() {\n", '	if stat.IsDir() && filepath.Ext(path) == "" {\n')],
     "http", hsrc("""
	d := filepath.Join(t.TempDir(), "site.html")
	os.Mkdir(d, 0700)
	if _, err := zreq().Respond().TryFile(d); err == nil { t.Fatal("a directory was attached") }
""", extra='; "os"; "path/filepath"'), mods=U)
seed("b71-module-type", "C39", "a file with the extension of JavaScript modules",
     "JavaScript modules are typed so that browsers refuse to run them",
     [("http/mime/exts.go", '".mjs":  "text/javascript; charset=utf-8"', '".mjs":  "text/plain; charset=utf-8"')],
     "http/mime", """
package mime
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	if !strings.HasPrefix(Extension[".mjs"], "text/javascript") { t.Fatal(Extension[".mjs"]) }
}
""")

seed("b72-last-semicolon", "C40", "a header value with at least two parameters behind the one that is asked for",
     "a parameter's value swallows all the parameters behind it but the last",
     [("http/headers/valueaccessors.go", "func getParamEnd(str string) int {\n	if index := strings.IndexByte(str, ';')", "func getParamEnd(str string) int {\n	if index := strings.LastIndexByte(str, ';')")],
     "http/headers", """
package headers
import "testing"
func TestDemo(t *testing.T) {
	if v := ParamOf("multipart/form-data;boundary=abc;charset=utf8;q=0.5", "boundary"); v != "abc" { t.Fatal(v) }
	if v := CharsetOf("text/html;charset=utf8;q=0.5"); v != "utf8" { t.Fatal(v) }
}
""", mods=U)
seed("b73-stale-cookies", "C41", "a keep-alive connection with a request that brings cookies and whose handler reads them, followed by one that brings none",
     "a request without cookies is shown those of an earlier one",
     [("http/request.go", "	r.jar.Clear()\n\n", "	if r.Headers.Has(\"cookie\") {\n		r.jar.Clear()\n	}\n\n")],
     "http", hsrc("""
	r := zreq()
	r.Headers.Add("Cookie", "session=secret")
	jar, err := r.Cookies()
	if err != nil || jar.Value("session") != "secret" { t.Fatal(jar, err) }
	if err := r.Clear(); err != nil { t.Fatal(err) }
	jar, err = r.Cookies()
	if err != nil || jar.Has("session") { t.Fatal(jar, err) }
"""), mods=U)
seed("b74-hijack-failed", "C41", "a handler that hijacks a connection which fails while the rest of the body is read",
     "a failed hijack is reported, but the connection handed out and marked as hijacked nevertheless",
     [("http/request.go", "	if err := r.Body.Discard(); err != nil {\n		return nil, err\n	}\n\n	r.wasHijacked = true\n\n	return r.client, nil\n", "	r.wasHijacked = true\n\n	return r.client, r.Body.Discard()\n")],
     "http", hsrc("""
	r := zreq()
	r.Body = zbroken{}
	client, err := r.Hijack()
	if err == nil || client != nil || r.WasHijacked() { t.Fatal(client, err, r.WasHijacked()) }
	r.Body = zbody{}
	if client, err = r.Hijack(); err != nil || client == nil || !r.WasHijacked() { t.Fatal(client, err) }
}
type zbroken struct{ Body }
func (zbroken) Discard() error { return errors.New("broken") }
func zunused() {
""", extra='; "errors"'), mods=U)
seed("b75-secure-forever", "C42", "a cookie built from a template that is secure and made insecure afterwards",
     "an attribute of a built cookie can't be taken back",
     [("http/cookie/cookie.go", "	b.cookie.Secure = secure\n", "	b.cookie.Secure = b.cookie.Secure || secure\n")],
     "http/cookie", """
package cookie
import "testing"
func TestDemo(t *testing.T) {
	template := Build("a", "b").Secure(true).HttpOnly(true)
	if c := template.Secure(false).Cookie(); c.Secure || !c.HttpOnly { t.Fatal(c) }
	if c := template.Cookie(); !c.Secure { t.Fatal(c) }
}
""", mods=U)

seed("b76-recover-stale", "C43", "a handler that builds a part of its response and panics then",
     "a panic is answered by the response the handler had half built",
     [("router/inbuilt/middleware/recover.go", "			resp = http.Error(req, status.ErrInternalServerError)\n", "			if resp == nil {\n				resp = http.Error(req, status.ErrInternalServerError)\n			}\n"),
      ("router/inbuilt/middleware/recover.go", "	resp = next(req)\n	return\n", "	resp = req.Respond()\n	resp = next(req)\n	return\n")],
     "router/inbuilt/middleware", rsrc("""
	resp := Recover(func(r *http.Request) *http.Response { panic("no") }, zreq(method.GET, "/"))
	if resp.Reveal().Code != status.InternalServerError { t.Fatal(resp.Reveal().Code) }
	resp = Recover(func(r *http.Request) *http.Response { return http.Code(r, status.Teapot) }, zreq(method.GET, "/"))
	if resp.Reveal().Code != status.Teapot { t.Fatal(resp.Reveal().Code) }
""", pkg="middleware"), mods=U)
seed("b77-alias-of-alias", "C43", "an aliased path requested without encryption",
     "an aliased request is redirected to the internal path instead of the one that was requested",
     [("router/inbuilt/mutator/alias.go", "			request.Path = to\n			request.Env.AliasFrom = from\n", "			request.Path = to\n			request.Env.AliasFrom = request.Path\n")],
     "router/inbuilt/mutator", rsrc("""
	q := zreq(method.GET, "/public")
	Alias("/public", "/internal")(q)
	if q.Path != "/internal" || q.Env.AliasFrom != "/public" { t.Fatal(q.Path, q.Env.AliasFrom) }
	Alias("/other", "/x")(q)
	if q.Path != "/internal" || q.Env.AliasFrom != "/public" { t.Fatal(q.Path, q.Env.AliasFrom) }
	_ = http.Respond
""", pkg="mutator"), mods=U)
seed("b78-delete-char", "C44", "a path with the byte 0x7f",
     "the delete character is written to logs as it is",
     [("http/path.go", "return c >= 0x20 && c <= 0x7e", "return c >= 0x20 && c < 0x80")],
     "http", """
package http
import "testing"
func TestDemo(t *testing.T) {
	for b := 0; b < 256; b++ {
		got := Escape("/a" + string([]byte{byte(b)}) + "z")
		for i := 0; i < len(got); i++ {
			if got[i] < 0x20 || got[i] > 0x7e { t.Fatalf("%q", got) }
		}
	}
	if Escape("/plain path") != "/plain path" { t.Fatal(Escape("/plain path")) }
}
""", mods=U)
seed("b79-allow-current", "C45", "a request with a method that isn't registered for its path",
     "a method that isn't allowed is answered without naming those that are, if the error came from the handler",
     [("router/inbuilt/defaulterrhandlers.go", "		Error(status.ErrMethodNotAllowed).\n", "		Error(request.Env.Error, status.MethodNotAllowed).\n")],
     "router/inbuilt", rsrc("""
	h := newErrorHandlers()[status.MethodNotAllowed]
	q := zreq(method.GET, "/")
	q.Env.AllowedMethods = "POST"
	q.Env.Error = nil
	f := h(q).Reveal()
	if f.Code != status.MethodNotAllowed || len(f.Headers) != 1 || f.Headers[0].Value != "POST" { t.Fatal(f.Code, f.Headers) }
	_ = http.Respond
"""), mods=U)

seed("b80-pause-drops", "C01", "a connection that is accepted by the call that was in progress when the server was paused",
     "a connection accepted while the server is being paused is closed without being served",
     [("internal/tcp/server.go", "		s.wg.Add(1)\n		go s.connHandler(conn)", "		if s.shutdown.Load() {\n			_ = conn.Close()\n\n			return nil\n		}\n\n		s.wg.Add(1)\n		go s.connHandler(conn)")],
     "internal/tcp", '''
package tcp
import ("net"; "testing"; "sync/atomic")
type nopConn struct{ net.Conn }
func (nopConn) Close() error { return nil }
type lateListener struct{ s *Server; n int }
func (l *lateListener) Accept() (net.Conn, error) {
	if l.n++; l.n > 1 { return nil, net.ErrClosed }
	l.s.Pause()
	return nopConn{}, nil
}
func (l *lateListener) Close() error { return nil }
func (l *lateListener) Addr() net.Addr { return nil }
func TestDemo(t *testing.T) {
	var served atomic.Int32
	l := new(lateListener)
	l.s = NewServer(l, func(net.Conn) { served.Add(1) })
	_ = l.s.Start()
	l.s.Wait()
	if served.Load() != 1 { t.Fatal("the connection was not served") }
}
''')
seed("b81-deadline-both", "C03", "a response that is written later than the read timeout after the last read",
     "reading sets a deadline for writing, too, so that slow handlers can't answer",
     [("internal/tcp/client.go", "c.conn.SetReadDeadline(", "c.conn.SetDeadline(")],
     "internal/tcp", '''
package tcp
import ("net"; "testing"; "time")
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	c := NewClient(a, 50*time.Millisecond, make([]byte, 16))
	go func() { b.Write([]byte("hi")); buf := make([]byte, 16); b.Read(buf) }()
	if _, err := c.Read(); err != nil { t.Fatal(err) }
	time.Sleep(150*time.Millisecond)
	if err := c.Write([]byte("late")); err != nil { t.Fatal(err) }
}
''')
seed("b82-unread-copied", "C03", "pushed-back data longer than the read buffer",
     "data pushed back is copied into the read buffer and cut off where that ends",
     [("internal/tcp/client.go", "	c.pending = b\n", "	n := copy(c.buff, b)\n	c.pending = c.buff[:n]\n")],
     "internal/tcp", '''
package tcp
import ("testing"; "time")
func TestDemo(t *testing.T) {
	c := NewClient(nil, time.Second, make([]byte, 2))
	c.Unread([]byte("hello"))
	got, err := c.Read()
	if err != nil || string(got) != "hello" { t.Fatal(string(got), err) }
}
''')
seed("b83-decode-capacity", "C05", "a path with escapes that is longer than the buffer's capacity",
     "decoding refuses what the buffer has no room for instead of growing it",
     [("internal/uridecode/decoder.go", "		buff = append(buff, src[:i]...)\n", "		if cap(buff) > 0 && cap(buff)-len(buff) <= i {\n			return nil, status.ErrURIDecoding\n		}\n\n		buff = append(buff, src[:i]...)\n")],
     "internal/uridecode", '''
package uridecode
import "testing"
func TestDemo(t *testing.T) {
	got, err := Decode([]byte("/hello%20world"), make([]byte, 0, 4))
	if err != nil || string(got) != "/hello world" { t.Fatal(string(got), err) }
}
''')
seed("b84-map-empty-key", "C12", "an empty key, followed by the insertion of a longer one",
     "growing the map forgets the value of the empty key",
     [("internal/strlenmap/map.go", "	copy(newBuckets, m.buckets)\n", "	for i := len(m.buckets) - 1; i > 0; i-- {\n		newBuckets[i] = m.buckets[i]\n	}\n\n")],
     "internal/strlenmap", '''
package strlenmap
import "testing"
func TestDemo(t *testing.T) {
	m := New[int]()
	m.Insert("", 1)
	m.Insert("abc", 2)
	if v, found := m.Get(""); !found || v != 1 { t.Fatal(v, found) }
}
''')
seed("b85-alias-second", "C11", "a coding with state of its own, used by its name and by its x- alias",
     "the alias of a coding is another instance of it",
     [("http/coding/codings.go", '		m.codings["x-gzip"] = coding\n', '		m.codings["x-gzip"] = constructor(m.newBuffer())\n')],
     "http/coding", '''
package coding
import "testing"
type zc struct{ n int }
func (*zc) Token() string { return "gzip" }
func (z *zc) Encode(b []byte) ([]byte, error) { z.n++; return []byte{byte(z.n)}, nil }
func (z *zc) Decode(b []byte) ([]byte, error) { return b, nil }
func TestDemo(t *testing.T) {
	m := NewManager(16)
	m.AddCoding(func([]byte) Coding { return new(zc) })
	_, _ = m.Encode("gzip", []byte("a"))
	if out, err := m.Encode("x-gzip", []byte("a")); err != nil || out[0] != 2 { t.Fatal(out, err) }
}
''')
seed("b86-close-sized", "C13", "an empty attachment of a closable reader",
     "an attachment of size zero is not closed",
     [("internal/types/attachment.go", "	if closer, ok := a.content.(io.Closer); ok {", "	if closer, ok := a.content.(io.Closer); ok && a.size != 0 {")],
     "internal/types", '''
package types
import "testing"
type zr struct{ closed int }
func (*zr) Read([]byte) (int, error) { return 0, nil }
func (z *zr) Close() error { z.closed++; return nil }
func TestDemo(t *testing.T) {
	r := new(zr)
	NewAttachment(r, 0).Close()
	if r.closed != 1 { t.Fatal(r.closed) }
}
''')
seed("b87-ip-brackets", "C08", "an address whose host part isn't an IP address while the whole without its last colon is",
     "IPv6 addresses count as such although what is before their first colon does not parse",
     [("internal/address/address.go", "	return net.ParseIP(stripPort(addr)) != nil", "	host, _, err := net.SplitHostPort(addr)\n	if err != nil {\n		host = stripPort(addr)\n	}\n\n	return net.ParseIP(host) != nil")],
     "internal/address", '''
package address
import "testing"
func TestDemo(t *testing.T) {
	if IsIP("[::1]:80") { t.Fatal("the host part [ is no IP address") }
	if !IsIP("127.0.0.1:80") || !IsIP("127.0.0.1") { t.Fatal("not an IP") }
}
''')
seed("b88-error-once", "C04", "a reader that goes on after it got an error",
     "the error is reported once and the source is asked again",
     [("internal/stash/reader.go", "		err = r.error\n", "		err, r.error = r.error, nil\n")],
     "internal/stash", '''
package stash
import ("testing"; "io")
func TestDemo(t *testing.T) {
	n := 0
	r := New(func() ([]byte, error) { n++; return []byte("a"), io.EOF })
	b := make([]byte, 4)
	_, _ = r.Read(b)
	if k, err := r.Read(b); k != 0 || err != io.EOF || n != 1 { t.Fatal(k, err, n) }
}
''')
seed("b89-pause-deferred", "C02", "several servers with active connections, paused together",
     "the servers are paused only after all of them were waited for",
     [("internal/tcp/server.go", "		server.Pause()\n", "		defer server.Pause()\n")],
     "internal/tcp", '''
package tcp
import ("net"; "testing"; "time")
type stubConn struct{ net.Conn }
func (stubConn) Close() error { return nil }
type stubListener struct{ c chan net.Conn; dl chan struct{} }
func (l *stubListener) Accept() (net.Conn, error) { select { case c := <-l.c: return c, nil; case <-l.dl: return nil, net.ErrClosed } }
func (l *stubListener) Close() error { return nil }
func (l *stubListener) Addr() net.Addr { return nil }
func (l *stubListener) SetDeadline(time.Time) error { close(l.dl); return nil }
func TestDemo(t *testing.T) {
	l := &stubListener{make(chan net.Conn, 1), make(chan struct{})}
	entered, leave := make(chan struct{}), make(chan struct{})
	s := NewServer(l, func(net.Conn) { close(entered); <-leave })
	go s.Start()
	l.c <- stubConn{}
	<-entered
	go PauseAll([]*Server{s})
	defer close(leave)
	select {
	case <-l.dl:
	case <-time.After(3*time.Second): t.Fatal("not paused while a connection is active")
	}
}
''')
seed("b90-two-ports", "C07", "a host that ends with two default ports",
     "two default ports are stripped off, not one",
     [("router/virtual/internal/domain/normalize.go", "	for i := len(domain) - 1; i >= 0; i-- {", "	domain = strings.TrimSuffix(domain, \":443\")\n\n	for i := len(domain) - 1; i >= 0; i-- {")],
     "router/virtual/internal/domain", '''
package domain
import "testing"
func TestDemo(t *testing.T) {
	if got := Normalize("a:80:443"); got != "a:80" { t.Fatal(got) }
}
''')

if __name__ == "__main__":
    want = sys.argv[1:]
    for a, k in S:
        if not want or a[0] in want:
            make(*a, **k)
            print("made", a[0])
