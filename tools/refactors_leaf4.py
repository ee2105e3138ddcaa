"""A fourth batch of behaviour-preserving rewrites of the leaf packages: other data structures and synchronisation."""
from refactors_leaf import T, C, ST, MP, UD, HX, UN, DN, AD, AT, CO, ME, SC, SE
from refactors_leaf import READ
from refactors_leaf2 import WAITALL, NORM, STRIP, DOM
from refactors_leaf3 import START, HANDLER, STOPALL, PAUSEALL, PAUSE, SREAD, GET, INSERT, DECODE, TRIM, ADD, ALIAS, ENC, DEC


def add(ref):
    ref("l4-tcp-mutex-flag", (T, "	shutdown atomic.Bool\n", "	mu       sync.Mutex\n	shutdown bool\n"),
        (T, '	"sync/atomic"\n', ''),
        (T, "	for !s.shutdown.Load() {", "	for !s.paused() {"),
        (T, "	s.shutdown.Store(true)\n", "	s.mu.Lock()\n	s.shutdown = true\n	s.mu.Unlock()\n"),
        (T, "// Wait blocks the caller", '''func (s *Server) paused() bool {
	s.mu.Lock()
	defer s.mu.Unlock()

	return s.shutdown
}

// Wait blocks the caller'''))
    ref("l4-tcp-accept-loop", (T, START, '''	return s.acceptLoop()
}

func (s *Server) acceptLoop() (err error) {
	for s.running() {
		var conn net.Conn

		if conn, err = s.sock.Accept(); err != nil {
			return err
		}

		s.track(conn)
	}

	return nil
}

func (s *Server) running() bool {
	return !s.shutdown.Load()
}

func (s *Server) track(conn net.Conn) {
	s.wg.Add(1)
	go s.connHandler(conn)
'''))
    ref("l4-tcp-one-defer", (T, HANDLER, '''	defer func() {
		_ = conn.Close()
		s.wg.Done()
	}()

	s.onConn(conn)
'''))
    ref("l4-tcp-tracker", (T, "	wg       *sync.WaitGroup\n", "	active   tracker\n"), (T, "		wg:     new(sync.WaitGroup),\n", ""),
        (T, "		s.wg.Add(1)\n", "		s.active.enter()\n"), (T, "	s.wg.Done()\n", "	s.active.leave()\n"), (T, "	s.wg.Wait()\n", "	s.active.wait()\n"),
        (T, "func NewServer(", '''type tracker struct {
	group sync.WaitGroup
}

func (t *tracker) enter() { t.group.Add(1) }
func (t *tracker) leave() { t.group.Done() }
func (t *tracker) wait()  { t.group.Wait() }

func NewServer('''))
    ref("l4-tcp-back", (T, STOPALL, '''	for i := len(servers) - 1; i >= 0; i-- {
		_ = servers[i].Stop()
	}

	WaitAll(servers)
'''))
    ref("l4-tcp-group-type", (T, STOPALL, '''	group(servers).stop()
	group(servers).wait()
'''), (T, PAUSEALL, '''	group(servers).pause()
	group(servers).wait()
'''), (T, WAITALL, '''	group(servers).wait()
'''), (T, "func StopAll(", '''type group []*Server

func (g group) stop() {
	for _, server := range g {
		_ = server.Stop()
	}
}

func (g group) pause() {
	for _, server := range g {
		server.Pause()
	}
}

func (g group) wait() {
	for _, server := range g {
		server.Wait()
	}
}

func StopAll('''))
    ref("l4-tcp-interrupt", (T, PAUSE, '''	interrupt(s.sock)
'''), (T, "// Wait blocks the caller", '''func interrupt(l net.Listener) {
	d, ok := l.(Deadliner)
	if !ok {
		return
	}

	_ = d.SetDeadline(time.Now())
}

// Wait blocks the caller'''))
    ref("l4-client-embedded", (C, '''type client struct {
	conn    net.Conn
	buff    []byte
	pending []byte
	timeout time.Duration
}
''', '''type client struct {
	conn    net.Conn
	in      input
	timeout time.Duration
}

type input struct {
	buff    []byte
	pending []byte
}

func (i *input) take() []byte {
	pending := i.pending
	i.pending = nil

	return pending
}
'''), (C, '''	return &client{
		buff:    buff,
''', '''	return &client{
		in:      input{buff: buff},
'''), (C, READ, '''	if len(c.in.pending) > 0 {
		return c.in.take(), nil
	}

	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
		return nil, err
	}

	n, err := c.conn.Read(c.in.buff)

	return c.in.buff[:n], err
'''), (C, "	return c.pending\n", "	return c.in.pending\n"), (C, "	c.pending = b\n", "	c.in.pending = b\n"))
    ref("l4-client-write-named", (C, '''func (c *client) Write(b []byte) error {
	_, err := c.conn.Write(b)

	return err
}''', '''func (c *client) Write(b []byte) (err error) {
	if _, err = c.conn.Write(b); err != nil {
		return err
	}

	return nil
}'''))
    ref("l4-stash-chunk", (ST, '''	pending []byte
	error   error
}
''', '''	last    piece
}

type piece struct {
	data []byte
	err  error
}
'''), (ST, SREAD, '''	if len(r.last.data) == 0 && r.last.err == nil {
		r.refill()
	}

	n = copy(b, r.last.data)
	r.last.data = r.last.data[n:]

	if len(r.last.data) == 0 && r.last.err != nil {
		err = r.last.err
	}

	return n, err
'''), (ST, "	r.pending, r.error = r.source()\n", "	r.last.data, r.last.err = r.source()\n"),
        (ST, '''	r.pending = nil
	r.error = nil
''', '''	r.last = piece{}
'''))
    ref("l4-stash-early", (ST, SREAD, '''	if len(r.pending) == 0 {
		if r.error != nil {
			return 0, r.error
		}

		r.refill()
	}

	n = copy(b, r.pending)
	r.pending = r.pending[n:]

	if len(r.pending) > 0 {
		return n, nil
	}

	return n, r.error
'''))
    ref("l4-stash-serve", (ST, SREAD, '''	if r.needsMore() {
		r.refill()
	}

	n = r.serve(b)
	if len(r.pending) == 0 {
		err = r.error
	}

	return n, err
}

func (r *Reader) needsMore() bool {
	return r.error == nil && len(r.pending) == 0
}

func (r *Reader) serve(b []byte) int {
	n := copy(b, r.pending)
	r.pending = r.pending[n:]

	return n
'''))
    ref("l4-map-local-len", (MP, INSERT, '''	length := len(key)
	if length >= len(m.buckets) {
		m.resize(length + 1)
	}

	entries := m.buckets[length]
	entries = append(entries, buckEntry[T]{Key: key, Value: value})
	m.buckets[length] = entries
'''))
    ref("l4-map-make-cap", (MP, '''	newBuckets := make([]bucket[T], n)
	copy(newBuckets, m.buckets)
	m.buckets = newBuckets
''', '''	missing := n - len(m.buckets)
	m.buckets = append(m.buckets, make([]bucket[T], missing)...)
'''))
    ref("l4-dec-fast", (UD, "	for i := bytes.IndexByte(src, '%'); i != -1", '''	if len(buff) == 0 && bytes.IndexByte(src, '%') == -1 {
		return src, nil
	}

	for i := bytes.IndexByte(src, '%'); i != -1'''))
    ref("l4-dec-errors", (UD, '''		if i >= len(src)-2 {
			return nil, status.ErrURIDecoding
		}

		if !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, src[:i]...)
		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
''', '''		char, err := decodeEscape(src[i:])
		if err != nil {
			return nil, err
		}

		buff = append(buff, src[:i]...)
		buff = append(buff, char)
'''), (UD, "// Decode normalizes", '''func decodeEscape(esc []byte) (byte, error) {
	if len(esc) <= 2 {
		return 0, status.ErrURIDecoding
	}

	a, b := esc[1], esc[2]
	if hexconv.IsHex(a) && hexconv.IsHex(b) {
		return hexconv.Parse(a)<<4 | hexconv.Parse(b), nil
	}

	return 0, status.ErrURIDecoding
}

// Decode normalizes'''))
    ref("l4-dec-pos", (UD, '	"bytes"\n', ''), (UD, DECODE, '''	start := 0

	for pos := 0; pos < len(src); pos++ {
		if src[pos] != '%' {
			continue
		}

		if pos+2 >= len(src) || !hexconv.IsHex(src[pos+1]) || !hexconv.IsHex(src[pos+2]) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, src[start:pos]...)
		buff = append(buff, hexconv.Parse(src[pos+1])<<4|hexconv.Parse(src[pos+2]))
		pos += 2
		start = pos + 1
	}

	if len(buff) == 0 {
		return src[start:], nil
	}

	return append(buff, src[start:]...), nil
'''))
    ref("l4-hex-signed", (HX, "	return decodeTable[char]\n", '''	if v := digit(char); v >= 0 {
		return byte(v)
	}

	return 0
'''), (HX, "	return char == '0' || decodeTable[char] != 0\n", '''	return digit(char) != -1
}

func digit(char byte) int8 {
	if char == '0' {
		return 0
	}

	if v := decodeTable[char]; v != 0 {
		return int8(v)
	}

	return -1
'''))
    ref("l4-uri-suffix-loop", (UN, "package uri\n", 'package uri\n\nimport "strings"\n'), (UN, NORM, '''	for len(path) > 1 && strings.HasSuffix(path, "/") {
		path = strings.TrimSuffix(path, "/")
	}

	return path
'''))
    ref("l4-uri-recursive", (UN, NORM, '''	if last := len(path) - 1; last > 0 && path[last] == '/' {
		return Normalize(path[:last])
	}

	return path
'''))
    ref("l4-uri-lastfunc", (UN, "package uri\n", 'package uri\n\nimport "strings"\n'), (UN, NORM, '''	if trimmed := strings.TrimRight(path, "/"); len(trimmed) > 0 {
		return trimmed
	}

	if len(path) == 0 {
		return ""
	}

	return path[:1]
'''))
    ref("l4-dom-cutlast", (DN, DOM, '''	colon := strings.LastIndex(domain, ":")
	if colon < 0 {
		return domain
	}

	if port := domain[colon+1:]; port == "80" || port == "443" {
		return domain[:colon]
	}

	return domain
'''))
    ref("l4-dom-stages", (DN, '''	if strings.HasPrefix(domain, "www.") {
		domain = domain[len("www."):]
	}

''' + DOM, '''	return trimDefaultPort(strings.TrimPrefix(domain, "www."))
}

func trimDefaultPort(domain string) string {
	for _, suffix := range []string{":80", ":443"} {
		if strings.HasSuffix(domain, suffix) {
			return strings.TrimSuffix(domain, suffix)
		}
	}

	return domain
'''))
    ref("l4-addr-prefix", (AD, '''	if len(stripPort(addr)) == 0 {
		// only port is presented
		return DefaultAddr + addr
	}

	return addr
''', '''	host := stripPort(addr)
	if host != "" {
		return addr
	}

	return strings.Join([]string{DefaultAddr, addr}, "")
'''))
    ref("l4-addr-shared", (AD, '''	return strings.EqualFold(stripPort(addr), "localhost")
''', '''	return isName(stripPort(addr), "localhost")
'''), (AD, STRIP, '''	for i := 0; i < len(addr); i++ {
		if addr[i] == ':' {
			return addr[:i]
		}
	}

	return addr
}

func isName(host, name string) bool {
	return strings.EqualFold(name, host)
'''))
    ref("l4-cod-register", (CO, ADD, '''	coding := constructor(m.newBuffer())
	m.register(coding.Token(), coding)
'''), (CO, ALIAS, '''	if alias := aliasOf(coding.Token()); alias != "" {
		m.register(alias, coding)
	}
'''), (CO, "func (m Manager) newBuffer()", '''func (m Manager) register(token Token, coding Coding) {
	m.codings[token] = coding
}

func aliasOf(token Token) Token {
	switch token {
	case "gzip", "compress":
		return "x-" + token
	default:
		return ""
	}
}

func (m Manager) newBuffer()'''))
    ref("l4-cod-lookup-err", (CO, ENC, '''	if token == identity || len(input) == 0 {
		return input, nil
	}

	coding, err := m.lookup(token)
	if err != nil {
		return nil, err
	}

	output, err = coding.Encode(input)

	return output, err
'''), (CO, DEC, '''	if token == identity || len(input) == 0 {
		return input, nil
	}

	coding, err := m.lookup(token)
	if err != nil {
		return nil, err
	}

	output, err = coding.Decode(input)

	return output, err
'''), (CO, "func (m Manager) newBuffer()", '''func (m Manager) lookup(token Token) (Coding, error) {
	if coding := m.codings[token]; coding != nil {
		return coding, nil
	}

	return nil, ErrUnknownToken
}

func (m Manager) newBuffer()'''))
    ref("l4-method-first-byte", (ME, "	switch len(str) {\n	case 3:", '''	if len(str) == 0 {
		return Unknown
	}

	switch first := str[0]; {
	case first < 'C' || first > 'T':
		return Unknown
	}

	switch len(str) {
	case 3:'''))
    ref("l4-att-noop", (AT, '''	if closer, ok := a.content.(io.Closer); ok {
		_ = closer.Close()
	}
''', '''	if c := a.closer(); c != nil {
		_ = c.Close()
	}
}

func (a Attachment) closer() io.Closer {
	if closer, ok := a.content.(io.Closer); ok {
		return closer
	}

	return nil
'''))
