"""A third batch of behaviour-preserving rewrites of the leaf packages."""
from refactors_leaf import T, C, ST, MP, UD, HX, UN, DN, AD, AT, CO, ME, SC, SE
from refactors_leaf import READ
from refactors_leaf2 import WAITALL, NORM, STRIP, DOM

START = '''	for !s.shutdown.Load() {
		conn, err := s.sock.Accept()
		if err != nil {
			return err
		}

		s.wg.Add(1)
		go s.connHandler(conn)
	}

	return nil
'''
HANDLER = '''	s.onConn(conn)
	_ = conn.Close()
	s.wg.Done()
'''
STOPALL = '''	for _, server := range servers {
		_ = server.Stop()
	}

	WaitAll(servers)
'''
PAUSEALL = '''	for _, server := range servers {
		server.Pause()
	}

	WaitAll(servers)
'''
PAUSE = '''	if listener, ok := s.sock.(Deadliner); ok {
		// interrupt the listener RIGHT NOW
		_ = listener.SetDeadline(time.Now())
	}
'''
SREAD = '''	if len(r.pending) == 0 && r.error == nil {
		r.refill()
	}

	n = copy(b, r.pending)
	r.pending = r.pending[n:]

	if len(r.pending) == 0 && r.error != nil {
		err = r.error
	}

	return n, err
'''
GET = '''	if len(key) >= len(m.buckets) {
		return v, false
	}

	for _, entry := range m.buckets[len(key)] {
		if entry.Key == key {
			return entry.Value, true
		}
	}

	return v, false
'''
INSERT = '''	if len(m.buckets) <= len(key) {
		m.resize(len(key) + 1)
	}

	m.buckets[len(key)] = append(m.buckets[len(key)], buckEntry[T]{
		Key:   key,
		Value: value,
	})
'''
DECODE = '''	for i := bytes.IndexByte(src, '%'); i != -1; i = bytes.IndexByte(src, '%') {
		if i >= len(src)-2 {
			return nil, status.ErrURIDecoding
		}

		if !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, src[:i]...)
		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
		src = src[i+3:]
	}

	if len(buff) == 0 {
		return src, nil
	}

	return append(buff, src...), nil
'''
TRIM = '''	if colon := strings.IndexByte(domain, ':'); colon != -1 {
		return domain[:colon]
	}

	return domain
'''
ADD = '''	coding := constructor(m.newBuffer())
	m.codings[coding.Token()] = coding
'''
ALIAS = '''	switch coding.Token() {
	case "gzip":
		m.codings["x-gzip"] = coding
	case "compress":
		m.codings["x-compress"] = coding
	}
'''
ENC = '''	if token == identity || len(input) == 0 {
		return input, nil
	}

	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return coding.Encode(input)
'''
DEC = ENC.replace("Encode", "Decode")


def add(ref):
    # --- tcp
    ref("l3-tcp-each-method", (T, STOPALL, '''	each(servers, func(s *Server) { _ = s.Stop() })
	each(servers, (*Server).Wait)
'''), (T, PAUSEALL, '''	each(servers, (*Server).Pause)
	each(servers, (*Server).Wait)
'''), (T, WAITALL, '''	each(servers, (*Server).Wait)
'''), (T, "func WaitAll(", '''func each(servers []*Server, f func(*Server)) {
	for i := range servers {
		f(servers[i])
	}
}

func WaitAll('''))
    ref("l3-tcp-value-wg", (T, "	wg       *sync.WaitGroup\n", "	wg       sync.WaitGroup\n"), (T, "		wg:     new(sync.WaitGroup),\n", ""))
    ref("l3-tcp-switch-pause", (T, PAUSE, '''	switch listener := s.sock.(type) {
	case Deadliner:
		now := time.Now()
		// interrupt the listener RIGHT NOW
		_ = listener.SetDeadline(now)
	}
'''))
    ref("l3-tcp-closure-conn", (T, START, '''	for {
		if s.shutdown.Load() {
			return nil
		}

		conn, err := s.sock.Accept()
		switch {
		case err != nil:
			return err
		default:
			s.serve(conn)
		}
	}
'''), (T, "func (s *Server) connHandler(", '''func (s *Server) serve(conn net.Conn) {
	s.wg.Add(1)

	go func(c net.Conn) {
		s.connHandler(c)
	}(conn)
}

func (s *Server) connHandler('''))
    ref("l3-tcp-local-wg", (T, HANDLER, '''	wg := s.wg
	s.onConn(conn)

	if err := conn.Close(); err != nil {
		_ = err
	}

	wg.Done()
'''))
    ref("l3-tcp-add-neg", (T, HANDLER, '''	handle := s.onConn
	handle(conn)
	_ = conn.Close()
	s.wg.Add(-1)
'''))
    ref("l3-tcp-stop-named", (T, '''func (s *Server) Stop() error {
	return s.sock.Close()
}''', '''func (s *Server) Stop() (err error) {
	err = s.sock.Close()

	return err
}'''))
    ref("l3-tcp-guard-all", (T, STOPALL, '''	if len(servers) == 0 {
		return
	}

	for i := 0; i < len(servers); i++ {
		server := servers[i]
		_ = server.Stop()
	}

	WaitAll(servers)
'''))
    ref("l3-tcp-reslice-all", (T, PAUSEALL, '''	rest := servers
	for len(rest) > 0 {
		rest[0].Pause()
		rest = rest[1:]
	}

	WaitAll(servers)
'''))
    ref("l3-tcp-new-fields", (T, '''	return &Server{
		wg:     new(sync.WaitGroup),
		sock:   sock,
		onConn: onConn,
	}
''', '''	s := new(Server)
	s.sock = sock
	s.onConn = onConn
	s.wg = &sync.WaitGroup{}

	return s
'''))
    ref("l3-client-deadline-helper", (C, '''	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
		return nil, err
	}
''', '''	if err := c.touch(); err != nil {
		return nil, err
	}
'''), (C, "// Pending returns stored", '''func (c *client) touch() error {
	deadline := time.Now().Add(c.timeout)

	return c.conn.SetReadDeadline(deadline)
}

// Pending returns stored'''))
    ref("l3-client-take", (C, READ, '''	if pending, ok := c.take(); ok {
		return pending, nil
	}

	return c.receive()
'''), (C, "// Pending returns stored", '''func (c *client) take() (data []byte, ok bool) {
	data, c.pending = c.pending, nil

	return data, len(data) != 0
}

func (c *client) receive() ([]byte, error) {
	err := c.conn.SetReadDeadline(time.Now().Add(c.timeout))
	if err != nil {
		return nil, err
	}

	var n int
	n, err = c.conn.Read(c.buff)
	data := c.buff[:n]

	return data, err
}

// Pending returns stored'''))
    ref("l3-client-switch", (C, READ, '''	switch pending := c.pending; len(pending) {
	default:
		c.pending = nil

		return pending, nil
	case 0:
	}

	now := time.Now()
	if err := c.conn.SetReadDeadline(now.Add(c.timeout)); err != nil {
		return nil, err
	}

	n, err := c.conn.Read(c.buff)
	if err != nil {
		return c.buff[:n], err
	}

	return c.buff[:n], nil
'''))
    ref("l3-client-empty-slice", (C, "		c.pending = nil\n", "		c.pending = c.pending[:0]\n"))
    # --- stash
    ref("l3-stash-whole-reset", (ST, '''	r.pending = nil
	r.error = nil
''', '''	*r = Reader{source: r.source}
'''))
    ref("l3-stash-helper-done", (ST, SREAD, '''	if r.drained() && r.error == nil {
		r.pending, r.error = r.source()
	}

	n = copy(b, r.pending)
	r.pending = r.pending[n:]

	if !r.drained() {
		return n, nil
	}

	return n, r.error
'''), (ST, '''func (r *Reader) refill() {
	r.pending, r.error = r.source()
}
''', '''func (r *Reader) drained() bool {
	return len(r.pending) == 0
}
'''))
    ref("l3-stash-switch", (ST, SREAD, '''	switch {
	case r.error != nil:
	case len(r.pending) != 0:
	default:
		r.refill()
	}

	n = copy(b, r.pending)

	if r.pending = r.pending[n:]; len(r.pending) == 0 {
		err = r.error
	}

	return
'''))
    ref("l3-stash-min", (ST, "	n = copy(b, r.pending)\n", '''	n = len(b)
	if len(r.pending) < n {
		n = len(r.pending)
	}

	copy(b[:n], r.pending[:n])
'''))
    # --- map
    ref("l3-map-find", (MP, GET, '''	if entry := m.find(key); entry != nil {
		return entry.Value, true
	}

	return v, false
'''), (MP, "func (m *Map[T]) resize(", '''func (m *Map[T]) find(key string) *buckEntry[T] {
	if len(m.buckets) <= len(key) {
		return nil
	}

	same := m.buckets[len(key)]
	for i := range same {
		if same[i].Key == key {
			return &same[i]
		}
	}

	return nil
}

func (m *Map[T]) resize('''))
    ref("l3-map-index", (MP, GET, '''	length := len(key)
	if length < len(m.buckets) {
		b := m.buckets[length]

		for i := 0; i < len(b); i++ {
			if key == b[i].Key {
				v, found = b[i].Value, true

				return
			}
		}
	}

	return
'''))
    ref("l3-map-break", (MP, GET, '''	if len(key) >= len(m.buckets) {
		return v, false
	}

	for _, entry := range m.buckets[len(key)] {
		if entry.Key != key {
			continue
		}

		v = entry.Value
		found = true

		break
	}

	return v, found
'''))
    ref("l3-map-new-helper", (MP, INSERT, '''	m.ensure(len(key))

	b := &m.buckets[len(key)]
	entry := buckEntry[T]{key, value}
	*b = append(*b, entry)
'''), (MP, "func (m *Map[T]) resize(", '''func (m *Map[T]) ensure(length int) {
	if length < len(m.buckets) {
		return
	}

	m.resize(length + 1)
}

func (m *Map[T]) resize('''))
    ref("l3-map-double", (MP, "		m.resize(len(key) + 1)\n", '''		size := len(m.buckets) * 2
		if size <= len(key) {
			size = len(key) + 1
		}

		m.resize(size)
'''))
    # --- decoder
    ref("l3-dec-bytewise", (UD, DECODE, '''	if bytes.IndexByte(src, '%') == -1 && len(buff) == 0 {
		return src, nil
	}

	for i := 0; i < len(src); i++ {
		char := src[i]

		if char == '%' {
			if len(src)-i < 3 || !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
				return nil, status.ErrURIDecoding
			}

			char = hexconv.Parse(src[i+1])<<4 | hexconv.Parse(src[i+2])
			i += 2
		}

		buff = append(buff, char)
	}

	return buff, nil
'''))
    ref("l3-dec-while", (UD, DECODE, '''	i := bytes.IndexByte(src, '%')
	for i >= 0 {
		char, ok := unescape(src[i+1:])
		if !ok {
			return nil, status.ErrURIDecoding
		}

		buff = append(append(buff, src[:i]...), char)
		src = src[i+3:]
		i = bytes.IndexByte(src, '%')
	}

	if len(buff) > 0 {
		return append(buff, src...), nil
	}

	return src, nil
}

func unescape(digits []byte) (char byte, ok bool) {
	if len(digits) < 2 {
		return 0, false
	}

	hi, lo := digits[0], digits[1]
	if !hexconv.IsHex(hi) || !hexconv.IsHex(lo) {
		return 0, false
	}

	return hexconv.Parse(hi)<<4 | hexconv.Parse(lo), true
'''))
    ref("l3-dec-arith", (UD, "hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2])", "hexconv.Parse(src[i+1])*16+hexconv.Parse(src[i+2])"))
    ref("l3-dec-endless", (UD, DECODE, '''	for {
		i := bytes.IndexByte(src, '%')
		if i == -1 {
			break
		}

		rest := src[i+1:]
		if len(rest) < 2 || !isEscape(rest) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, src[:i]...)
		value := hexconv.Parse(rest[0]) << 4
		value |= hexconv.Parse(rest[1])
		buff = append(buff, value)
		src = rest[2:]
	}

	if len(buff) == 0 {
		return src, nil
	}

	return append(buff, src...), nil
}

func isEscape(b []byte) bool {
	return hexconv.IsHex(b[0]) && hexconv.IsHex(b[1])
'''))
    # --- hexconv
    ref("l3-hex-init", (HX, '''func Parse(char byte) byte {
	return decodeTable[char]
}''', '''func Parse(char byte) byte {
	value := decodeTable[char]

	return value
}'''), (HX, "	return char == '0' || decodeTable[char] != 0\n", '''	switch {
	case char == '0':
		return true
	default:
		return decodeTable[char] > 0
	}
'''))
    ref("l3-hex-ranges-both", (HX, "	return char == '0' || decodeTable[char] != 0\n", '''	if char >= '0' && char <= '9' {
		return true
	}

	lower := char | 0x20

	return lower >= 'a' && lower <= 'f'
'''), (HX, "	return decodeTable[char]\n", '''	switch {
	case char >= '0' && char <= '9':
		return char - '0'
	case char >= 'a' && char <= 'f':
		return char - 'a' + 10
	case char >= 'A' && char <= 'F':
		return char - 'A' + 10
	default:
		return 0
	}
'''))
    # --- uri
    ref("l3-uri-cut", (UN, NORM, '''	end := len(path)
	for end > 1 && path[end-1] == '/' {
		end--
	}

	return path[:end]
'''))
    ref("l3-uri-shrink", (UN, NORM, '''	for len(path) > 1 {
		last := len(path) - 1
		if path[last] != '/' {
			break
		}

		path = path[:last]
	}

	return path
'''))
    ref("l3-uri-empty-first", (UN, NORM, '''	if path == "" {
		return path
	}

	i := len(path) - 1
	for ; i > 0; i-- {
		if path[i] != '/' {
			break
		}
	}

	return path[:i+1]
'''))
    ref("l3-uri-first-kept", (UN, "package uri\n", 'package uri\n\nimport "strings"\n'), (UN, NORM, '''	if len(path) < 2 {
		return path
	}

	return path[:1] + strings.TrimRight(path[1:], "/")
'''))
    # --- domain
    ref("l3-dom-port-helper", (DN, DOM, '''	if i := lastColon(domain); i != -1 && isDefault(domain[i+1:]) {
		domain = domain[:i]
	}

	return domain
'''), (DN, "func TrimPort(", '''func lastColon(domain string) int {
	for i := len(domain) - 1; i >= 0 && domain[i] != '.'; i-- {
		if domain[i] == ':' {
			return i
		}
	}

	return -1
}

func isDefault(port string) bool {
	return port == "80" || port == "443"
}

func TrimPort('''))
    ref("l3-dom-suffix", (DN, DOM, '''	switch {
	case strings.HasSuffix(domain, ":80"):
		return domain[:len(domain)-len(":80")]
	case strings.HasSuffix(domain, ":443"):
		return strings.TrimSuffix(domain, ":443")
	}

	return domain
'''))
    ref("l3-dom-cut-port", (DN, TRIM, '''	host, _, _ := strings.Cut(domain, ":")

	return host
'''))
    ref("l3-dom-loop-port", (DN, TRIM, '''	for i, char := range domain {
		if char == ':' {
			return domain[:i]
		}
	}

	return domain
'''))
    # --- address
    ref("l3-addr-norm", (AD, '''	if len(stripPort(addr)) == 0 {
		// only port is presented
		return DefaultAddr + addr
	}

	return addr
''', '''	if addr == "" || addr[0] == ':' {
		addr = DefaultAddr + addr
	}

	return addr
'''))
    ref("l3-addr-host", (AD, STRIP, '''	if host, _, found := strings.Cut(addr, ":"); found {
		return host
	}

	return addr
'''), (AD, '''	return net.ParseIP(stripPort(addr)) != nil
''', '''	ip := net.ParseIP(stripPort(addr))
	if ip == nil {
		return false
	}

	return true
'''))
    ref("l3-addr-local", (AD, '''	return strings.EqualFold(stripPort(addr), "localhost")
''', '''	const localhost = "localhost"
	host := stripPort(addr)

	return len(host) == len(localhost) && strings.EqualFold(host, localhost)
'''))
    # --- attachment
    ref("l3-att-switch", (AT, '''	if closer, ok := a.content.(io.Closer); ok {
		_ = closer.Close()
	}
''', '''	switch content := a.content.(type) {
	case io.Closer:
		_ = content.Close()
	default:
	}
'''))
    ref("l3-att-split", (AT, '''	if closer, ok := a.content.(io.Closer); ok {
		_ = closer.Close()
	}
''', '''	closer, ok := a.Content().(io.Closer)
	if !ok {
		return
	}

	if err := closer.Close(); err != nil {
		return
	}
'''))
    # --- codings
    ref("l3-cod-alias-map", (CO, ADD, '''	coding := constructor(make([]byte, m.buffSize))
	token := coding.Token()
	m.codings[token] = coding
'''), (CO, ALIAS, '''	if alias, found := legacy[token]; found {
		m.codings[alias] = coding
	}
'''), (CO, '''func (m Manager) newBuffer() []byte {
	return make([]byte, m.buffSize)
}
''', '''var legacy = map[Token]Token{
	"gzip":     "x-gzip",
	"compress": "x-compress",
}
'''))
    ref("l3-cod-concat", (CO, ALIAS, '''	if token := coding.Token(); token == "gzip" || token == "compress" {
		m.codings["x-"+token] = coding
	}
'''))
    ref("l3-cod-skip", (CO, ENC, '''	if noop(token, input) {
		return input, nil
	}

	if coding, found := m.codings[token]; found {
		return coding.Encode(input)
	}

	return nil, ErrUnknownToken
'''), (CO, DEC, '''	if noop(token, input) {
		return input, nil
	}

	if coding, found := m.codings[token]; found {
		return coding.Decode(input)
	}

	return nil, ErrUnknownToken
'''), (CO, "func (m Manager) newBuffer()", '''func noop(token Token, input []byte) bool {
	if len(input) == 0 {
		return true
	}

	return token == identity
}

func (m Manager) newBuffer()'''))
    ref("l3-cod-method-value", (CO, ENC, '''	if token == identity || len(input) == 0 {
		return input, nil
	}

	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return run(coding.Encode, input)
'''), (CO, DEC, '''	if token == identity || len(input) == 0 {
		return input, nil
	}

	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return run(coding.Decode, input)
'''), (CO, "func (m Manager) newBuffer()", '''func run(f func([]byte) ([]byte, error), input []byte) ([]byte, error) {
	return f(input)
}

func (m Manager) newBuffer()'''))
    # --- method
    ref("l3-method-switch", (ME, '''	switch len(str) {
	case 3:
		if str == "GET" {
			return GET
		} else if str == "PUT" {
			return PUT
		}
	case 4:
		if str == "POST" {
			return POST
		} else if str == "HEAD" {
			return HEAD
		}
	case 5:
		if str == "PATCH" {
			return PATCH
		} else if str == "TRACE" {
			return TRACE
		}
	case 6:
		if str == "DELETE" {
			return DELETE
		}
	case 7:
		if str == "CONNECT" {
			return CONNECT
		} else if str == "OPTIONS" {
			return OPTIONS
		}
	}

	return Unknown
''', '''	for i := len(List) - 1; i >= 0; i-- {
		if m := List[i]; m.String() == str {
			return m
		}
	}

	return Unknown
'''))
    # --- status
    ref("l3-status-new", (SE, '''	return HTTPError{
		Code:    code,
		Message: message,
	}
''', '''	err := HTTPError{Message: message}
	err.Code = code

	return err
'''))
    ref("l3-status-line-split", (SC, "func Line(code Code) string {\n", '''func Line(code Code) string {
	if code == OK {
		return "200 OK\\r\\n"
	}

'''))
