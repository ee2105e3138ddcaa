"""A further batch of behaviour-preserving rewrites of the leaf packages: other library calls, recursion, generics."""
from refactors_leaf import T, C, ST, MP, UD, HX, UN, DN, AD, AT, CO, ME, SC, SE

WAITALL = '''	for _, server := range servers {
		server.Wait()
	}
'''
NORM = '''	for i := len(path) - 1; i > 0; i-- {
		if path[i] != '/' {
			return path[:i+1]
		}
	}

	if len(path) > 1 {
		path = path[:1]
	}

	return path
'''
STRIP = '''	colon := strings.IndexByte(addr, ':')
	if colon != -1 {
		return addr[:colon]
	}

	return addr
'''
DOM = '''	for i := len(domain) - 1; i >= 0; i-- {
		if domain[i] == '.' {
			break
		} else if domain[i] == ':' {
			switch port := domain[i+1:]; port {
			case "80", "443":
				// trim only default ports. Non-default must always be presented
				domain = domain[:i]
			}

			break
		}
	}

	return domain
'''
DEC = '''	for i := bytes.IndexByte(src, '%'); i != -1; i = bytes.IndexByte(src, '%') {
		if i >= len(src)-2 {
			return nil, status.ErrURIDecoding
		}

		if !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, src[:i]...)
		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
		src = src[i+3:]
	}

	if len(buff) == 0 {
		return src, nil
	}

	return append(buff, src...), nil
'''
LOOP = '''	for _, entry := range m.buckets[len(key)] {
		if entry.Key == key {
			return entry.Value, true
		}
	}

	return v, false
'''


def add(ref):
    ref("l2-tcp-wait-back", (T, WAITALL, '''	for i := len(servers) - 1; i >= 0; i-- {
		servers[i].Wait()
	}
'''))
    ref("l2-tcp-wait-shift", (T, WAITALL, '''	for len(servers) > 0 {
		servers[0].Wait()
		servers = servers[1:]
	}
'''))
    ref("l2-tcp-spawn", (T, '''		s.wg.Add(1)
		go s.connHandler(conn)
	}
''', '''		s.spawn(conn)
	}
'''), (T, "func (s *Server) connHandler(", '''func (s *Server) spawn(conn net.Conn) {
	s.wg.Add(1)
	handle := s.connHandler
	go handle(conn)
}

func (s *Server) connHandler('''))
    ref("l2-tcp-goto-free", (T, '''	for !s.shutdown.Load() {
		conn, err := s.sock.Accept()
		if err != nil {
			return err
		}

		s.wg.Add(1)
		go s.connHandler(conn)
	}

	return nil
''', '''	var err error

	for err == nil && !s.shutdown.Load() {
		var conn net.Conn

		if conn, err = s.sock.Accept(); err == nil {
			s.wg.Add(1)
			go s.connHandler(conn)
		}
	}

	return err
'''))
    ref("l2-tcp-handler-arg", (T, "		go s.connHandler(conn)\n", '''		go func(conn net.Conn, done func()) {
			defer done()
			defer func() { _ = conn.Close() }()

			s.onConn(conn)
		}(conn, s.wg.Done)
'''), (T, '''func (s *Server) connHandler(conn net.Conn) {
	s.onConn(conn)
	_ = conn.Close()
	s.wg.Done()
}

''', ''))
    ref("l2-tcp-deadline-var", (T, '''		// interrupt the listener RIGHT NOW
		_ = listener.SetDeadline(time.Now())
''', '''		now := time.Now()
		if err := listener.SetDeadline(now); err != nil {
			return
		}
'''))
    ref("l2-client-swap", (C, '''		pending := c.pending
		c.pending = nil

		return pending, nil
''', '''		var pending []byte
		pending, c.pending = c.pending, pending

		return pending, nil
'''))
    ref("l2-client-named", (C, "func (c *client) Read() ([]byte, error) {", "func (c *client) Read() (data []byte, err error) {"),
        (C, '''	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
		return nil, err
	}

	n, err := c.conn.Read(c.buff)

	return c.buff[:n], err
''', '''	deadline := time.Now().Add(c.timeout)
	if err = c.conn.SetReadDeadline(deadline); err != nil {
		return
	}

	var n int
	n, err = c.conn.Read(c.buff)
	data = c.buff[:n:n]

	return
'''))
    ref("l2-stash-named", (ST, '''	n = copy(b, r.pending)
	r.pending = r.pending[n:]

	if len(r.pending) == 0 && r.error != nil {
		err = r.error
	}

	return n, err
''', '''	n = copy(b, r.pending)

	if r.pending = r.pending[n:]; len(r.pending) != 0 {
		return n, nil
	}

	return n, r.error
'''))
    ref("l2-uri-func", (UN, NORM, '''	end := len(path)
	for end > 1 {
		if path[end-1] != '/' {
			break
		}

		end--
	}

	return path[:end]
'''))
    ref("l2-uri-trimsuffix", (UN, NORM, '''	for len(path) > 1 {
		trimmed := strings.TrimSuffix(path, "/")
		if len(trimmed) == len(path) {
			break
		}

		path = trimmed
	}

	return path
'''), (UN, "package uri\n", 'package uri\n\nimport "strings"\n'))
    ref("l2-uri-trimright", (UN, NORM, '''	if path == "" {
		return path
	}

	return path[:1] + strings.TrimRight(path[1:], "/")
'''), (UN, "package uri\n", 'package uri\n\nimport "strings"\n'))
    ref("l2-addr-splitn", (AD, STRIP, '''	return strings.SplitN(addr, ":", 2)[0]
'''))
    ref("l2-addr-split", (AD, STRIP, '''	return strings.Split(addr, ":")[0]
'''))
    ref("l2-addr-indexany", (AD, STRIP, '''	if colon := strings.IndexAny(addr, ":"); colon >= 0 {
		addr = addr[:colon]
	}

	return addr
'''))
    ref("l2-addr-indexfunc", (AD, STRIP, '''	if colon := strings.IndexRune(addr, ':'); colon >= 0 {
		return addr[:colon]
	}

	return addr
'''))
    ref("l2-addr-join", (AD, "		return DefaultAddr + addr\n", '		return strings.Join([]string{DefaultAddr, addr}, "")\n'))
    ref("l2-addr-sprintf", (AD, "		return DefaultAddr + addr\n", '		return fmt.Sprintf("%s%s", DefaultAddr, addr)\n'), (AD, '	"net"\n', '	"fmt"\n	"net"\n'))
    ref("l2-dom-switch", (DN, DOM, '''	switch {
	case strings.HasSuffix(domain, ":80"):
		return domain[:len(domain)-3]
	case strings.HasSuffix(domain, ":443"):
		return domain[:len(domain)-4]
	}

	return domain
'''))
    ref("l2-dom-ports", (DN, DOM, '''	for _, port := range defaultPorts {
		if strings.HasSuffix(domain, port) {
			return strings.TrimSuffix(domain, port)
		}
	}

	return domain
'''), (DN, "func Normalize(", '''var defaultPorts = [...]string{":80", ":443"}

func Normalize('''))
    ref("l2-dom-lastindex", (DN, DOM, '''	colon := strings.LastIndexByte(domain, ':')
	if colon == -1 {
		return domain
	}

	if isDefault(domain[colon+1:]) {
		return domain[:colon]
	}

	return domain
}

func isDefault(port string) bool {
	return port == "80" || port == "443"
'''))
    ref("l2-dom-map", (DN, DOM, '''	if colon := strings.LastIndex(domain, ":"); colon >= 0 && defaultPorts[domain[colon+1:]] {
		domain = domain[:colon]
	}

	return domain
'''), (DN, "func Normalize(", '''var defaultPorts = map[string]bool{
	"80":  true,
	"443": true,
}

func Normalize('''))
    ref("l2-dom-trim-split", (DN, '''	if colon := strings.IndexByte(domain, ':'); colon != -1 {
		return domain[:colon]
	}

	return domain
''', '''	host, _, _ := strings.Cut(domain, ":")

	return host
'''))
    ref("l2-dec-recursive", (UD, DEC, '''	i := bytes.IndexByte(src, '%')
	if i == -1 {
		if len(buff) == 0 {
			return src, nil
		}

		return append(buff, src...), nil
	}

	if len(src)-i < 3 || !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
		return nil, status.ErrURIDecoding
	}

	buff = append(append(buff, src[:i]...), hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))

	return Decode(src[i+3:], buff)
'''))
    ref("l2-dec-cut", (UD, DEC, '''	for {
		head, tail, found := bytes.Cut(src, []byte{'%'})
		if !found {
			break
		}

		char, err := unescape(tail)
		if err != nil {
			return nil, err
		}

		buff = append(buff, head...)
		buff = append(buff, char)
		src = tail[2:]
	}

	if len(buff) == 0 {
		return src, nil
	}

	return append(buff, src...), nil
}

func unescape(code []byte) (byte, error) {
	if len(code) < 2 {
		return 0, status.ErrURIDecoding
	}

	hi, lo := code[0], code[1]
	if !(hexconv.IsHex(hi) && hexconv.IsHex(lo)) {
		return 0, status.ErrURIDecoding
	}

	return hexconv.Parse(hi)*16 + hexconv.Parse(lo), nil
'''))
    ref("l2-dec-range", (UD, DEC, '''	if bytes.IndexByte(src, '%') == -1 && len(buff) == 0 {
		return src, nil
	}

	for i := 0; i < len(src); {
		char := src[i]
		if char != '%' {
			buff = append(buff, char)
			i++
			continue
		}

		if i+3 > len(src) {
			return nil, status.ErrURIDecoding
		}

		hi, lo := src[i+1], src[i+2]
		if !hexconv.IsHex(hi) || !hexconv.IsHex(lo) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, hexconv.Parse(hi)<<4+hexconv.Parse(lo))
		i += 3
	}

	return buff, nil
'''))
    ref("l2-hex-index", (HX, "	return char == '0' || decodeTable[char] != 0", '''	return strings.IndexByte("0123456789abcdefABCDEF", char) >= 0'''), (HX, "package hexconv\n", 'package hexconv\n\nimport "strings"\n'))
    ref("l2-hex-case", (HX, "	return decodeTable[char]\n", '''	if char >= 'A' && char <= 'F' {
		char += 'a' - 'A'
	}

	if char >= 'a' && char <= 'f' {
		return char - 'a' + 10
	}

	if char < '0' || char > '9' {
		return 0
	}

	return char - '0'
'''))
    ref("l2-map-slices", (MP, LOOP, '''	bucket := m.buckets[len(key)]
	i := bucket.find(key)
	if i < 0 {
		return v, false
	}

	return bucket[i].Value, true
}

func (b bucket[T]) find(key string) int {
	for i := range b {
		if b[i].Key == key {
			return i
		}
	}

	return -1
'''))
    ref("l2-map-named", (MP, LOOP, '''	bucket := m.buckets[len(key)]

	for i := 0; i < len(bucket) && !found; i++ {
		if found = bucket[i].Key == key; found {
			v = bucket[i].Value
		}
	}

	return v, found
'''))
    ref("l2-map-grow", (MP, '''	if len(m.buckets) <= len(key) {
		m.resize(len(key) + 1)
	}
''', '''	if need := len(key) + 1 - len(m.buckets); need > 0 {
		m.buckets = append(m.buckets, make([]bucket[T], need)...)
	}
'''), (MP, '''func (m *Map[T]) resize(n int) {
	newBuckets := make([]bucket[T], n)
	copy(newBuckets, m.buckets)
	m.buckets = newBuckets
}

''', ''))
    ref("l2-att-two", (AT, '''	if closer, ok := a.content.(io.Closer); ok {
		_ = closer.Close()
	}
''', '''	closer, ok := a.content.(io.Closer)
	if !ok {
		return
	}

	if err := closer.Close(); err != nil {
		return
	}
'''))
    ref("l2-att-helper", (AT, '''	if closer, ok := a.content.(io.Closer); ok {
		_ = closer.Close()
	}
''', '''	release(a.Content())
}

func release(v any) {
	switch c := v.(type) {
	case interface{ Close() error }:
		_ = c.Close()
	}
'''))
    ref("l2-cod-get", (CO, '''	switch coding.Token() {
	case "gzip":
		m.codings["x-gzip"] = coding
	case "compress":
		m.codings["x-compress"] = coding
	}
''', '''	if token := coding.Token(); token == "gzip" || token == "compress" {
		m.codings["x-"+token] = coding
	}
'''))
    ref("l2-cod-func", (CO, '''	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return coding.Encode(input)
''', '''	return m.apply(token, func(c Coding) ([]byte, error) {
		return c.Encode(input)
	})
'''), (CO, '''	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return coding.Decode(input)
''', '''	return m.apply(token, func(c Coding) ([]byte, error) {
		return c.Decode(input)
	})
'''), (CO, "func (m Manager) newBuffer()", '''func (m Manager) apply(token Token, f func(Coding) ([]byte, error)) ([]byte, error) {
	if coding, found := m.codings[token]; found {
		return f(coding)
	}

	return nil, ErrUnknownToken
}

func (m Manager) newBuffer()'''))
    ref("l2-method-first", (ME, "	switch len(str) {\n	case 3:", '''	if len(str) < 3 || len(str) > 7 {
		return Unknown
	}

	switch len(str) {
	case 3:'''))
    ref("l2-status-map", (SE, '''	return HTTPError{
		Code:    code,
		Message: message,
	}
''', '''	var e HTTPError
	e.Code, e.Message = code, message

	return e
'''))
