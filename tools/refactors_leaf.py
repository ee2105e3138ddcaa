"""More behaviour-preserving rewrites of the packages nothing else is needed for."""

T, C = "internal/tcp/server.go", "internal/tcp/client.go"
ST, MP, UD, HX = "internal/stash/reader.go", "internal/strlenmap/map.go", "internal/uridecode/decoder.go", "internal/hexconv/hexconv.go"
UN, DN, AD, AT = "router/inbuilt/uri/normalize.go", "router/virtual/internal/domain/normalize.go", "internal/address/address.go", "internal/types/attachment.go"
CO, ME, SC, SE = "http/coding/codings.go", "http/method/method.go", "http/status/codes.go", "http/status/errors.go"

READ = '''	if len(c.pending) > 0 {
		pending := c.pending
		c.pending = nil

		return pending, nil
	}

	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
		return nil, err
	}

	n, err := c.conn.Read(c.buff)

	return c.buff[:n], err
'''
SREAD = '''	if len(r.pending) == 0 && r.error == nil {
		r.refill()
	}

	n = copy(b, r.pending)
	r.pending = r.pending[n:]

	if len(r.pending) == 0 && r.error != nil {
		err = r.error
	}

	return n, err
'''
START = '''	for !s.shutdown.Load() {
		conn, err := s.sock.Accept()
		if err != nil {
			return err
		}

		s.wg.Add(1)
		go s.connHandler(conn)
	}

	return nil
'''
DEC = '''	for i := bytes.IndexByte(src, '%'); i != -1; i = bytes.IndexByte(src, '%') {
		if i >= len(src)-2 {
			return nil, status.ErrURIDecoding
		}

		if !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, src[:i]...)
		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
		src = src[i+3:]
	}
'''
UNB = '''	for i := len(path) - 1; i > 0; i-- {
		if path[i] != '/' {
			return path[:i+1]
		}
	}

	if len(path) > 1 {
		path = path[:1]
	}

	return path
'''
DNB = '''	for i := len(domain) - 1; i >= 0; i-- {
		if domain[i] == '.' {
			break
		} else if domain[i] == ':' {
			switch port := domain[i+1:]; port {
			case "80", "443":
				// trim only default ports. Non-default must always be presented
				domain = domain[:i]
			}

			break
		}
	}

	return domain
'''

def add(ref):
    # tcp server
    ref("lf-tcp-label", (T, START, '''loop:
	for {
		switch {
		case s.shutdown.Load():
			break loop
		default:
		}

		conn, err := s.sock.Accept()
		if err != nil {
			return err
		}

		s.wg.Add(1)
		go s.connHandler(conn)
	}

	return nil
'''), props=["C01", "C02"])
    ref("lf-tcp-accept-helper", (T, START, '''	for !s.shutdown.Load() {
		if err := s.acceptOne(); err != nil {
			return err
		}
	}

	return nil
'''), (T, "func (s *Server) connHandler", '''func (s *Server) acceptOne() error {
	conn, err := s.sock.Accept()
	if err == nil {
		s.wg.Add(1)
		go s.connHandler(conn)
	}

	return err
}

func (s *Server) connHandler'''), props=["C01", "C02"])
    ref("lf-tcp-track", (T, START, '''	for running := !s.shutdown.Load(); running; running = !s.shutdown.Load() {
		conn, err := s.sock.Accept()
		if err != nil {
			return err
		}

		s.track()
		go func() {
			s.onConn(conn)
			s.release(conn)
		}()
	}

	return nil
'''), (T, '''func (s *Server) connHandler(conn net.Conn) {
	s.onConn(conn)
	_ = conn.Close()
	s.wg.Done()
}
''', '''func (s *Server) track() {
	s.wg.Add(1)
}

func (s *Server) release(conn net.Conn) {
	_ = conn.Close()
	s.wg.Done()
}
'''), props=["C01", "C02"])
    ref("lf-tcp-pause-assert", (T, '''	s.shutdown.Store(true)

	if listener, ok := s.sock.(Deadliner); ok {
		// interrupt the listener RIGHT NOW
		_ = listener.SetDeadline(time.Now())
	}
''', '''	s.shutdown.Store(true)

	listener, ok := s.sock.(Deadliner)
	if !ok {
		return
	}

	now := time.Now()
	if err := listener.SetDeadline(now); err != nil {
		return
	}
'''), props=["C01", "C02"])
    ref("lf-tcp-pause-inline-iface", (T, "	if listener, ok := s.sock.(Deadliner); ok {", "	if listener, ok := s.sock.(interface{ SetDeadline(time.Time) error }); ok {"), props=["C01", "C02"])
    ref("lf-tcp-swap", (T, "	s.shutdown.Store(true)\n", "	_ = s.shutdown.Swap(true)\n"), props=["C01", "C02"])
    ref("lf-tcp-done-neg", (T, "	s.wg.Done()\n", "	s.wg.Add(-1)\n"), props=["C01", "C02"])
    ref("lf-tcp-int-flag", (T, "	shutdown atomic.Bool\n", "	shutdown atomic.Uint32\n"), (T, "!s.shutdown.Load()", "s.shutdown.Load() == 0"), (T, "s.shutdown.Store(true)", "s.shutdown.Store(1)"), props=["C01", "C02"])
    ref("lf-tcp-all-recursive-free", (T, '''func PauseAll(servers []*Server) {
	for _, server := range servers {
		server.Pause()
	}

	WaitAll(servers)
}
''', '''func PauseAll(servers []*Server) {
	signal(servers, (*Server).Pause)
	WaitAll(servers)
}

func signal(servers []*Server, how func(*Server)) {
	for _, server := range servers {
		how(server)
	}
}
'''), props=["C01", "C02"])
    ref("lf-tcp-stop-err", (T, "		_ = server.Stop()\n", "		if err := server.Stop(); err != nil {\n			continue\n		}\n"), props=["C01", "C02"])
    ref("lf-tcp-names", (T, "wg       *sync.WaitGroup\n	sock     net.Listener\n	onConn   OnConn", "active   *sync.WaitGroup\n	listener net.Listener\n	callback OnConn"),
        (T, "		wg:     new(sync.WaitGroup),\n		sock:   sock,\n		onConn: onConn,\n", "		active:   new(sync.WaitGroup),\n		listener: sock,\n		callback: onConn,\n"),
        (T, "s.sock.Accept()", "s.listener.Accept()"), (T, "s.wg.Add(1)", "s.active.Add(1)"), (T, "return s.sock.Close()", "return s.listener.Close()"), (T, "s.sock.(Deadliner)", "s.listener.(Deadliner)"),
        (T, "s.wg.Wait()", "s.active.Wait()"), (T, "s.onConn(conn)", "s.callback(conn)"), (T, "s.wg.Done()", "s.active.Done()"), props=["C01", "C02"])
    # client
    ref("lf-client-take", (C, READ, '''	if pending := c.take(); len(pending) > 0 {
		return pending, nil
	}

	deadline := time.Now().Add(c.timeout)
	err := c.conn.SetReadDeadline(deadline)
	if err != nil {
		return nil, err
	}

	n, err := c.conn.Read(c.buff)

	return c.buff[:n], err
'''), (C, "// Pending returns", '''func (c *client) take() (data []byte) {
	data, c.pending = c.pending, nil

	return data
}

// Pending returns'''), props=["C03"])
    ref("lf-client-nested", (C, READ, '''	if len(c.pending) == 0 {
		return c.read()
	}

	data := c.pending
	c.Unread(nil)

	return data, nil
}

func (c *client) read() (data []byte, err error) {
	if err = c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err == nil {
		var n int
		n, err = c.conn.Read(c.buff)
		data = c.buff[:n]
	}

	return data, err
'''), props=["C03"])
    ref("lf-client-write", (C, '''	_, err := c.conn.Write(b)

	return err
''', '''	if _, err := c.conn.Write(b); err != nil {
		return err
	}

	return nil
'''), (C, '''	return c.conn.RemoteAddr()
''', '''	return c.Conn().RemoteAddr()
'''), props=["C03"])
    ref("lf-client-defer", (C, READ, '''	if len(c.pending) != 0 {
		defer c.Unread(nil)

		return c.pending, nil
	}

	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
		return nil, err
	}

	n, err := c.conn.Read(c.buff)

	return c.buff[:n], err
'''), props=["C03"])
    # stash
    ref("lf-stash-branches", (ST, SREAD, '''	if len(r.pending) == 0 {
		if r.error != nil {
			return 0, r.error
		}

		r.pending, r.error = r.source()
	}

	n = copy(b, r.pending)
	if r.pending = r.pending[n:]; len(r.pending) > 0 {
		return n, nil
	}

	return n, r.error
'''), (ST, '''func (r *Reader) refill() {
	r.pending, r.error = r.source()
}

''', ""), props=["C04"])
    ref("lf-stash-locals", (ST, SREAD, '''	pending, failure := r.pending, r.error
	if len(pending) == 0 && failure == nil {
		pending, failure = r.source()
	}

	n = copy(b, pending)
	r.pending, r.error = pending[n:], failure

	if len(r.pending) == 0 {
		err = failure
	}

	return n, err
'''), (ST, '''func (r *Reader) refill() {
	r.pending, r.error = r.source()
}

''', ""), props=["C04"])
    ref("lf-stash-empty-helper", (ST, SREAD, '''	if r.empty() && r.error == nil {
		r.refill()
	}

	n = copy(b, r.pending)
	r.pending = r.pending[n:]

	if r.empty() {
		return n, r.error
	}

	return n, nil
'''), (ST, "func (r *Reader) refill", "func (r *Reader) empty() bool { return len(r.pending) == 0 }\n\nfunc (r *Reader) refill"), props=["C04"])
    ref("lf-stash-reset-slice", (ST, "	r.pending = nil\n	r.error = nil\n", "	r.pending, r.error = r.pending[:0], nil\n"), props=["C04"])
    # strlenmap
    ref("lf-map-guard", (MP, '''	if len(key) >= len(m.buckets) {
		return v, false
	}

	for _, entry := range m.buckets[len(key)] {
		if entry.Key == key {
			return entry.Value, true
		}
	}

	return v, false
''', '''	if size := len(key); size < len(m.buckets) {
		b := m.buckets[size]
		for i := range b {
			if b[i].Key == key {
				v, found = b[i].Value, true
				break
			}
		}
	}

	return v, found
'''), props=["C12"])
    ref("lf-map-bucket-method", (MP, '''	for _, entry := range m.buckets[len(key)] {
		if entry.Key == key {
			return entry.Value, true
		}
	}

	return v, false
''', '''	return m.buckets[len(key)].get(key)
'''), (MP, "type buckEntry[T any] struct {", '''func (b bucket[T]) get(key string) (v T, found bool) {
	for _, entry := range b {
		if entry.Key != key {
			continue
		}

		return entry.Value, true
	}

	return v, false
}

type buckEntry[T any] struct {'''), props=["C12"])
    ref("lf-map-ptr", (MP, '''	m.buckets[len(key)] = append(m.buckets[len(key)], buckEntry[T]{
		Key:   key,
		Value: value,
	})
''', '''	b := &m.buckets[len(key)]
	*b = append(*b, buckEntry[T]{Key: key, Value: value})
'''), props=["C12"])
    ref("lf-map-resize-loop", (MP, '''	newBuckets := make([]bucket[T], n)
	copy(newBuckets, m.buckets)
	m.buckets = newBuckets
''', '''	for len(m.buckets) < n {
		m.buckets = append(m.buckets, nil)
	}
'''), props=["C12"])
    ref("lf-map-resize-append", (MP, '''	newBuckets := make([]bucket[T], n)
	copy(newBuckets, m.buckets)
	m.buckets = newBuckets
''', '''	m.buckets = append(m.buckets, make([]bucket[T], n-len(m.buckets))...)
'''), props=["C12"])
    # uridecode / hexconv
    ref("lf-dec-if-chain", (UD, DEC, '''	for {
		i := bytes.IndexByte(src, '%')
		if i == -1 {
			break
		}

		if len(src)-i < 3 || !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
			return nil, status.ErrURIDecoding
		}

		char := hexconv.Parse(src[i+1])<<4 | hexconv.Parse(src[i+2])
		buff = append(append(buff, src[:i]...), char)
		src = src[i+3:]
	}
'''), props=["C05"])
    ref("lf-dec-helper", (UD, DEC, '''	for i := bytes.IndexByte(src, '%'); i >= 0; i = bytes.IndexByte(src, '%') {
		char, ok := unescape(src[i+1:])
		if !ok {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, src[:i]...)
		buff = append(buff, char)
		src = src[i+3:]
	}
'''), (UD, "// Decode normalizes", '''func unescape(digits []byte) (char byte, ok bool) {
	if len(digits) < 2 {
		return 0, false
	}

	hi, lo := digits[0], digits[1]
	if hexconv.IsHex(hi) && hexconv.IsHex(lo) {
		return hexconv.Parse(hi)*16 + hexconv.Parse(lo), true
	}

	return 0, false
}

// Decode normalizes'''), props=["C05"])
    ref("lf-dec-offset", (UD, DEC + '''
	if len(buff) == 0 {
		return src, nil
	}

	return append(buff, src...), nil
''', '''	offset := 0

	for i := 0; i < len(src); i++ {
		if src[i] != '%' {
			continue
		}

		if i+2 >= len(src) || !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, src[offset:i]...)
		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
		i += 2
		offset = i + 1
	}

	return append(buff, src[offset:]...), nil
'''), (UD, '	"bytes"\n', ""), props=["C05"])
    ref("lf-hex-range", (HX, "	return char == '0' || decodeTable[char] != 0\n", '''	switch {
	case '0' <= char && char <= '9':
		return true
	case 'a' <= char && char <= 'f', 'A' <= char && char <= 'F':
		return true
	default:
		return false
	}
'''), props=["C05"])
    ref("lf-hex-lower", (HX, "	return decodeTable[char]\n", '''	if char >= '0' && char <= '9' {
		return char - '0'
	}

	char |= 0x20
	if char >= 'a' && char <= 'f' {
		return char - 'a' + 10
	}

	return 0
'''), props=["C05"])
    # uri
    ref("lf-uri-recursive-free", (UN, UNB, '''	end := len(path)
	for end > 1 && path[end-1] == '/' {
		end--
	}

	return path[:end]
'''), props=["C06"])
    ref("lf-uri-trimright", ("router/inbuilt/uri/normalize.go", "package uri\n", 'package uri\n\nimport "strings"\n'), (UN, UNB, '''	if path == "" {
		return path
	}

	return path[:1] + strings.TrimRight(path[1:], "/")
'''), props=["C06"])
    ref("lf-uri-switch", (UN, UNB, '''	for i := len(path); i > 1; i-- {
		if path[i-1] != '/' {
			return path[:i]
		}
	}

	switch len(path) {
	case 0:
		return ""
	default:
		return path[:1]
	}
'''), props=["C06"])
    # domain
    ref("lf-dom-trimprefix", (DN, '''	if strings.HasPrefix(domain, "www.") {
		domain = domain[len("www."):]
	}

''' + DNB, '''	domain = strings.TrimPrefix(domain, "www.")

	switch {
	case strings.HasSuffix(domain, ":80"):
		return domain[:len(domain)-3]
	case strings.HasSuffix(domain, ":443"):
		return domain[:len(domain)-4]
	}

	return domain
'''), props=["C07"])
    ref("lf-dom-index", (DN, DNB, '''	colon := strings.LastIndexByte(domain, ':')
	if colon == -1 {
		return domain
	}

	if port := domain[colon+1:]; port != "80" && port != "443" {
		return domain
	}

	return domain[:colon]
'''), props=["C07"])
    ref("lf-dom-return", (DN, DNB, '''	for i := len(domain) - 1; i >= 0 && domain[i] != '.'; i-- {
		if domain[i] != ':' {
			continue
		}

		if isDefault(domain[i+1:]) {
			return domain[:i]
		}

		return domain
	}

	return domain
'''), (DN, "func TrimPort", '''func isDefault(port string) bool {
	return port == "80" || port == "443"
}

func TrimPort'''), props=["C07"])
    ref("lf-dom-cutprefix", (DN, '''	if strings.HasPrefix(domain, "www.") {
		domain = domain[len("www."):]
	}
''', '''	if len(domain) >= 4 && domain[:4] == "www." {
		domain = domain[4:]
	}
'''), (DN, '''	if colon := strings.IndexByte(domain, ':'); colon != -1 {
		return domain[:colon]
	}

	return domain
}
''', '''	colon := strings.Index(domain, ":")
	if colon < 0 {
		return domain
	}

	return domain[:colon]
}
'''), props=["C07"])
    # address
    ref("lf-addr-scan", (AD, '''	colon := strings.IndexByte(addr, ':')
	if colon != -1 {
		return addr[:colon]
	}

	return addr
''', '''	for i := 0; i < len(addr); i++ {
		if addr[i] == ':' {
			return addr[:i]
		}
	}

	return addr
'''), (AD, "	return net.ParseIP(stripPort(addr)) != nil\n", "	ip := net.ParseIP(stripPort(addr))\n\n	return ip != nil\n"), props=["C08"])
    ref("lf-addr-cases", (AD, '''	if len(stripPort(addr)) == 0 {
		// only port is presented
		return DefaultAddr + addr
	}

	return addr
''', '''	if addr == "" || addr[0] == ':' {
		// only port is presented
		return DefaultAddr + addr
	}

	return addr
'''), (AD, '	return strings.EqualFold(stripPort(addr), "localhost")\n', '	host := stripPort(addr)\n\n	return strings.EqualFold("localhost", host)\n'), props=["C08"])
    ref("lf-addr-lower", (AD, 'strings.EqualFold(stripPort(addr), "localhost")', 'strings.ToLower(stripPort(addr)) == "localhost"'), props=["C08"])
    # attachment
    ref("lf-att-guard", (AT, '''	if closer, ok := a.content.(io.Closer); ok {
		_ = closer.Close()
	}
''', '''	closer, ok := a.content.(io.Closer)
	if !ok {
		return
	}

	if err := closer.Close(); err != nil {
		return
	}
'''), (AT, '''	return Attachment{
		content: content,
		size:    size,
	}
''', '''	var a Attachment
	a.content, a.size = content, size

	return a
'''), props=["C13"])
    # coding
    ref("lf-cod-operate", (CO, '''	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return coding.Encode(input)
''', '''	return m.with(token, input, Coding.Encode)
'''), (CO, '''	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return coding.Decode(input)
}
''', '''	return m.with(token, input, Coding.Decode)
}

func (m Manager) with(token Token, input []byte, how func(Coding, []byte) ([]byte, error)) ([]byte, error) {
	if coding, found := m.codings[token]; found {
		return how(coding, input)
	}

	return nil, ErrUnknownToken
}
'''), props=["C11"])
    ref("lf-cod-switch", (CO, '''	if token == identity || len(input) == 0 {
		return input, nil
	}

	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return coding.Encode(input)
''', '''	switch {
	case len(input) == 0, token == identity:
		return input, nil
	}

	if coding := m.codings[token]; coding != nil {
		return coding.Encode(input)
	}

	return nil, ErrUnknownToken
'''), props=["C11"])
    ref("lf-cod-aliases", (CO, '''	m.codings[coding.Token()] = coding

	// this exists''', '''	token := coding.Token()
	m.codings[token] = coding

	// this exists'''), (CO, '''	switch coding.Token() {
	case "gzip":
		m.codings["x-gzip"] = coding
	case "compress":
		m.codings["x-compress"] = coding
	}
''', '''	if token == "gzip" || token == "compress" {
		m.codings["x-"+token] = coding
	}
'''), props=["C11"])
    ref("lf-cod-table", (CO, '''	switch coding.Token() {
	case "gzip":
		m.codings["x-gzip"] = coding
	case "compress":
		m.codings["x-compress"] = coding
	}
''', '''	if alias, has := aliases[coding.Token()]; has {
		m.codings[alias] = coding
	}
'''), (CO, "type Token = string\n", 'type Token = string\n\nvar aliases = map[Token]Token{"gzip": "x-gzip", "compress": "x-compress"}\n'), props=["C11"])
    # method
    ref("lf-method-loop", (ME, '''	switch len(str) {
	case 3:
		if str == "GET" {
			return GET
		} else if str == "PUT" {
			return PUT
		}
	case 4:
		if str == "POST" {
			return POST
		} else if str == "HEAD" {
			return HEAD
		}
	case 5:
		if str == "PATCH" {
			return PATCH
		} else if str == "TRACE" {
			return TRACE
		}
	case 6:
		if str == "DELETE" {
			return DELETE
		}
	case 7:
		if str == "CONNECT" {
			return CONNECT
		} else if str == "OPTIONS" {
			return OPTIONS
		}
	}

	return Unknown
''', '''	for _, m := range List {
		if m.String() == str {
			return m
		}
	}

	return Unknown
'''), props=["C09"])
    ref("lf-method-helper", (ME, '''		if str == "GET" {
			return GET
		} else if str == "PUT" {
			return PUT
		}
	case 4:
''', '''		return either(str, GET, "GET", PUT, "PUT")
	case 4:
'''), (ME, "func Parse(", '''func either(str string, a Method, as string, b Method, bs string) Method {
	switch str {
	case as:
		return a
	case bs:
		return b
	default:
		return Unknown
	}
}

func Parse('''), props=["C09"])
    # status
    ref("lf-status-error-ptr", (SE, '''	return HTTPError{
		Code:    code,
		Message: message,
	}
''', '''	var err HTTPError
	err.Code = code
	err.Message = message

	return err
'''), props=["C10"])
    ref("lf-status-if", (SC, '''func Text(code Code) Status {
	switch code {
	case Continue:
		return "Continue"
''', '''func Text(code Code) Status {
	if code == Continue {
		return "Continue"
	}

	switch code {
'''), props=["C10"])
