"""A fifth batch of behaviour-preserving rewrites of the leaf packages: tables built in other ways, other idioms."""
import re
from refactors_leaf import T, C, ST, MP, UD, HX, UN, DN, AD, AT, CO, ME, SC, SE
from refactors_leaf import READ
from refactors_leaf2 import WAITALL, NORM, STRIP, DOM
from refactors_leaf3 import START, HANDLER, STOPALL, PAUSEALL, PAUSE, SREAD, GET, INSERT, DECODE, TRIM, ADD, ALIAS, ENC, DEC

MX = "http/mime/exts.go"
MS = "http/method/method_string.go"


def body(path, start, end=None):
    s = open("/repo/" + path).read()
    i = s.index(start)
    return s[i:] if end is None else s[i:s.index(end, i)]


def add(ref):
    exts = re.findall(r'\t("\.\w+"):\s+("[^"]*"),', open("/repo/" + MX).read())
    whole = body(MX, "var Extension")
    ref("l5-mime-init", (MX, whole, "var Extension = make(map[string]string)\n\nfunc init() {\n" + "".join(f"\tExtension[{k}] = {v}\n" for k, v in exts) + "}\n"))
    ref("l5-mime-func", (MX, whole, "var Extension = extensions()\n\nfunc extensions() map[string]string {\n\treturn map[string]string{\n" + "".join(f"\t\t{k}: {v},\n" for k, v in exts) + "\t}\n}\n"))
    ref("l5-mime-const", (MX, whole, 'const utf8 = "; charset=utf-8"\n\n' + re.sub(r'"([^"]*); charset=utf-8"', r'"\1" + utf8', whole)))
    ref("l5-mime-list", (MX, whole, "var Extension = index([][2]string{\n" + "".join(f"\t{{{k}, {v}}},\n" for k, v in exts) + '''})

func index(pairs [][2]string) map[string]string {
	m := make(map[string]string, len(pairs))
	for _, pair := range pairs {
		m[pair[0]] = pair[1]
	}

	return m
}
'''))
    s = open("/repo/" + SC).read()
    texts = re.findall(r'case (\w+):\n\t\treturn ("[^"]*")', s[:s.index("func Line(")])
    tf = s[s.index("	switch code {"):s.index("// Line returns")]
    ref("l5-status-array", (SC, tf, '''	if int(code) < len(texts) && texts[code] != "" {
		return texts[code]
	}

	return "Unknown Status Code"
}

var texts = [...]Status{
''' + "".join(f"\t{a}: {b},\n" for a, b in texts) + "}\n\n"))
    ref("l5-status-named", (SC, tf, "	text := Status(\"Unknown Status Code\")\n\n	switch code {\n" + "".join(f"\tcase {a}:\n\t\ttext = {b}\n" for a, b in texts) + "	}\n\n	return text\n}\n\n"))
    ref("l5-status-pairs", (SC, tf, '''	for _, known := range texts {
		if known.code == code {
			return known.text
		}
	}

	return "Unknown Status Code"
}

var texts = []struct {
	code Code
	text Status
}{
''' + "".join(f"\t{{{a}, {b}}},\n" for a, b in texts) + "}\n\n"))
    ref("l5-err-func", (SE, '''	return HTTPError{
		Code:    code,
		Message: message,
	}
''', '''	var h HTTPError
	h.Code, h.Message = code, message

	return h
'''))
    parse = body(ME, "func Parse(")
    ref("l5-method-map", (ME, parse, '''var byName = map[string]Method{
	"GET": GET, "HEAD": HEAD, "POST": POST, "PUT": PUT, "DELETE": DELETE,
	"CONNECT": CONNECT, "OPTIONS": OPTIONS, "TRACE": TRACE, "PATCH": PATCH,
}

func Parse(str string) Method {
	return byName[str]
}
'''))
    ref("l5-method-map-init", (ME, parse, '''var byName = make(map[string]Method, Count)

func init() {
	for _, m := range List {
		byName[m.String()] = m
	}
}

func Parse(str string) Method {
	if m, found := byName[str]; found {
		return m
	}

	return Unknown
}
'''))
    ref("l5-method-string-names", (MS, body(MS, "const _Method_name"), '''var names = [...]string{"Unknown", "GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

func (i Method) String() string {
	if int(i) < len(names) {
		return names[i]
	}

	return "Method(" + strconv.Itoa(int(i)) + ")"
}
'''))
    table = body(HX, "var decodeTable", "// Parse")
    funcs = body(HX, "// Parse")
    ref("l5-hex-map", (HX, table + funcs, '''var digits = map[byte]byte{
	'0': 0, '1': 1, '2': 2, '3': 3, '4': 4, '5': 5, '6': 6, '7': 7, '8': 8, '9': 9,
	'a': 10, 'b': 11, 'c': 12, 'd': 13, 'e': 14, 'f': 15,
	'A': 10, 'B': 11, 'C': 12, 'D': 13, 'E': 14, 'F': 15,
}

func Parse(char byte) byte {
	return digits[char]
}

func IsHex(char byte) bool {
	_, found := digits[char]
	return found
}
'''))
    ref("l5-hex-switch", (HX, table + funcs, '''func digit(char byte) (value byte, ok bool) {
	switch {
	case '0' <= char && char <= '9':
		return char - '0', true
	case 'a' <= char && char <= 'f':
		return char - 'a' + 10, true
	case 'A' <= char && char <= 'F':
		return char - 'A' + 10, true
	}

	return 0, false
}

func Parse(char byte) byte {
	value, _ := digit(char)
	return value
}

func IsHex(char byte) bool {
	_, ok := digit(char)
	return ok
}
'''))
    ref("l5-hex-two-tables", (HX, funcs, '''var valid = func() (t [256]bool) {
	for _, c := range "0123456789abcdefABCDEF" {
		t[c] = true
	}

	return t
}()

func Parse(char byte) byte {
	return decodeTable[char]
}

func IsHex(char byte) bool {
	return valid[char]
}
'''))
    ref("l5-dom-lastindexany", (DN, body(DN, "	for i := len(domain)", "func TrimPort"), '''	if i := strings.LastIndexAny(domain, ".:"); i != -1 && domain[i] == ':' {
		if port := domain[i+1:]; port == "80" || port == "443" {
			return domain[:i]
		}
	}

	return domain
}

'''))
    ref("l5-dom-ranged-ports", (DN, '''			switch port := domain[i+1:]; port {
			case "80", "443":
				// trim only default ports. Non-default must always be presented
				domain = domain[:i]
			}
''', '''			for _, port := range [...]string{"80", "443"} {
				if domain[i+1:] == port {
					return domain[:i]
				}
			}
'''))
    ref("l5-addr-empty-cases", (AD, '''	if len(stripPort(addr)) == 0 {
		// only port is presented
		return DefaultAddr + addr
	}

	return addr
''', '''	host := stripPort(addr)
	if host != "" {
		return addr
	}

	return strings.Join([]string{DefaultAddr, addr}, "")
'''))
    ref("l5-addr-split2", (AD, body(AD, "func stripPort"), '''func stripPort(addr string) string {
	host, _, found := strings.Cut(addr, ":")
	if !found {
		return addr
	}

	return host
}
'''))
    ref("l5-uri-two-pointers", (UN, body(UN, "	for i := len(path)"), '''	end := len(path)
	for end > 1 && path[end-1] == '/' {
		end--
	}

	return path[:end]
}
'''))
    ref("l5-uri-tail", (UN, body(UN, "	for i := len(path)"), '''	if path == "" {
		return path
	}

	return path[:1] + strings.TrimRight(path[1:], "/")
}
'''), (UN, "package uri\n", 'package uri\n\nimport "strings"\n'))
    ref("l5-dec-closure", (UD, '''		if !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, src[:i]...)
		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
''', '''		hi, lo := src[i+1], src[i+2]
		if !(hexconv.IsHex(hi) && hexconv.IsHex(lo)) {
			return nil, status.ErrURIDecoding
		}

		char := hexconv.Parse(hi)*16 + hexconv.Parse(lo)
		buff = append(append(buff, src[:i]...), char)
'''))
    ref("l5-dec-count", (UD, "	if len(buff) == 0 {\n		return src, nil\n	}\n", "	if len(buff) > 0 {\n		return append(buff, src...), nil\n	}\n"),
        (UD, "	return append(buff, src...), nil\n}", "	return src, nil\n}"))
    ref("l5-map-buckets-map", (MP, "	buckets []bucket[T]\n", "	buckets map[int]bucket[T]\n"),
        (MP, "	return &Map[T]{}\n", "	return &Map[T]{buckets: make(map[int]bucket[T])}\n"),
        (MP, "	if len(key) >= len(m.buckets) {\n		return v, false\n	}\n\n", ""),
        (MP, "	if len(m.buckets) <= len(key) {\n		m.resize(len(key) + 1)\n	}\n\n", ""),
        (MP, body(MP, "func (m *Map[T]) resize", "type bucket"), ""))
    ref("l5-map-flat", (MP, "	buckets []bucket[T]\n", "	entries bucket[T]\n"),
        (MP, "	if len(key) >= len(m.buckets) {\n		return v, false\n	}\n\n	for _, entry := range m.buckets[len(key)] {\n", "	for _, entry := range m.entries {\n"),
        (MP, body(MP, "	if len(m.buckets) <= len(key)", "func (m *Map[T]) resize"), "	m.entries = append(m.entries, buckEntry[T]{Key: key, Value: value})\n}\n\n"),
        (MP, body(MP, "func (m *Map[T]) resize", "type bucket"), ""))
    ref("l5-stash-named-source", (ST, "		r.refill()\n", "		r.pending, r.error = r.source()\n"),
        (ST, body(ST, "func (r *Reader) refill", "func (r *Reader) Reset"), ""),
        (ST, '''	if len(r.pending) == 0 && r.error != nil {
		err = r.error
	}

	return n, err
''', '''	if len(r.pending) > 0 {
		return n, nil
	}

	return n, r.error
'''))
    ref("l5-tcp-method-value", (T, "		go s.connHandler(conn)\n", "		handle := s.connHandler\n		go handle(conn)\n"))
    ref("l5-tcp-foreach", (T, body(T, "func StopAll"), '''func StopAll(servers []*Server) {
	shut(servers, func(s *Server) { _ = s.Stop() })
}

func PauseAll(servers []*Server) {
	shut(servers, (*Server).Pause)
}

func shut(servers []*Server, how func(*Server)) {
	for i := range servers {
		how(servers[i])
	}

	WaitAll(servers)
}

func WaitAll(servers []*Server) {
	for i := range servers {
		servers[i].Wait()
	}
}
'''))
    ref("l5-tcp-pause-early", (T, '''	if listener, ok := s.sock.(Deadliner); ok {
		// interrupt the listener RIGHT NOW
		_ = listener.SetDeadline(time.Now())
	}
''', '''	listener, ok := s.sock.(Deadliner)
	if !ok {
		return
	}

	now := time.Now()
	_ = listener.SetDeadline(now)
'''))
    ref("l5-client-pending-len", (C, '''	if len(c.pending) > 0 {
		pending := c.pending
		c.pending = nil

		return pending, nil
	}
''', '''	if data := c.pending; len(data) != 0 {
		c.Unread(nil)
		return data, nil
	}
'''))
    ref("l5-client-deadline-sub", (C, '''	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
		return nil, err
	}

	n, err := c.conn.Read(c.buff)

	return c.buff[:n], err
''', '''	return c.receive(time.Now().Add(c.timeout))
'''), (C, "// Pending returns", '''func (c *client) receive(until time.Time) ([]byte, error) {
	err := c.conn.SetReadDeadline(until)
	if err == nil {
		var n int
		n, err = c.conn.Read(c.buff)
		return c.buff[:n], err
	}

	return nil, err
}

// Pending returns'''))
    ref("l5-cod-two-maps", (CO, '''	if token == identity || len(input) == 0 {
		return input, nil
	}

	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return coding.Encode(input)
''', '''	if len(input) != 0 && token != identity {
		if coding := m.codings[token]; coding != nil {
			return coding.Encode(input)
		}

		return nil, ErrUnknownToken
	}

	return input, nil
'''))
    ref("l5-att-noalloc", (AT, '''	if closer, ok := a.content.(io.Closer); ok {
		_ = closer.Close()
	}
''', '''	switch content := a.content.(type) {
	case io.Closer:
		_ = content.Close()
	}
'''))
