#!/usr/bin/env python3
"""Developer tool: behaviour-preserving rewrites; every check must stay quiet on each."""
import subprocess, os, sys, shutil
root = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
R = []
def ref(name, *edits, props=None):
    R.append((name, edits, props))

T = "internal/tcp/server.go"
ref("tcp-start-for-ever", (T, '''	for !s.shutdown.Load() {
		conn, err := s.sock.Accept()
		if err != nil {
			return err
		}

		s.wg.Add(1)
		go s.connHandler(conn)
	}

	return nil
''', '''	for {
		if s.shutdown.Load() {
			return nil
		}

		conn, err := s.sock.Accept()
		if err != nil {
			return err
		}

		s.spawn(conn)
	}
'''), (T, "func (s *Server) connHandler", '''func (s *Server) spawn(conn net.Conn) {
	s.wg.Add(1)
	go s.connHandler(conn)
}

func (s *Server) connHandler'''))
ref("tcp-go-closure", (T, "		go s.connHandler(conn)\n", '''		go func(c net.Conn) {
			defer s.wg.Done()
			defer c.Close()
			s.onConn(c)
		}(conn)
'''), (T, '''func (s *Server) connHandler(conn net.Conn) {
	s.onConn(conn)
	_ = conn.Close()
	s.wg.Done()
}

''', ""))
ref("tcp-handler-defer", (T, '''	s.onConn(conn)
	_ = conn.Close()
	s.wg.Done()
''', '''	defer s.wg.Done()

	s.onConn(conn)

	if err := conn.Close(); err != nil {
		return
	}
'''))
ref("tcp-handler-defer2", (T, '''	s.onConn(conn)
	_ = conn.Close()
	s.wg.Done()
''', '''	defer func() {
		_ = conn.Close()
		s.wg.Done()
	}()

	s.onConn(conn)
'''))
ref("tcp-wg-value", (T, "	wg       *sync.WaitGroup\n", "	wg       sync.WaitGroup\n"), (T, "		wg:     new(sync.WaitGroup),\n", ""))
ref("tcp-index-loops", (T, '''	for _, server := range servers {
		_ = server.Stop()
	}
''', '''	for i := 0; i < len(servers); i++ {
		_ = servers[i].Stop()
	}
'''), (T, '''	for _, server := range servers {
		server.Pause()
	}
''', '''	for i := range servers {
		servers[i].Pause()
	}
'''), (T, '''	for _, server := range servers {
		server.Wait()
	}
''', '''	for i := len(servers) - 1; i >= 0; i-- {
		servers[i].Wait()
	}
'''))
ref("tcp-each-helper", (T, '''	for _, server := range servers {
		_ = server.Stop()
	}
''', '''	each(servers, func(s *Server) { _ = s.Stop() })
'''), (T, '''	for _, server := range servers {
		server.Pause()
	}
''', '''	each(servers, func(s *Server) { s.Pause() })
'''), (T, '''	for _, server := range servers {
		server.Wait()
	}
}
''', '''	each(servers, func(s *Server) { s.Wait() })
}

func each(servers []*Server, f func(*Server)) {
	for _, server := range servers {
		f(server)
	}
}
'''))
ref("tcp-waitall-inline", (T, '''		_ = server.Stop()
	}

	WaitAll(servers)
''', '''		_ = server.Stop()
	}

	for _, server := range servers {
		server.wg.Wait()
	}
'''))
ref("tcp-pause-helper", (T, '''	if listener, ok := s.sock.(Deadliner); ok {
		// interrupt the listener RIGHT NOW
		_ = listener.SetDeadline(time.Now())
	}
''', '''	s.interrupt()
'''), (T, "// Wait blocks", '''func (s *Server) interrupt() {
	listener, ok := s.sock.(Deadliner)
	if !ok {
		return
	}

	now := time.Now()
	_ = listener.SetDeadline(now)
}

// Wait blocks'''))
ref("tcp-pause-switch", (T, '''	if listener, ok := s.sock.(Deadliner); ok {
		// interrupt the listener RIGHT NOW
		_ = listener.SetDeadline(time.Now())
	}
''', '''	switch listener := s.sock.(type) {
	case Deadliner:
		_ = listener.SetDeadline(time.Now())
	}
'''))
C = "internal/tcp/client.go"
ref("client-read-split", (C, '''	if len(c.pending) > 0 {
		pending := c.pending
		c.pending = nil

		return pending, nil
	}

	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
		return nil, err
	}

	n, err := c.conn.Read(c.buff)

	return c.buff[:n], err
}
''', '''	if data := c.take(); len(data) != 0 {
		return data, nil
	}

	return c.readConn()
}

func (c *client) take() (data []byte) {
	data, c.pending = c.pending, nil
	return data
}

func (c *client) readConn() ([]byte, error) {
	deadline := time.Now().Add(c.timeout)
	if err := c.conn.SetReadDeadline(deadline); err != nil {
		return nil, err
	}

	n, err := c.conn.Read(c.buff)
	return c.buff[:n], err
}
'''))
ref("client-read-else", (C, '''	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
		return nil, err
	}

	n, err := c.conn.Read(c.buff)

	return c.buff[:n], err
''', '''	conn, now := c.conn, time.Now()
	err := conn.SetReadDeadline(now.Add(c.timeout))
	if err == nil {
		var n int
		n, err = conn.Read(c.buff)
		return c.buff[0:n], err
	}

	return nil, err
'''))
ST = "internal/stash/reader.go"
ref("stash-inline", (ST, '''	if len(r.pending) == 0 && r.error == nil {
		r.refill()
	}

	n = copy(b, r.pending)
	r.pending = r.pending[n:]

	if len(r.pending) == 0 && r.error != nil {
		err = r.error
	}

	return n, err
''', '''	if r.error == nil && len(r.pending) < 1 {
		r.pending, r.error = r.source()
	}

	copied := copy(b, r.pending)
	rest := r.pending[copied:]
	r.pending = rest
	if len(rest) > 0 {
		return copied, nil
	}

	return copied, r.error
'''), (ST, '''func (r *Reader) refill() {
	r.pending, r.error = r.source()
}

''', ""))
ref("stash-min", (ST, '''	n = copy(b, r.pending)
	r.pending = r.pending[n:]
''', '''	n = len(r.pending)
	if n > len(b) {
		n = len(b)
	}

	copy(b[:n], r.pending[:n])
	r.pending = r.pending[n:]
'''))
ref("stash-reset", (ST, '''	r.pending = nil
	r.error = nil
''', '''	r.pending, r.error = r.pending[:0], nil
'''))
ref("stash-reset-struct", (ST, '''	r.pending = nil
	r.error = nil
''', '''	*r = Reader{source: r.source}
'''))
U = "internal/uridecode/decoder.go"
UBODY = open("/repo/" + U).read()
UFN = UBODY[UBODY.index("	for i := bytes"):]
ref("decode-while", (U, UFN, '''	for {
		i := bytes.IndexByte(src, '%')
		if i < 0 {
			break
		}

		if len(src)-i < 3 {
			return nil, status.ErrURIDecoding
		}

		hi, lo := src[i+1], src[i+2]
		if !hexconv.IsHex(hi) || !hexconv.IsHex(lo) {
			return nil, status.ErrURIDecoding
		}

		buff = append(append(buff, src[:i]...), unhex(hi, lo))
		src = src[i+3:]
	}

	if len(buff) != 0 {
		return append(buff, src...), nil
	}

	return src, nil
}

func unhex(a, b byte) byte {
	return hexconv.Parse(a)<<4 | hexconv.Parse(b)
}
'''))
ref("decode-bytewise", (U, UFN, '''	for i := 0; i < len(src); i++ {
		if src[i] != '%' {
			buff = append(buff, src[i])
			continue
		}

		if i+2 >= len(src) || !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, hexconv.Parse(src[i+1])*16+hexconv.Parse(src[i+2]))
		i += 2
	}

	return buff, nil
}
'''), (U, '	"bytes"\n', ""))
ref("decode-cut", (U, UFN, '''	for {
		head, tail, found := bytes.Cut(src, []byte{'%'})
		if !found {
			break
		}

		if len(tail) < 2 || !hexconv.IsHex(tail[0]) || !hexconv.IsHex(tail[1]) {
			return nil, status.ErrURIDecoding
		}

		buff = append(buff, head...)
		buff = append(buff, hexconv.Parse(tail[0])<<4|hexconv.Parse(tail[1]))
		src = tail[2:]
	}

	if len(buff) == 0 {
		return src, nil
	}

	return append(buff, src...), nil
}
'''))
ref("decode-fastpath", (U, "	for i := bytes.IndexByte(src, '%'); i != -1;", "	if bytes.IndexByte(src, '%') == -1 && len(buff) == 0 {\n		return src, nil\n	}\n\n	for i := bytes.IndexByte(src, '%'); i != -1;"))
H = "internal/hexconv/hexconv.go"
HB = open("/repo/" + H).read()
HT = HB[HB.index("var decodeTable"):HB.index("// Parse returns")]
ref("hex-switch", (H, HT, ""), (H, "	return decodeTable[char]\n", '''	switch {
	case '0' <= char && char <= '9':
		return char - '0'
	case 'a' <= char && char <= 'f':
		return char - 'a' + 10
	case 'A' <= char && char <= 'F':
		return char - 'A' + 10
	}

	return 0
'''), (H, "char == '0' || decodeTable[char] != 0", "char == '0' || Parse(char) != 0"))
ref("hex-init", (H, HT, '''var decodeTable [256]byte

func init() {
	for i := byte(0); i < 10; i++ {
		decodeTable['0'+i] = i
	}

	for i := byte(0); i < 6; i++ {
		decodeTable['a'+i] = 10 + i
		decodeTable['A'+i] = 10 + i
	}
}

'''))
ref("hex-func-table", (H, HT, '''var decodeTable = makeTable()

func makeTable() (table [256]byte) {
	for i, c := range "0123456789abcdef" {
		table[c] = byte(i)
	}

	for i, c := range "ABCDEF" {
		table[c] = byte(i) + 10
	}

	return table
}

'''))
N = "router/inbuilt/uri/normalize.go"
NB = open("/repo/" + N).read()
NF = NB[NB.index("	for i := len"):]
ref("uri-trim", (N, NF, '''	if len(path) == 0 {
		return path
	}

	trimmed := strings.TrimRight(path, "/")
	if len(trimmed) == 0 {
		return path[:1]
	}

	return trimmed
}
'''), (N, "package uri\n", 'package uri\n\nimport "strings"\n'))
ref("uri-while", (N, NF, '''	for len(path) > 1 && path[len(path)-1] == '/' {
		path = path[:len(path)-1]
	}

	return path
}
'''))
ref("uri-end", (N, NF, '''	end := len(path)
	for end > 1 && path[end-1] == '/' {
		end--
	}

	return path[:end]
}
'''))
ref("uri-hassuffix", (N, NF, '''	for len(path) > 1 && strings.HasSuffix(path, "/") {
		path = strings.TrimSuffix(path, "/")
	}

	return path
}
'''), (N, "package uri\n", 'package uri\n\nimport "strings"\n'))
D = "router/virtual/internal/domain/normalize.go"
DB = open("/repo/" + D).read()
DF = DB[DB.index("	if strings.HasPrefix(domain"):DB.index("func TrimPort")]
ref("domain-trim", (D, DF, '''	domain = strings.TrimPrefix(domain, "www.")

	for _, port := range [...]string{":80", ":443"} {
		if strings.HasSuffix(domain, port) {
			return domain[:len(domain)-len(port)]
		}
	}

	return domain
}

'''))
ref("domain-suffix", (D, DF, '''	domain = strings.TrimPrefix(domain, "www.")

	if strings.HasSuffix(domain, ":80") {
		return domain[:len(domain)-3]
	}

	return strings.TrimSuffix(domain, ":443")
}

'''))
ref("domain-lastindex", (D, DF, '''	if len(domain) >= 4 && domain[:4] == "www." {
		domain = domain[4:]
	}

	colon := strings.LastIndexByte(domain, ':')
	if colon == -1 {
		return domain
	}

	if port := domain[colon+1:]; port == "80" || port == "443" {
		return domain[:colon]
	}

	return domain
}

'''))
ref("domain-helper", (D, '''			switch port := domain[i+1:]; port {
			case "80", "443":
				// trim only default ports. Non-default must always be presented
				domain = domain[:i]
			}

			break
''', '''			if isDefault(domain[i+1:]) {
				return domain[:i]
			}

			return domain
'''), (D, "func TrimPort", '''func isDefault(port string) bool {
	return port == "80" || port == "443"
}

func TrimPort'''))
ref("domain-trimport-cut", (D, '''	if colon := strings.IndexByte(domain, ':'); colon != -1 {
		return domain[:colon]
	}

	return domain
''', '''	host, _, _ := strings.Cut(domain, ":")

	return host
'''))
ref("domain-trimport-loop", (D, '''	if colon := strings.IndexByte(domain, ':'); colon != -1 {
		return domain[:colon]
	}

	return domain
''', '''	for i := 0; i < len(domain); i++ {
		if domain[i] == ':' {
			return domain[:i]
		}
	}

	return domain
'''))
A = "internal/address/address.go"
ref("addr-cut", (A, '''	colon := strings.IndexByte(addr, ':')
	if colon != -1 {
		return addr[:colon]
	}

	return addr
''', '''	host, _, _ := strings.Cut(addr, ":")

	return host
'''))
ref("addr-normalize", (A, '''	if len(stripPort(addr)) == 0 {
		// only port is presented
		return DefaultAddr + addr
	}

	return addr
''', '''	if addr == "" || addr[0] == ':' {
		return DefaultAddr + addr
	}

	return addr
'''))
ref("addr-hasprefix", (A, '''	if len(stripPort(addr)) == 0 {
		// only port is presented
		return DefaultAddr + addr
	}

	return addr
''', '''	host := stripPort(addr)
	if host != "" {
		return addr
	}

	return DefaultAddr + addr
'''))
ref("addr-isip", (A, "	return net.ParseIP(stripPort(addr)) != nil\n", "	ip := net.ParseIP(stripPort(addr))\n	if ip == nil {\n		return false\n	}\n\n	return true\n"))
M = "http/method/method.go"
MB = open("/repo/" + M).read()
MF = MB[MB.index("	switch len(str)"):]
ref("method-switch", (M, MF, '''	switch str {
	case "GET":
		return GET
	case "HEAD":
		return HEAD
	case "POST":
		return POST
	case "PUT":
		return PUT
	case "DELETE":
		return DELETE
	case "CONNECT":
		return CONNECT
	case "OPTIONS":
		return OPTIONS
	case "TRACE":
		return TRACE
	case "PATCH":
		return PATCH
	default:
		return Unknown
	}
}
'''))
ref("method-map", (M, MF, '''	return methods[str]
}

var methods = map[string]Method{
	"GET": GET, "HEAD": HEAD, "POST": POST, "PUT": PUT, "DELETE": DELETE,
	"CONNECT": CONNECT, "OPTIONS": OPTIONS, "TRACE": TRACE, "PATCH": PATCH,
}
'''))
ref("method-list-loop", (M, MF, '''	for _, m := range List {
		if m.String() == str {
			return m
		}
	}

	return Unknown
}
'''))
ref("method-map-init", (M, MF, '''	return methods[str]
}

var methods = map[string]Method{}

func init() {
	for _, m := range List {
		methods[m.String()] = m
	}
}
'''))
MS = "http/method/method_string.go"
MSB = open("/repo/" + MS).read()
ref("method-string-table", (MS, MSB[MSB.index("const _Method_name"):], '''var names = [...]string{"Unknown", "GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

func (i Method) String() string {
	if int(i) < len(names) {
		return names[i]
	}

	return "Method(" + strconv.FormatInt(int64(i), 10) + ")"
}
'''))
SC = "http/status/codes.go"
SB = open("/repo/" + SC).read()
LF = SB[SB.index("func Line(code Code) string {"):]
ref("status-line-concat", (SC, LF, '''func Line(code Code) string {
	text := Text(code)
	if text == "Unknown Status Code" {
		return ""
	}

	return strconv.Itoa(int(code)) + " " + text + "\\r\\n"
}
'''), (SC, "package status\n", 'package status\n\nimport "strconv"\n'))
ents = []
import re
for m in re.finditer(r'case (\w+):\n\t\treturn ("[^"]*")', SB[:SB.index("func Line(")]):
    ents.append(f"\t{m.group(1)}: {m.group(2)},\n")
TF = SB[SB.index("	switch code {"):SB.index("// Line returns")]
ref("status-text-map", (SC, TF, '''	if text, found := texts[code]; found {
		return text
	}

	return "Unknown Status Code"
}

var texts = map[Code]Status{
''' + "".join(ents) + '''}

'''))
CO = "http/coding/codings.go"
ref("coding-helper", (CO, '''	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return coding.Encode(input)
''', '''	coding, err := m.lookup(token)
	if err != nil {
		return nil, err
	}

	return coding.Encode(input)
'''), (CO, '''	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return coding.Decode(input)
}
''', '''	if coding, err := m.lookup(token); err == nil {
		return coding.Decode(input)
	}

	return nil, ErrUnknownToken
}

func (m Manager) lookup(token Token) (Coding, error) {
	coding, found := m.codings[token]
	if !found {
		return nil, ErrUnknownToken
	}

	return coding, nil
}
'''))
ref("coding-add", (CO, '''	coding := constructor(m.newBuffer())
	m.codings[coding.Token()] = coding
''', '''	coding := constructor(make([]byte, m.buffSize))
	token := coding.Token()
	m.codings[token] = coding
'''), (CO, '''	switch coding.Token() {
	case "gzip":
		m.codings["x-gzip"] = coding
	case "compress":
		m.codings["x-compress"] = coding
	}
''', '''	if token == "gzip" || token == "compress" {
		m.codings["x-"+token] = coding
	}
'''), (CO, '''func (m Manager) newBuffer() []byte {
	return make([]byte, m.buffSize)
}
''', ""))
SM = "internal/strlenmap/map.go"
ref("map-index-loop", (SM, '''	for _, entry := range m.buckets[len(key)] {
		if entry.Key == key {
			return entry.Value, true
		}
	}
''', '''	entries := m.buckets[len(key)]
	for i := 0; i < len(entries); i++ {
		if entries[i].Key == key {
			return entries[i].Value, true
		}
	}
'''))
ref("map-grow-append", (SM, '''	newBuckets := make([]bucket[T], n)
	copy(newBuckets, m.buckets)
	m.buckets = newBuckets
''', '''	for len(m.buckets) < n {
		m.buckets = append(m.buckets, nil)
	}
'''))
ref("map-grow-append2", (SM, '''	newBuckets := make([]bucket[T], n)
	copy(newBuckets, m.buckets)
	m.buckets = newBuckets
''', '''	m.buckets = append(m.buckets, make([]bucket[T], n-len(m.buckets))...)
'''))
ref("map-insert-local", (SM, '''	m.buckets[len(key)] = append(m.buckets[len(key)], buckEntry[T]{
		Key:   key,
		Value: value,
	})
''', '''	n := len(key)
	entry := buckEntry[T]{key, value}
	b := m.buckets[n]
	b = append(b, entry)
	m.buckets[n] = b
'''))
ref("map-find", (SM, '''	for _, entry := range m.buckets[len(key)] {
		if entry.Key == key {
			return entry.Value, true
		}
	}

	return v, false
}
''', '''	return m.buckets[len(key)].find(key)
}

func (b bucket[T]) find(key string) (v T, found bool) {
	for i := range b {
		if b[i].Key != key {
			continue
		}

		return b[i].Value, true
	}

	return v, false
}
'''))
ref("map-skip-existing", (SM, '''	m.buckets[len(key)] = append(m''', '''	if _, found := m.Get(key); found {
		return
	}

	m.buckets[len(key)] = append(m'''))
AT = "internal/types/attachment.go"
ref("att-switch", (AT, '''	if closer, ok := a.content.(io.Closer); ok {
		_ = closer.Close()
	}
''', '''	closer, ok := a.content.(io.Closer)
	if !ok {
		return
	}

	_ = closer.Close()
'''))
ref("att-typeswitch", (AT, '''	if closer, ok := a.content.(io.Closer); ok {
		_ = closer.Close()
	}
''', '''	switch c := a.content.(type) {
	case io.Closer:
		_ = c.Close()
	default:
	}
'''))
try:
    import refactors_core
    refactors_core.add(ref)
    refactors_core.add_http1(ref)
    refactors_core.add_body(ref)
    import refactors_parser
    refactors_parser.add(ref)
    import refactors_router
    refactors_router.add(ref)
    import refactors_leaf
    refactors_leaf.add(ref)
    import refactors_leaf2
    refactors_leaf2.add(ref)
    import refactors_leaf3
    refactors_leaf3.add(ref)
    import refactors_leaf4
    refactors_leaf4.add(ref)
    import refactors_leaf5
    refactors_leaf5.add(ref)
except ImportError:
    pass


ALL = []

def main():
    want = sys.argv[1:]
    props = [w for w in want if w[0] == "C" and w[1:].isdigit()]
    names = [w for w in want if w not in props]
    subprocess.run("cd %s/checker && GOFLAGS=-mod=vendor go build -o /tmp/ichk-refactor-%d ." % (root, os.getpid()), shell=True, check=True)
    bad = 0
    from concurrent.futures import ThreadPoolExecutor
    def one(r):
        name, edits, pr = r
        d = "/tmp/refactor/%d/" % os.getpid() + name if not os.environ.get("KEEP") else "/tmp/refactor/" + name
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(f"cp -r /repo {d}/repo && rm -rf {d}/repo/.git", shell=True, check=True)
        try:
            for path, old, new in edits:
                p = f"{d}/repo/{path}"
                s = open(p).read()
                if s.count(old) != 1:
                    return f"{name}: edit does not apply to {path} ({s.count(old)})"
                open(p, "w").write(s.replace(old, new))
            b = subprocess.run("bash %s/stubs/fulltest.sh %s/repo -run XXX ./... 2>&1 | grep -E 'FAIL|cannot|undefined|declared|imported' | head -5" % (root, d), shell=True, capture_output=True, text=True)
            if b.stdout.strip():
                return f"{name}: tests/build fail: {b.stdout[:600]}"
            out = []
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d + "/ev")
            r = subprocess.run(["/tmp/ichk-refactor-%d" % os.getpid()] + (props or pr or ALL), capture_output=True, text=True, env=env)
            if r.returncode != 0:
                lines = [l for l in r.stdout.split("\n") if "rule C" in l or "VIOLATION" in l or l.startswith("    ")]
                return f"{name}: ALARM\n" + "\n".join("   " + l[:400] for l in lines[:8])
            return None
        finally:
          if not os.environ.get("KEEP"):
            shutil.rmtree(d, ignore_errors=True)
    todo = [r for r in R if not names or any(r[0] == n or n.endswith("*") and r[0].startswith(n[:-1]) for n in names)]
    with ThreadPoolExecutor(4) as ex:
        for r, res in zip(todo, ex.map(one, todo)):
            if res:
                bad += 1
            if res or os.environ.get("PROGRESS"):
                print(res or r[0], flush=True)
    print(len(todo), "rewrites,", bad, "problems")
    os.remove("/tmp/ichk-refactor-%d" % os.getpid())
    if not os.environ.get("KEEP"):
        shutil.rmtree("/tmp/refactor/%d" % os.getpid(), ignore_errors=True)

if __name__ == "__main__":
    main()
