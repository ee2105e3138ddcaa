"""Behaviour-preserving rewrites of the packages that need the stand-in modules."""

def add(ref):
    K = "internal/keyvalue/storage.go"
    ref("kv-get-index", (K, '''	for _, pair := range s.pairs {
		if strcomp.EqualFold(key, pair.Key) {
			return pair.Value, true
		}
	}

	return "", false
''', '''	i := 0
	for i < len(s.pairs) && !strcomp.EqualFold(s.pairs[i].Key, key) {
		i++
	}

	if i == len(s.pairs) {
		return "", false
	}

	return s.pairs[i].Value, true
'''), props=["C15"])
    ref("kv-values-local", (K, '''	s.valuesBuff = s.valuesBuff[:0]

	for _, pair := range s.pairs {
		if strcomp.EqualFold(pair.Key, key) {
			s.valuesBuff = append(s.valuesBuff, pair.Value)
		}
	}

	if len(s.valuesBuff) == 0 {
		return nil
	}

	return s.valuesBuff
''', '''	buff := s.valuesBuff[:0]

	for i := range s.pairs {
		if !strcomp.EqualFold(s.pairs[i].Key, key) {
			continue
		}

		buff = append(buff, s.pairs[i].Value)
	}

	s.valuesBuff = buff

	if len(buff) > 0 {
		values = buff
	}

	return values
'''), props=["C15"])
    ref("kv-has-via-get", (K, '''func (s *Storage) Value(key string) string {
	return s.ValueOr(key, "")
''', '''func (s *Storage) Value(key string) string {
	value, _ := s.Get(key)
	return value
'''), (K, '''	value, found := s.Get(key)
	if !found {
		return or
	}

	return value
''', '''	if value, found := s.Get(key); found {
		return value
	}

	return or
'''), props=["C15"])
    ref("kv-keys-neg", (K, '''		if contains(s.uniqueBuff, pair.Key) {
			continue
		}

		s.uniqueBuff = append(s.uniqueBuff, pair.Key)
''', '''		if !contains(s.uniqueBuff, pair.Key) {
			s.uniqueBuff = append(s.uniqueBuff, pair.Key)
		}
'''), props=["C15"])
    ref("kv-clone-append", (K, '''	cloned := NewPreAlloc(len(s.pairs))

	for _, pair := range s.pairs {
		// strings may refer to a memory, which is going to be reused
		cloned.Add(strings.Clone(pair.Key), strings.Clone(pair.Value))
	}

	return cloned
''', '''	pairs := make([]Pair, 0, len(s.pairs))

	for i := 0; i < len(s.pairs); i++ {
		key, value := strings.Clone(s.pairs[i].Key), strings.Clone(s.pairs[i].Value)
		pairs = append(pairs, Pair{key, value})
	}

	return &Storage{pairs: pairs}
'''), props=["C15"])
    P = "http/proto/proto.go"
    ref("proto-switch", (P, '''	return Parse(raw[majorVersionOffset]-'0', raw[minorVersionOffset]-'0')
''', '''	major, minor := raw[majorVersionOffset], raw[minorVersionOffset]
	if major < '0' || minor < '0' {
		return Unknown
	}

	return Parse(major-'0', minor-'0')
'''), props=["C16"])
    ref("proto-string-switch", (P, '''	lut := [...]string{HTTP10: "HTTP/1.0 ", HTTP11: "HTTP/1.1 ", HTTP2: "HTTP/2 "}
	if int(p) >= len(lut) {
		return ""
	}

	return lut[p]
''', '''	switch p {
	case HTTP10:
		return "HTTP/1.0 "
	case HTTP11:
		return "HTTP/1.1 "
	case HTTP2:
		return "HTTP/2 "
	default:
		return ""
	}
'''), props=["C16"])
    G = "http/proto/upgrade.go"
    ref("upgrade-cut", (G, '''		token, line = cutbyte(line, ',')
''', '''		token, line, _ = strings.Cut(line, ",")
'''), (G, '''func cutbyte(str string, sep byte) (prefix, postfix string) {
	for i := 0; i < len(str); i++ {
		if str[i] == sep {
			return str[:i], str[i+1:]
		}
	}

	return str, ""
}
''', ""), props=["C16"])
    ref("upgrade-index", (G, '''	for i := 0; i < len(str); i++ {
		if str[i] == sep {
			return str[:i], str[i+1:]
		}
	}

	return str, ""
''', '''	if i := strings.IndexByte(str, sep); i >= 0 {
		return str[:i], str[i+1:]
	}

	return str, ""
'''), props=["C16"])
    C = "http/cookie/jar.go"
    ref("cookie-cut", (C, '''		eq := strings.IndexByte(data, '=')
		if eq == -1 {
			break
		}

		key := data[:eq]
		data = data[eq+1:]

		if len(key) == 0 {
			return ErrBadCookie
		}
''', '''		key, rest, found := strings.Cut(data, "=")
		if !found || key == "" {
			return ErrBadCookie
		}

		data = rest
'''), (C, '''	if len(data) != 0 {
		return ErrBadCookie
	}

	return nil
''', '''	return nil
'''), props=["C17"])
    ref("cookie-helper", (C, '''		var value string

		if cs := strings.IndexByte(data, ';'); cs != -1 {
			value, data = data[:cs], stripSpace(data[cs+1:])
		} else {
			value, data = data, ""
		}

		// empty value is fine (probably, I have no idea if it's so)
		jar.Add(key, value)
''', '''		var value string
		value, data = cutValue(data)
		jar.Add(key, value)
'''), (C, "func stripSpace", '''func cutValue(data string) (value, rest string) {
	cs := strings.IndexByte(data, ';')
	if cs < 0 {
		return data, ""
	}

	return data[:cs], strings.TrimPrefix(data[cs+1:], " ")
}

func stripSpace'''), props=["C17"])
    F = "config/config.go"
    ref("config-inplace", (F, "func Fill(src Config) (new Config) {", '''func Fill(src Config) (new Config) {
	filled := fill(src)

	return filled
}

func fill(src Config) (new Config) {'''), props=["C14"])

def add_http1(ref):
    S = "internal/protocol/http1/serializer.go"
    U = "internal/protocol/http1/suit.go"
    ref("suit-helpers", (U, '''			client.Unread(extra)
			req.Body.Init(req)
			resp := notNil(req, s.router.OnRequest(req))

			if req.WasHijacked() {
				// in case the connection was hijacked, we must not intrude after, so fail fast
				return false
			}

			if err = s.Write(version, resp); err != nil {
				// if error happened during writing the response, it makes no sense to try
				// to write anything again
				s.router.OnError(req, status.ErrCloseConnection)
				return false
			}

			if err = req.Clear(); err != nil {
				// abusing the fact that req.Clear() can fail only due to read error
				s.router.OnError(req, status.ErrCloseConnection)
				return false
			}
''', '''			if !s.exchange(version, extra) {
				return false
			}
'''), (U, '''func notNil(''', '''func (s *Suit) exchange(version proto.Proto, extra []byte) bool {
	req := s.Parser.request
	req.Body.Init(req)
	s.client.Unread(extra)
	resp := s.router.OnRequest(req)
	if req.WasHijacked() {
		return false
	}

	err := s.Write(version, notNil(req, resp))
	if err == nil {
		err = req.Clear()
	}

	if err != nil {
		s.router.OnError(req, status.ErrCloseConnection)
	}

	return err == nil
}

func notNil('''), props=["C19"])
    ref("suit-if-chain", (U, '''		switch state {
		case Pending:
		case HeadersCompleted:''', '''		if state == Pending {
			if once {
				return true
			}

			continue
		}

		switch state {
		case HeadersCompleted:'''), (U, "	for {\n		data, err := client.Read()", "	for ok = true; ok; ok = !once {\n		data, err := client.Read()"),
        (U, '''
		if once {
			return true
		}
	}
}

func notNil''', '''	}

	return true
}

func notNil'''), props=["C19"])
    ref("suit-upgrade-helper", (U, '''			version := req.Proto
			if req.Upgrade != proto.Unknown && proto.HTTP1&req.Upgrade == req.Upgrade {
				s.PreWrite(
					req.Proto,
					s.upgradePreResp.Clear().
						Code(status.SwitchingProtocols).
						Header("Connection", "upgrade").
						Header("Upgrade", trimLast(req.Upgrade.String())),
				)
				version = req.Upgrade
			}
''', '''			version := s.upgrade(req)
'''), (U, "func notNil(", '''func (s *Suit) upgrade(req *http.Request) proto.Proto {
	if req.Upgrade == proto.Unknown || proto.HTTP1&req.Upgrade != req.Upgrade {
		return req.Proto
	}

	resp := s.upgradePreResp.Clear()
	resp.Code(status.SwitchingProtocols)
	resp.Header("Connection", "upgrade").Header("Upgrade", trimLast(req.Upgrade.String()))
	s.PreWrite(req.Proto, resp)

	return req.Upgrade
}

func notNil('''), props=["C19"])
    ref("ser-local-buffer", (S, '''	d.renderHeaders(fields)

	for _, c := range fields.Cookies {
		d.renderCookie(c)
	}

	d.renderContentLength(int64(len(fields.Body)))
	d.crlf()

	if d.request''', '''	d.renderHeaders(fields)
	d.renderCookies(fields.Cookies)
	d.renderContentLength(int64(len(fields.Body)))
	d.crlf()

	if d.request'''), (S, '''	for _, c := range fields.Cookies {
		d.renderCookie(c)
	}

	// now we''', '''	d.renderCookies(fields.Cookies)

	// now we'''), (S, "func (d *Serializer) renderCookie(", '''func (d *Serializer) renderCookies(cookies []cookie.Cookie) {
	for i := 0; i < len(cookies); i++ {
		d.renderCookie(cookies[i])
	}
}

func (d *Serializer) renderCookie('''), props=["C20", "C21", "C22"])
    ref("ser-header-concat", (S, '''	d.buff = append(d.buff, header.Key...)
	d.colonsp()
	d.buff = append(d.buff, header.Value...)
	d.crlf()
''', '''	buff := append(d.buff, header.Key...)
	buff = append(buff, ": "...)
	buff = append(buff, header.Value...)
	d.buff = append(buff, '\\r', '\\n')
'''), (S, '''	d.buff = append(d.buff, key...)
	d.buff = append(d.buff, value...)
	d.crlf()
''', '''	d.buff = append(append(d.buff, key...), value...)
	d.crlf()
'''), props=["C20"])
    ref("ser-cookie-separators", (S, '''	d.buff = append(d.buff, '=')
	d.buff = append(d.buff, c.Value...)
	d.buff = append(d.buff, ';', ' ')

	if len(c.Path) > 0 {
		d.buff = append(d.buff, "Path="...)
		d.buff = append(d.buff, c.Path...)
		d.buff = append(d.buff, ';', ' ')
	}

	if len(c.Domain) > 0 {
		d.buff = append(d.buff, "Domain="...)
		d.buff = append(d.buff, c.Domain...)
		d.buff = append(d.buff, ';', ' ')
	}
''', '''	d.buff = append(d.buff, '=')
	d.buff = append(d.buff, c.Value...)
	d.buff = append(d.buff, "; "...)
	d.attribute("Path=", c.Path)
	d.attribute("Domain=", c.Domain)
'''), (S, "func (d *Serializer) renderContentLength(", '''func (d *Serializer) attribute(key, value string) {
	if value == "" {
		return
	}

	d.buff = append(append(append(d.buff, key...), value...), ';', ' ')
}

func (d *Serializer) renderContentLength('''), props=["C20"])
    ref("ser-status-line", (S, '''	statusLine := status.Line(fields.Code)

	if fields.Status == "" && statusLine != "" {
		d.buff = append(d.buff, statusLine...)
		return
	}

''', '''	if fields.Status == "" {
		if statusLine := status.Line(fields.Code); len(statusLine) > 0 {
			d.buff = append(d.buff, statusLine...)
			return
		}
	}

'''), props=["C20"])
    ref("ser-keepalive", (S, '''	switch protocol {
	case proto.HTTP10:
		return strcomp.EqualFold(req.Connection, "keep-alive")
	case proto.HTTP11:
		// in case of HTTP/1.1, keep-alive may be only disabled
		return !strcomp.EqualFold(req.Connection, "close")
	default:
		// as the protocol is unknown and the code was probably caused by some sort
		// of bug, consider closing it
		return false
	}
''', '''	if protocol == proto.HTTP11 {
		return !strcomp.EqualFold(req.Connection, "close")
	}

	return protocol == proto.HTTP10 && strcomp.EqualFold("keep-alive", req.Connection)
'''), props=["C21"])
    ref("ser-exclude-index", (S, '''	for i, header := range d {
		if strcomp.EqualFold(header.Key, key) {
			header.Excluded = true
			d[i] = header
			return
		}
	}
''', '''	for i := range d {
		if !strcomp.EqualFold(key, d[i].Key) {
			continue
		}

		d[i].Excluded = true
		break
	}
'''), props=["C20"])
    ref("ser-defaults-skip", (S, '''		if header.Excluded {
			continue
		}

		d.buff = append(d.buff, header.Full...)
''', '''		if !header.Excluded {
			d.buff = append(d.buff, header.Full...)
		}
'''), (S, '''	if len(fields.TransferEncoding) > 0 {
		d.render''', '''	if fields.TransferEncoding != "" {
		d.render'''), props=["C20"])
    ref("ser-prepared-concat", (S, '''	return fmt.Sprintf("%s: %s\\r\\n", key, value)''', '''	return key + ": " + value + crlf'''), (S, '	"fmt"\n', ""), props=["C20"])
    ref("ser-chunked-if", (S, '''		switch err {
		case nil:
		case io.EOF:
			return writer.Write(chunkedFinalizer)
		default:
			return status.ErrCloseConnection
		}
''', '''		if err == io.EOF {
			return writer.Write(chunkedFinalizer)
		}

		if err != nil {
			return status.ErrCloseConnection
		}
'''), props=["C22"])
    ref("ser-plain-limit", (S, '''		if n > 0 {
			if err := writer.Write(buff[:n]); err != nil {
				return status.ErrCloseConnection
			}

			size -= n
		}

		if err != nil && size > 0 {
			// the announced length can't be met anymore
			return status.ErrCloseConnection
		}
''', '''		if n > 0 {
			if writer.Write(buff[:n]) != nil {
				return status.ErrCloseConnection
			}
		}

		if size -= n; size == 0 {
			break
		}

		if err != nil {
			return status.ErrCloseConnection
		}
'''), props=["C22"])
    ref("ser-attach-head", (S, '''	if request.Method == method.HEAD {
		// HEAD requests MUST NOT contain response bodies. They are just like
		// GET request, but without response entities
		return nil
	}

	if len(d.fileBuff) == 0 {
		d.fileBuff = make([]byte, d.fileBuffSize)
	}

	if size > 0 {
		err = d.writePlainBody(fields.Attachment.Content(), size, writer)
	} else {
		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
	}

	return err
''', '''	if request.Method == method.HEAD {
		return nil
	}

	if d.fileBuff == nil {
		d.fileBuff = make([]byte, d.fileBuffSize)
	}

	content := fields.Attachment.Content()
	if size <= 0 {
		return d.writeChunkedBody(content, writer)
	}

	return d.writePlainBody(content, size, writer)
'''), props=["C20", "C21", "C22"])


def add_body(ref):
    B = "internal/protocol/http1/body.go"
    ref("body-read-branches", (B, '''	var (
		piece []byte
		err   error
	)

	if b.isChunked {
		piece, err = b.chunked.read()
	} else {
		piece, err = b.plain.read()
	}

	b.checkEOF(err)

	return piece, err
''', '''	read := b.plain.read
	if b.isChunked {
		read = b.chunked.read
	}

	piece, err := read()
	b.eof = err == io.EOF

	return piece, err
'''), props=["C23"])
    ref("body-plain-inline", (B, '''	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
		body, data = data[:p.bytesLeft], data[p.bytesLeft:]
		p.client.Unread(data)
		p.bytesLeft = 0
		err = io.EOF
	} else {
		p.bytesLeft -= dataLen
		body = data
	}

	return body, err
''', '''	if uint(len(data)) < p.bytesLeft {
		p.bytesLeft -= uint(len(data))

		return data, nil
	}

	left := p.bytesLeft
	p.bytesLeft = 0

	if extra := data[left:]; len(extra) > 0 {
		p.client.Unread(extra)
	}

	return data[:left], io.EOF
'''), props=["C23"])
    ref("body-bytes-local", (B, '''	for {
		data, err := b.Retrieve()
		b.fullBodyBuff = append(b.fullBodyBuff, data...)
		switch err {
		case nil:
		case io.EOF:
			return b.fullBodyBuff, nil
		default:
			return nil, err
		}
	}
''', '''	for {
		data, err := b.Retrieve()
		if err != nil && err != io.EOF {
			return nil, err
		}

		b.fullBodyBuff = append(b.fullBodyBuff, data...)
		if err == io.EOF {
			break
		}
	}

	return b.fullBodyBuff, nil
'''), props=["C23"])
    ref("body-discard-loop", (B, '''	for !b.eof {
		_, err = b.Retrieve()
		if err != nil {
			break
		}
	}

	if err == io.EOF {
		err = nil
	}

	return err
''', '''	for {
		if _, err = b.Retrieve(); err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
	}
'''), props=["C23"])
    ref("body-chunk-limit", (B, '''	received, overflows := adduint(c.received, uint(len(chunk)))
	if overflows || received > c.maxBodyLen {
		return nil, status.ErrBodyTooLarge
	}

	c.received = received
''', '''	if uint(len(chunk)) > c.maxBodyLen-c.received {
		return nil, status.ErrBodyTooLarge
	}

	c.received += uint(len(chunk))
'''), (B, '''func adduint(x, y uint) (uint, bool) {
	return x + y, math.MaxUint-x < y
}
''', ''), (B, '''	"io"
	"math"
''', '''	"io"
'''), props=["C23"])
    ref("body-eof-check-first", (B, '''	if p.bytesLeft > p.maxBodyLen {
		return nil, status.ErrBodyTooLarge
	}

''', ''), (B, '''	if p.bytesLeft == 0 {
		return nil, io.EOF
	}
''', '''	if p.bytesLeft == 0 {
		return nil, io.EOF
	} else if p.bytesLeft > p.maxBodyLen {
		return nil, status.ErrBodyTooLarge
	}
'''), props=["C23"])
    ref("body-callback-if", (B, '''		data, err := b.Retrieve()
		switch err {
		case nil:
		case io.EOF:
			return cb(data)
		default:
			return err
		}

		if err = cb(data); err != nil {
			return err
		}
''', '''		data, err := b.Retrieve()
		last := err == io.EOF
		if err != nil && !last {
			return err
		}

		if err = cb(data); err != nil || last {
			return err
		}
'''), props=["C23"])
    Q = "http/query/internal/parser.go"
    ref("query-split", (Q, '''parseKey:
	if len(data) == 0 {
		return nil
	}

	for i := range data {
		switch data[i] {
		case '=':
			if key, err = unescape(data[:i]); err != nil {
				return err
			}

			if len(key) == 0 {
				return status.ErrBadQuery
			}

			data = data[i+1:]
			goto parseValue
		case '&':
			if key, err = unescape(data[:i]); err != nil {
				return err
			}

			params.Add(key, defaultEmptyValueContent)
			data = data[i+1:]
			goto parseKey
		}
	}

	if key, err = unescape(data); err != nil {
		return err
	}

	params.Add(key, defaultEmptyValueContent)

	return nil

parseValue:
	for i := range data {
		switch data[i] {
		case '&':
			// ignore the fact that the value may be empty. In case there's no equal sign, we
			// definitely know it's a flag and is supposed to be like that. However, if there's
			// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
			if value, err = unescape(data[:i]); err != nil {
				return err
			}

			params.Add(key, value)
			data = data[i+1:]
			goto parseKey
		}
	}

	if value, err = unescape(data); err != nil {
		return err
	}

	params.Add(key, value)

	return nil
}
''', '''	for len(data) > 0 {
		var pair []byte
		if amp := bytes.IndexByte(data, '&'); amp != -1 {
			pair, data = data[:amp], data[amp+1:]
		} else {
			pair, data = data, nil
		}

		value = defaultEmptyValueContent
		eq := bytes.IndexByte(pair, '=')
		if eq == -1 {
			if key, err = unescape(pair); err != nil {
				return err
			}
		} else {
			if key, err = unescape(pair[:eq]); err != nil {
				return err
			}
			if len(key) == 0 {
				return status.ErrBadQuery
			}
			if value, err = unescape(pair[eq+1:]); err != nil {
				return err
			}
		}

		params.Add(key, value)
	}

	return nil
}
'''), props=["C18"])
    ref("query-unescape", (Q, '''	if bytes.IndexByte(raw, '+') != -1 {
		raw = bytes.ReplaceAll(raw, []byte{'+'}, []byte{' '})
	}

	decoded, err := uridecode.Decode(raw, nil)

	return uf.B2S(decoded), err
''', '''	decoded, err := uridecode.Decode(bytes.ReplaceAll(raw, []byte("+"), []byte(" ")), nil)
	if err != nil {
		return "", err
	}

	return uf.B2S(decoded), nil
'''), props=["C18"])
    ref("query-lazy", ("http/query/query.go", '''	if q.parsed {
		q.parsed = false
		q.params.Clear()
	}
''', '''	if !q.parsed {
		return
	}

	q.params.Clear()
	q.parsed, q.err = false, nil
'''), ("http/query/query.go", '''	if q.parsed {
		return q.err
	}

	q.parsed = true
	q.err = internal.Parse(q.raw, q.params)

	return q.err
''', '''	if !q.parsed {
		q.err = internal.Parse(q.raw, q.params)
		q.parsed = true
	}

	return q.err
'''), props=["C18"])
