def add(ref):
    P = "internal/protocol/http1/parser.go"
    ALL = ["C24", "C25", "C26", "C27"]
    ref("parser-special-helper", (P, '''		switch len(key) {
		case 7:
			encoded := ''', '''		p.special(key, value)
		goto headerKey
	}

headerValueCRLFCR:
	if len(data) == 0 {
		p.state = eHeaderValueCRLFCR
		return Pending, nil, nil
	}

	if data[0] == '\\n' {
		p.cleanup()

		return HeadersCompleted, data[1:], nil
	}

	return Error, nil, status.ErrBadRequest
}

func (p *Parser) special(key, value string) {
	request := p.request
		switch len(key) {
		case 7:
			encoded := '''), (P, '''				)
			}
		}

		goto headerKey
	}

headerValueCRLFCR:
	if len(data) == 0 {
		p.state = eHeaderValueCRLFCR
		return Pending, nil, nil
	}

	if data[0] == '\\n' {
		p.cleanup()

		return HeadersCompleted, data[1:], nil
	}

	return Error, nil, status.ErrBadRequest
}
''', '''				)
			}
		}
}
'''), props=ALL)
    ref("parser-digits-index", (P, '''	for i, char := range data {
		if char == ' ' {
			if p.clStage == clDigits {
				p.clStage = clTrailingSpace
			}

			continue
		}

		if char < '0' || char > '9' {
			data = data[i:]
			goto contentLengthEnd
		}

		if p.clStage == clTrailingSpace || p.contentLength > (math.MaxInt-9)/10 {
			return Error, nil, status.ErrBadRequest
		}

		p.clStage = clDigits
		p.contentLength = p.contentLength*10 + int(char-'0')
	}
''', '''	for len(data) > 0 {
		switch char := data[0]; {
		case char == ' ':
			if p.clStage == clDigits {
				p.clStage = clTrailingSpace
			}
		case char >= '0' && char <= '9':
			if p.clStage == clTrailingSpace || p.contentLength > (math.MaxInt-9)/10 {
				return Error, nil, status.ErrBadRequest
			}

			p.clStage = clDigits
			p.contentLength = p.contentLength*10 + int(char) - '0'
		default:
			goto contentLengthEnd
		}

		data = data[1:]
	}
'''), props=ALL)
    ref("parser-key-reordered", (P, '''		switch {
		case headerKeyBuff.SegmentLength() > 0:
			// a part of the line was received already, so it isn't the empty one
		case data[0] == '\\n':
			p.cleanup()

			return HeadersCompleted, data[1:], nil
		case data[0] == '\\r':
			data = data[1:]
			goto headerValueCRLFCR
		}
''', '''		if headerKeyBuff.SegmentLength() == 0 {
			if data[0] == '\\r' {
				data = data[1:]
				goto headerValueCRLFCR
			}

			if data[0] == '\\n' {
				rest := data[1:]
				p.cleanup()
				return HeadersCompleted, rest, nil
			}
		}
'''), (P, '''		p.headerKey = key
		data = data[colon+1:]

		if p.headersNumber++; p.headersNumber > p.headersCfg.Number.Maximal {
			return Error, nil, status.ErrTooManyHeaders
		}
''', '''		p.headersNumber++
		if p.headersNumber > p.headersCfg.Number.Maximal {
			return Error, nil, status.ErrTooManyHeaders
		}

		data = data[colon+1:]
		p.headerKey = key
'''), props=ALL)
    ref("parser-equalfold", (P, '''		if len(key) == len("content-length") &&
			cContent == encodeU64(
				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
			) && cLength == encodeU64(
			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
		) {
''', '''		if strcomp.EqualFold(key, "content-length") {
'''), (P, '''			if cConnecti == encodeU64(
				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
			) && cOn == encodeU16(key[8]|0x20, key[9]|0x20) {
''', '''			if strcomp.EqualFold(key, "connection") {
'''), props=ALL)
    ref("parser-append-helper", (P, '''			if !headerValueBuff.Append(data) {
				return Error, nil, status.ErrHeaderFieldsTooLarge
			}

			if headerValueBuff.SegmentLength() > p.headersCfg.MaxValueLength {
				return Error, nil, status.ErrHeaderFieldsTooLarge
			}

			p.state''', '''			if !keep(headerValueBuff, data, p.headersCfg.MaxValueLength) {
				return Error, nil, status.ErrHeaderFieldsTooLarge
			}

			p.state'''), (P, '''		if !headerValueBuff.Append(data[:lf]) {
			return Error, nil, status.ErrHeaderFieldsTooLarge
		}

		if headerValueBuff.SegmentLength() > p.headersCfg.MaxValueLength {
			return Error, nil, status.ErrHeaderFieldsTooLarge
		}
''', '''		if !keep(headerValueBuff, data[:lf], p.headersCfg.MaxValueLength) {
			return Error, nil, status.ErrHeaderFieldsTooLarge
		}
'''), (P, '''func trimPrefixSpaces(''', '''func keep(buff *buffer.Buffer, data []byte, limit int) bool {
	return buff.Append(data) && buff.SegmentLength() <= limit
}

func trimPrefixSpaces('''), props=ALL)
    ref("parser-trim-std", (P, '''	for i, char := range b {
		if char != ' ' {
			return b[i:]
		}
	}

	return b[:0]
''', '''	return bytes.TrimLeft(b, " ")
'''), (P, '''		if len(value) > 0 && value[len(value)-1] == '\\r' {
			value = value[:len(value)-1]
		}
''', '''		value = strings.TrimSuffix(value, "\\r")
'''), props=ALL)
    ref("parser-line-helper", (P, '''		reqPath, reqProto := pathAndProto[:sp], pathAndProto[sp+1:]
		if len(reqProto) > 0 && reqProto[len(reqProto)-1] == '\\r' {
			reqProto = reqProto[:len(reqProto)-1]
		}

		query := bytes.IndexByte(reqPath, '?')
		if query != -1 {
			request.Query.Set(reqPath[query+1:])
			reqPath = reqPath[:query]
		}
''', '''		reqPath, reqProto := pathAndProto[:sp], stripCR(pathAndProto[sp+1:])

		if query := bytes.IndexByte(reqPath, '?'); query >= 0 {
			params := reqPath[query+1:]
			reqPath = reqPath[:query]
			request.Query.Set(params)
		}
'''), (P, '''func trimPrefixSpaces(''', '''func stripCR(b []byte) []byte {
	if n := len(b); n != 0 && b[n-1] == '\\r' {
		return b[:n-1]
	}

	return b
}

func trimPrefixSpaces('''), props=ALL)
    ref("parser-protocol-first", (P, '''		reqPath, err = uridecode.Decode(reqPath, reqPath[:0])
		if err != nil {
			return Error, nil, err
		}

		request.Path = uf.B2S(reqPath)
		request.Proto = proto.FromBytes(reqProto)
		if request.Proto == proto.Unknown {
			return Error, nil, status.ErrUnsupportedProtocol
		}
''', '''		decoded, decodeErr := uridecode.Decode(reqPath, reqPath[:0])
		if decodeErr != nil {
			return Error, nil, decodeErr
		}

		version := proto.FromBytes(reqProto)
		request.Path, request.Proto = uf.B2S(decoded), version
		if version == proto.Unknown {
			return Error, nil, status.ErrUnsupportedProtocol
		}
'''), props=ALL)
    ref("parser-encoding-cut", (P, '''	for len(value) > 0 {
		var token string
		comma := strings.IndexByte(value, ',')
		if comma == -1 {
			token, value = value, ""
		} else {
			token, value = value[:comma], value[comma+1:]
		}

		token = strings.TrimSpace(token)
		if len(token) == 0 {
			continue
		}

		if len(buff)+1 > maxTokens {
			return nil, false
		}

		if strcomp.EqualFold(token, "chunked") {
			chunked = true
		}

		buff = append(buff, token)
	}
''', '''	for len(value) > 0 {
		var token string
		token, value, _ = strings.Cut(value, ",")

		if token = strings.TrimSpace(token); token != "" {
			if len(buff) >= maxTokens {
				return nil, false
			}

			chunked = chunked || strcomp.EqualFold(token, "chunked")
			buff = append(buff, token)
		}
	}
'''), props=ALL)
    ref("parser-cleanup-inline", (P, '''	p.headersNumber = 0
	p.startLineBuff.Clear()
	p.headerKeyBuff.Clear()
	p.headerValueBuff.Clear()
''', '''	for _, buff := range [...]*buffer.Buffer{p.startLineBuff, p.headerKeyBuff, p.headerValueBuff} {
		buff.Clear()
	}

	p.headersNumber = 0
'''), props=ALL)
    ref("parser-method-always-buffered", (P, '''		var methodValue []byte
		if p.startLineBuff.SegmentLength() == 0 {
			methodValue = data[:sp]
		} else {
			if !p.startLineBuff.Append(data[:sp]) {
				return Error, nil, status.ErrTooLongRequestLine
			}

			methodValue = p.startLineBuff.Finish()
		}
''', '''		methodValue := data[:sp]
		if p.startLineBuff.SegmentLength() > 0 {
			if !p.startLineBuff.Append(methodValue) {
				return Error, nil, status.ErrTooLongRequestLine
			}

			methodValue = p.startLineBuff.Finish()
		}
'''), props=ALL)
    ref("parser-state-before", (P, '''			p.state = ePath
			return Pending, nil, nil
''', '''			return p.suspend(ePath)
'''), (P, '''		if len(data) == 0 {
			p.state = eHeaderKey
			return Pending, nil, err
		}
''', '''		if len(data) == 0 {
			return p.suspend(eHeaderKey)
		}
'''), (P, '''func (p *Parser) cleanup() {''', '''func (p *Parser) suspend(at parserState) (requestState, []byte, error) {
	p.state = at
	return Pending, nil, nil
}

func (p *Parser) cleanup() {'''), props=ALL)
