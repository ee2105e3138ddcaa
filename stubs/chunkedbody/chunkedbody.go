// Package chunkedbody is a stand-in for github.com/indigo-web/chunkedbody (not available
// offline): an incremental parser of the chunked transfer coding.
package chunkedbody

import (
	"errors"
	"io"
)

var (
	ErrBadRequest = errors.New("bad chunk")
	ErrTooLarge   = errors.New("chunk is too large")
)

type Settings struct {
	MaxChunkSize int64
}

func DefaultSettings() Settings {
	return Settings{MaxChunkSize: 1 << 17}
}

type state uint8

const (
	eSize state = iota
	eExt
	eSizeLF
	eBody
	eBodyCR
	eBodyLF
	eLastCR
	eLastLF
	eTrailer
	eTrailerLine
	eTrailerEndLF
)

type Parser struct {
	settings Settings
	state    state
	digits   int
	left     int64
}

func NewParser(settings Settings) *Parser {
	return &Parser{settings: settings}
}

// Parse consumes at most one chunk. It returns the chunk's (possibly incomplete) payload, the
// data that must be passed again, and io.EOF when the body is over.
func (p *Parser) Parse(data []byte, trailer bool) (chunk, extra []byte, err error) {
	for i := 0; i < len(data); i++ {
		c := data[i]

		switch p.state {
		case eSize:
			switch {
			case c == '\r' && p.digits > 0:
				p.state = eSizeLF
			case c == '\n' && p.digits > 0:
				p.sizeDone(trailer)
			case c == ';' && p.digits > 0:
				p.state = eExt
			default:
				v, ok := unhex(c)
				if !ok {
					return nil, nil, ErrBadRequest
				}

				p.digits++
				p.left = p.left<<4 | int64(v)
				if p.left > p.settings.MaxChunkSize || p.digits > 15 {
					return nil, nil, ErrTooLarge
				}
			}
		case eExt:
			if c == '\n' {
				p.sizeDone(trailer)
			}
		case eSizeLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}

			p.sizeDone(trailer)
		case eBody:
			rest := data[i:]
			if int64(len(rest)) <= p.left {
				p.left -= int64(len(rest))
				if p.left == 0 {
					p.state = eBodyCR
				}

				return rest, nil, nil
			}

			chunk, extra = rest[:p.left], rest[p.left:]
			p.left = 0
			p.state = eBodyCR

			return chunk, extra, nil
		case eBodyCR:
			switch c {
			case '\r':
				p.state = eBodyLF
			case '\n':
				p.state, p.digits = eSize, 0
			default:
				return nil, nil, ErrBadRequest
			}
		case eBodyLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}

			p.state, p.digits = eSize, 0
		case eLastCR:
			switch c {
			case '\r':
				p.state = eLastLF
			case '\n':
				p.reset()
				return nil, data[i+1:], io.EOF
			default:
				return nil, nil, ErrBadRequest
			}
		case eLastLF, eTrailerEndLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}

			p.reset()
			return nil, data[i+1:], io.EOF
		case eTrailer:
			switch c {
			case '\r':
				p.state = eTrailerEndLF
			case '\n':
				p.reset()
				return nil, data[i+1:], io.EOF
			default:
				p.state = eTrailerLine
			}
		case eTrailerLine:
			if c == '\n' {
				p.state = eTrailer
			}
		}
	}

	return nil, nil, nil
}

func (p *Parser) sizeDone(trailer bool) {
	switch {
	case p.left > 0:
		p.state = eBody
	case trailer:
		p.state = eTrailer
	default:
		p.state = eLastCR
	}
}

func (p *Parser) reset() {
	p.state, p.digits, p.left = eSize, 0, 0
}

func unhex(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}

	return 0, false
}
