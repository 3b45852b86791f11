// Package chunkedbody is an offline stand-in for github.com/indigo-web/chunkedbody (the
// module is not present in this sandbox): a streaming parser of the chunked transfer coding.
package chunkedbody

import (
	"errors"
	"io"
)

var (
	ErrBadRequest = errors.New("bad request: invalid chunked body")
	ErrTooLarge   = errors.New("chunk is too large")
)

type Settings struct {
	MaxChunkSize int64
}

func DefaultSettings() Settings {
	return Settings{MaxChunkSize: 128 * 1024}
}

type state uint8

const (
	eLength1 state = iota
	eLength
	eExt
	eLengthCR
	eBody
	eBodyCR
	eBodyLF
	eLastStart
	eLastLF
	eTrailer
	eTrailerLineStart
	eTrailerEndLF
)

type Parser struct {
	settings Settings
	state    state
	length   int64
}

func NewParser(settings Settings) *Parser {
	return &Parser{settings: settings}
}

// Parse consumes data up to the end of the next piece of the body. Returned are the piece,
// the data which is not consumed, and io.EOF if the body is over.
func (p *Parser) Parse(data []byte, trailer bool) (chunk, extra []byte, err error) {
	for i := 0; i < len(data); {
		c := data[i]

		switch p.state {
		case eLength1:
			v, ok := unhex(c)
			if !ok {
				return nil, nil, ErrBadRequest
			}
			p.length = int64(v)
			p.state = eLength
			i++
		case eLength:
			switch c {
			case '\r':
				p.state = eLengthCR
			case '\n':
				p.lengthDone()
			case ';', ' ', '\t':
				p.state = eExt
			default:
				v, ok := unhex(c)
				if !ok {
					return nil, nil, ErrBadRequest
				}
				p.length = p.length<<4 | int64(v)
				if p.length > p.settings.MaxChunkSize {
					return nil, nil, ErrTooLarge
				}
			}
			i++
		case eExt:
			switch c {
			case '\r':
				p.state = eLengthCR
			case '\n':
				p.lengthDone()
			}
			i++
		case eLengthCR:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			p.lengthDone()
			i++
		case eBody:
			n := int64(len(data) - i)
			if n > p.length {
				n = p.length
			}
			piece := data[i : i+int(n)]
			p.length -= n
			if p.length == 0 {
				p.state = eBodyCR
			}

			return piece, data[i+int(n):], nil
		case eBodyCR:
			switch c {
			case '\r':
				p.state = eBodyLF
			case '\n':
				p.state = eLength1
			default:
				return nil, nil, ErrBadRequest
			}
			i++
		case eBodyLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			p.state = eLength1
			i++
		case eLastStart:
			switch c {
			case '\r':
				p.state = eLastLF
				i++
			case '\n':
				return p.done(data[i+1:])
			default:
				if !trailer {
					return nil, nil, ErrBadRequest
				}
				p.state = eTrailer
			}
		case eLastLF, eTrailerEndLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}

			return p.done(data[i+1:])
		case eTrailer:
			if c == '\n' {
				p.state = eTrailerLineStart
			}
			i++
		case eTrailerLineStart:
			switch c {
			case '\r':
				p.state = eTrailerEndLF
				i++
			case '\n':
				return p.done(data[i+1:])
			default:
				p.state = eTrailer
			}
		}
	}

	return nil, nil, nil
}

func (p *Parser) lengthDone() {
	if p.length == 0 {
		p.state = eLastStart
	} else {
		p.state = eBody
	}
}

func (p *Parser) done(extra []byte) ([]byte, []byte, error) {
	p.state = eLength1
	return nil, extra, io.EOF
}

func unhex(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}

	return 0, false
}
