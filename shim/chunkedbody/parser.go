// Package chunkedbody: an incremental decoder of HTTP/1.1 chunked bodies with the contract of
// indigo-web/chunkedbody: every call consumes a prefix of data and returns at most one piece of
// payload; extra is what has not been consumed; io.EOF marks the end of the body (extra is then
// the first byte after it).
package chunkedbody

import (
	"errors"
	"io"
)

var (
	ErrBadRequest = errors.New("chunkedbody: malformed chunked body")
	ErrTooLarge   = errors.New("chunkedbody: chunk is too large")
)

type Settings struct {
	MaxChunkSize int64
}

func DefaultSettings() Settings {
	return Settings{MaxChunkSize: 128 * 1024}
}

type state uint8

const (
	eLength1 state = iota
	eLength
	eExt
	eLengthCR
	eBody
	eBodyEnd
	eBodyCR
	eLastLF  // after the 0-sized chunk, no trailer
	eLastCR  // ... CR seen
	eTrailer // at the beginning of a trailer line
	eTrailerCR
	eTrailerLine
)

type Parser struct {
	settings Settings
	st       state
	length   int64
	err      error
}

func NewParser(settings Settings) *Parser {
	return &Parser{settings: settings}
}

func (p *Parser) fail(err error) ([]byte, []byte, error) {
	p.err = err
	return nil, nil, err
}

func (p *Parser) eof(extra []byte) ([]byte, []byte, error) {
	p.st, p.length = eLength1, 0
	return nil, extra, io.EOF
}

func (p *Parser) headerDone(trailer bool) {
	switch {
	case p.length > 0:
		p.st = eBody
	case trailer:
		p.st = eTrailer
	default:
		p.st = eLastLF
	}
}

func (p *Parser) Parse(data []byte, trailer bool) (chunk, extra []byte, err error) {
	if p.err != nil {
		return nil, nil, p.err
	}

	for i := 0; i < len(data); i++ {
		c := data[i]

		switch p.st {
		case eLength1, eLength:
			if d, ok := unhex(c); ok {
				p.length = p.length<<4 | int64(d)
				if p.length > p.settings.MaxChunkSize {
					return p.fail(ErrTooLarge)
				}
				p.st = eLength
				continue
			}
			if p.st == eLength1 {
				return p.fail(ErrBadRequest)
			}
			switch c {
			case '\r':
				p.st = eLengthCR
			case '\n':
				p.headerDone(trailer)
			case ';':
				p.st = eExt
			default:
				return p.fail(ErrBadRequest)
			}
		case eExt:
			switch c {
			case '\r':
				p.st = eLengthCR
			case '\n':
				p.headerDone(trailer)
			}
		case eLengthCR:
			if c != '\n' {
				return p.fail(ErrBadRequest)
			}
			p.headerDone(trailer)
		case eBody:
			rest := data[i:]
			if int64(len(rest)) >= p.length {
				chunk, extra = rest[:p.length], rest[p.length:]
				p.length = 0
				p.st = eBodyEnd
				return chunk, extra, nil
			}
			p.length -= int64(len(rest))
			return rest, nil, nil
		case eBodyEnd:
			switch c {
			case '\r':
				p.st = eBodyCR
			case '\n':
				p.st = eLength1
			default:
				return p.fail(ErrBadRequest)
			}
		case eBodyCR:
			if c != '\n' {
				return p.fail(ErrBadRequest)
			}
			p.st = eLength1
		case eLastLF:
			switch c {
			case '\r':
				p.st = eLastCR
			case '\n':
				return p.eof(data[i+1:])
			default:
				return p.fail(ErrBadRequest)
			}
		case eLastCR:
			if c != '\n' {
				return p.fail(ErrBadRequest)
			}
			return p.eof(data[i+1:])
		case eTrailer:
			switch c {
			case '\r':
				p.st = eTrailerCR
			case '\n':
				return p.eof(data[i+1:])
			default:
				p.st = eTrailerLine
			}
		case eTrailerCR:
			if c != '\n' {
				return p.fail(ErrBadRequest)
			}
			return p.eof(data[i+1:])
		case eTrailerLine:
			if c == '\n' {
				p.st = eTrailer
			}
		}
	}

	return nil, nil, nil
}

func unhex(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}
