// Package fmtmodel states what package fmt's Fscanln does for string
// operands. The engine calls it in place of the library's.
package fmtmodel

import (
	"errors"
	"io"

	"vfh/vf"
)

type state struct {
	rs    io.RuneScanner
	atEOF bool
}

type scanError struct{ err error }

const eof = -1

func (s *state) get() rune {
	if s.atEOF {
		return eof
	}
	r, _, err := s.rs.ReadRune()
	if err != nil {
		if err == io.EOF {
			s.atEOF = true
			return eof
		}
		panic(scanError{err})
	}
	if r == '\n' {
		s.atEOF = true
	}
	return r
}

func (s *state) unread() {
	s.rs.UnreadRune()
	s.atEOF = false
}

func isSpace(r rune) bool {
	switch {
	case r >= 0x9 && r <= 0xd, r == 0x20, r == 0x85, r == 0xa0, r == 0x1680, r >= 0x2000 && r <= 0x200a,
		r == 0x2028, r == 0x2029, r == 0x202f, r == 0x205f, r == 0x3000:
		return true
	}
	return false
}

func (s *state) skip() {
	for {
		r := s.get()
		if r == eof {
			return
		}
		if r == '\r' {
			q := s.get()
			if q != eof {
				s.unread()
			}
			if q == '\n' {
				continue
			}
		}
		if r == '\n' {
			panic(scanError{errors.New("unexpected newline")})
		}
		if !isSpace(r) {
			s.unread()
			return
		}
	}
}

func (s *state) word() string {
	s.skip()
	if r := s.get(); r == eof {
		panic(io.EOF)
	}
	s.unread()
	w := ""
	for {
		r := s.get()
		if r == eof {
			break
		}
		if isSpace(r) {
			s.unread()
			break
		}
		w += string(r)
	}
	return w
}

// Fscanln scans one line.
func Fscanln(r io.Reader, a ...any) (n int, err error) {
	rs, ok := r.(io.RuneScanner)
	if !ok {
		vf.Unsupported("Fscanln from a reader without ReadRune")
	}
	s := &state{rs: rs}
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(scanError); ok {
				err = se.err
			} else if eo, ok := e.(error); ok && eo == io.EOF {
				err = eo
			} else {
				panic(e)
			}
		}
	}()
	for _, arg := range a {
		p, ok := arg.(*string)
		if !ok {
			vf.Unsupported("Fscanln into other than strings")
		}
		*p = s.word()
		n++
	}
	for {
		r := s.get()
		if r == '\n' || r == eof {
			break
		}
		if !isSpace(r) {
			panic(scanError{errors.New("expected newline")})
		}
	}
	return
}
