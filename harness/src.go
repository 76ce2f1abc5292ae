package main

import (
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/vim-jp/go-vimlparser/ast"
)

// Src is an independent model of what the parser sees: the characters of the
// source after joining continuation lines, each with its place in the source.
// The positions are those the property promises; nothing here is shared with
// the code under test.
type Src struct {
	Raw   []byte
	Chars []Ch // with S == "\n" at the end of each logical line
	EOF   Ch
	CRLF  bool // some line ends with CR LF
	NL    []int
}

type Ch struct {
	S              string
	Line, Col, Off int
}

type physLine struct {
	text  string
	start int
}

func NewSrc(b []byte) *Src {
	s := &Src{Raw: b}
	var lines []physLine
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] != '\n' {
			j++
		}
		t := string(b[i:j])
		cr := strings.HasSuffix(t, "\r")
		if cr {
			t = t[:len(t)-1]
			s.CRLF = true
		}
		lines = append(lines, physLine{t, i})
		i = j + 1
	}
	leads := func(t string) int { // length of white space and backslash
		for k := 0; k < len(t); k++ {
			if t[k] == '\\' {
				return k + 1
			}
			if t[k] != ' ' && t[k] != '\t' {
				return -1
			}
		}
		return -1
	}
	for i := 0; i < len(lines); {
		add := func(l physLine, num int, from int) {
			for k := from; k < len(l.text); {
				_, n := utf8.DecodeRuneInString(l.text[k:])
				s.Chars = append(s.Chars, Ch{l.text[k : k+n], num, k + 1, l.start + k})
				k += n
			}
		}
		add(lines[i], i+1, 0)
		for i+1 < len(lines) {
			k := leads(lines[i+1].text)
			if k < 0 {
				break
			}
			i++
			add(lines[i], i+1, k)
		}
		l := lines[i]
		s.Chars = append(s.Chars, Ch{"\n", i + 1, len(l.text) + 1, l.start + len(l.text)})
		i++
	}
	end := len(b)
	if len(b) > 0 && b[len(b)-1] != '\n' {
		end++ // as if there were a final newline
	}
	s.EOF = Ch{"", len(lines) + 1, 0, end}
	return s
}

// At returns the index of the character at the position, len(Chars) for the
// end of the file and -1 if there is no such character.
func (s *Src) At(line, col int) int {
	i := sort.Search(len(s.Chars), func(i int) bool {
		c := s.Chars[i]
		return c.Line > line || c.Line == line && c.Col >= col
	})
	if i < len(s.Chars) && s.Chars[i].Line == line && s.Chars[i].Col == col {
		return i
	}
	if line == s.EOF.Line && col == 0 {
		return len(s.Chars)
	}
	return -1
}

func (s *Src) Ch(i int) Ch {
	if i >= len(s.Chars) {
		return s.EOF
	}
	return s.Chars[i]
}

// Text is the joined text of at most n characters from index i, stopping at
// the end of the logical line unless nl.
func (s *Src) Text(i, n int, nl bool) string {
	var b strings.Builder
	for ; n > 0 && i < len(s.Chars); i, n = i+1, n-1 {
		if s.Chars[i].S == "\n" && !nl {
			break
		}
		b.WriteString(s.Chars[i].S)
	}
	return b.String()
}

// Bytes is the joined text from index i, as many characters as begin in n
// bytes.
func (s *Src) Bytes(i, n int) string {
	var b strings.Builder
	for ; b.Len() < n && i < len(s.Chars); i++ {
		b.WriteString(s.Chars[i].S)
	}
	return b.String()
}

func (s *Src) Line(i int) string { return s.Text(i, 1<<30, false) }

func (s *Src) Pos(i int, file string) ast.Pos {
	c := s.Ch(i)
	return ast.Pos{Offset: c.Off, Line: c.Line, Column: c.Col, Filename: file}
}

// Joined returns the joined characters as strings.
func (s *Src) Joined() []string {
	r := make([]string, len(s.Chars))
	for i, c := range s.Chars {
		r[i] = c.S
	}
	return r
}

// Relayout writes the joined characters again with line breaks before the
// characters chosen by brk (the text of the breaks, "" for none). It returns
// the new source.
func Relayout(chars []string, brk func(i int) string) []byte {
	var b []byte
	for i, c := range chars {
		if t := brk(i); t != "" {
			b = append(b, t...)
		}
		b = append(b, c...)
	}
	return b
}
