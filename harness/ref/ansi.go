package ref

import (
	"strings"
	"unicode/utf8"
)

func isDigit(b byte) bool { return b >= '0' && b <= '9' }
func isFinal(b byte) bool {
	return isDigit(b) || (b >= 'A' && b <= 'O') || b == 'R' || b == 'Z' || b == 'c' ||
		(b >= 'f' && b <= 'n') || b == 'q' || b == 'r' || b == 'y' || b == '=' || b == '>' || b == '<'
}

// Finals lists every final character of an ANSI sequence.
func Finals() []byte {
	var f []byte
	for b := 0; b < 128; b++ {
		if isFinal(byte(b)) {
			f = append(f, byte(b))
		}
	}
	return f
}

func introLen(s string) int {
	r, n := utf8.DecodeRuneInString(s)
	if r == 0x1b || (r == 0x9b && n == 2) {
		return n
	}
	return 0
}

// final tries to end the sequence at s; it returns the length matched or -1.
func final(s string, at int) int {
	if at < len(s) && isFinal(s[at]) {
		return at + 1
	}
	return -1
}

// rest matches (;[0-9]{0,4})* as long as possible, then the final character.
func rest(s string, at int) int {
	if at < len(s) && s[at] == ';' {
		d := 0
		for d < 4 && at+1+d < len(s) && isDigit(s[at+1+d]) {
			d++
		}
		for ; d >= 0; d-- {
			if e := rest(s, at+1+d); e >= 0 {
				return e
			}
		}
	}
	return final(s, at)
}

// EscapeLen is the length in bytes of the ANSI sequence s starts with, 0 if none.
func EscapeLen(s string) int {
	i := introLen(s)
	if i == 0 {
		return 0
	}
	p := i
	for p < len(s) && strings.IndexByte("[()#;?", s[p]) >= 0 {
		p++
	}
	for ; p >= i; p-- {
		d := 0
		for d < 4 && p+d < len(s) && isDigit(s[p+d]) {
			d++
		}
		for ; d >= 1; d-- {
			if e := rest(s, p+d); e >= 0 {
				return e
			}
		}
		if e := final(s, p); e >= 0 {
			return e
		}
	}
	return 0
}

// Strip removes the ANSI sequences.
func Strip(s string) string {
	if strings.IndexByte(s, 0x1b) < 0 && strings.IndexByte(s, 0xc2) < 0 {
		return s // no introducer
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if n := EscapeLen(s[i:]); n > 0 {
			i += n
			continue
		}
		_, n := utf8.DecodeRuneInString(s[i:])
		b.WriteString(s[i : i+n])
		i += n
	}
	return b.String()
}

// Visible is the number of screen cells of s, uncapped.
func Visible(c Cfg, s string) int { return StringWidth(c, Strip(s)) }

// Cap is the visible width as the library reports it.
func Cap(w int) int {
	if w > 65535 {
		return 65535
	}
	return w
}
