package main

import "strings"

// arrows rewrites  A ==> B  into implies(A, B) and  A <==> B  into iff(A, B), inside every parenthesis group.
func arrows(s string) string {
	if !strings.Contains(s, "==>") {
		return s
	}
	// split s into comma-separated pieces at depth 0, recursing into groups
	var out strings.Builder
	var piece strings.Builder
	flush := func() {
		out.WriteString(arrowPiece(piece.String()))
		piece.Reset()
	}
	i := 0
	for i < len(s) {
		c := s[i]
		switch c {
		case '"', '\'', '`':
			j := skipQuote(s, i)
			piece.WriteString(s[i:j])
			i = j
		case '(', '[', '{':
			j := matchClose(s, i)
			piece.WriteByte(c)
			piece.WriteString(arrows(s[i+1 : j]))
			piece.WriteByte(s[j])
			i = j + 1
		case ',':
			flush()
			out.WriteByte(',')
			i++
		default:
			piece.WriteByte(c)
			i++
		}
	}
	flush()
	return out.String()
}

func skipQuote(s string, i int) int {
	q := s[i]
	for j := i + 1; j < len(s); j++ {
		if s[j] == '\\' && q != '`' {
			j++
			continue
		}
		if s[j] == q {
			return j + 1
		}
	}
	return len(s)
}

func matchClose(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '"', '\'', '`':
			j = skipQuote(s, j) - 1
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic("unbalanced expression: " + s)
}

func topIndex(s, op string) int {
	d := 0
	for j := 0; j < len(s); j++ {
		switch s[j] {
		case '"', '\'', '`':
			j = skipQuote(s, j) - 1
			continue
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && strings.HasPrefix(s[j:], op) {
			if op == "==>" && j > 0 && s[j-1] == '<' {
				continue
			}
			return j
		}
	}
	return -1
}

func arrowPiece(s string) string {
	if j := topIndex(s, "<==>"); j >= 0 {
		return " iff(" + arrowPiece(s[:j]) + ", " + arrowPiece(s[j+4:]) + ")"
	}
	if j := topIndex(s, "==>"); j >= 0 {
		return " implies(" + arrowPiece(s[:j]) + ", " + arrowPiece(s[j+3:]) + ")"
	}
	return s
}
