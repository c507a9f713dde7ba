package parser

import (
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/antlr/antlr4/runtime/Go/antlr"
)

// A character is given as its bytes; kind 0 is the space, 1 the backslash, 2 any other
// ASCII character that is not white space, 3 to 5 characters of 2 to 4 bytes (white space
// excluded), 6 the tab.
func zzChar(kind int) string {
	switch kind {
	case 0:
		return " "
	case 1:
		return "\\"
	case 2:
		b := zzverif.Byte("ascii")
		zzverif.Assume(b != ' ' && b != '\\' && b < 0x80 && (b < 9 || 13 < b))
		return string([]byte{b})
	case 3:
		b, c := zzverif.Byte("two"), zzverif.Byte("two")
		zzverif.Assume(0xc3 <= b && b <= 0xdf && 0x80 <= c && c <= 0xbf)
		return string([]byte{b, c})
	case 4:
		a, b, c := zzverif.Byte("three"), zzverif.Byte("three"), zzverif.Byte("three")
		zzverif.Assume(0xe4 <= a && a <= 0xec && 0x80 <= b && b <= 0xbf && 0x80 <= c && c <= 0xbf)
		return string([]byte{a, b, c})
	case 5:
		a, b, c, d := zzverif.Byte("four"), zzverif.Byte("four"), zzverif.Byte("four"), zzverif.Byte("four")
		zzverif.Assume(0xf1 <= a && a <= 0xf3 && 0x80 <= b && b <= 0xbf && 0x80 <= c && c <= 0xbf && 0x80 <= d && d <= 0xbf)
		return string([]byte{a, b, c, d})
	}
	return "\t"
}

// zzWords splits the characters as documented; ok is false if a word begins or ends with white space.
func zzWords(kinds []int, chars []string) (words []string, ok bool) {
	ok = true
	words = []string{""}
	first, last := -1, -1
	end := func() {
		if first == 0 || last == 0 || first == 6 || last == 6 {
			ok = false
		}
		first, last = -1, -1
	}
	add := func(kind int, s string) {
		if first < 0 {
			first = kind
		}
		last = kind
		words[len(words)-1] += s
	}
	for i := 0; i < len(kinds); i++ {
		switch {
		case kinds[i] == 0:
			end()
			words = append(words, "")
		case kinds[i] == 1 && i+1 < len(kinds) && kinds[i+1] <= 1:
			i++
			add(kinds[i], chars[i])
		default:
			add(kinds[i], chars[i])
		}
	}
	end()
	return
}

func zzSame(got ParsedCommand, words []string, msg string) {
	zzverif.Assert(got.Command == words[0], msg)
	n := 0
	for _, w := range words[1:] {
		if w == "" {
			continue
		}
		zzverif.Assert(n < len(got.Parameters) && got.Parameters[n] == w, msg)
		n++
	}
	zzverif.Assert(len(got.Parameters) == n, msg)
}

// ZZ_C26_Parse: every line of up to len characters.
func ZZ_C26_Parse() {
	antlr.LexerATNSimulatorMaxDFAEdge = -1
	n := zzverif.Choose("length", zzverif.Bound("len")+1)
	kinds, chars, line := make([]int, n), make([]string, n), ""
	for i := range kinds {
		kinds[i] = zzverif.Choose("kind", zzverif.Bound("kinds"))
		chars[i] = zzChar(kinds[i])
		line += chars[i]
	}
	words, ok := zzWords(kinds, chars)
	if !ok {
		zzverif.Stop()
	}
	zzSame(ParseCommand(line), words, "a line is split at unescaped spaces and unescaped")
	zzverif.Reach("end")
}

// ZZ_C26_RoundTrip: every command and parameters, written out and parsed again.
func ZZ_C26_RoundTrip() {
	antlr.LexerATNSimulatorMaxDFAEdge = -1
	words := make([]string, 1+zzverif.Choose("parameters", zzverif.Bound("words")))
	for i := range words {
		n := 1 + zzverif.Choose("length", zzverif.Bound("len"))
		for j := 0; j < n; j++ {
			kind := zzverif.Choose("kind", zzverif.Bound("kinds"))
			if (kind == 0 || kind == 6) && (j == 0 || j == n-1) {
				zzverif.Stop()
			}
			words[i] += zzChar(kind)
		}
	}
	cmd := ParsedCommand{Command: words[0], Parameters: append([]string{}, words[1:]...)}
	zzSame(ParseCommand(cmd.Unparse()), words, "a command that is written out and parsed again is the same")
	zzverif.Reach("end")
}
