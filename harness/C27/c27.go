package ssh

import (
	"github.com/LogicalOverflow/music-sync/ssh/parser"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/antlr/antlr4/runtime/Go/antlr"
)

// zzChar: kind 0 is the space, 1 the backslash, 2 any other ASCII character that is not white
// space, 3 a character of two bytes, 4 one of three bytes.
func zzChar(kind int) string {
	switch kind {
	case 0:
		return " "
	case 1:
		return "\\"
	case 2:
		b := zzverif.Byte("ascii")
		zzverif.Assume(b != ' ' && b != '\\' && b < 0x80 && (b < 9 || 13 < b))
		return string([]byte{b})
	case 3:
		b, c := zzverif.Byte("two"), zzverif.Byte("two")
		zzverif.Assume(0xc3 <= b && b <= 0xdf && 0x80 <= c && c <= 0xbf)
		return string([]byte{b, c})
	}
	a, b, c := zzverif.Byte("three"), zzverif.Byte("three"), zzverif.Byte("three")
	zzverif.Assume(0xe4 <= a && a <= 0xec && 0x80 <= b && b <= 0xbf && 0x80 <= c && c <= 0xbf)
	return string([]byte{a, b, c})
}

// zzWords splits the characters as documented; ok is false if a word begins with white space
// or one other than the last, which is being typed, ends with it.
func zzWords(kinds []int, chars []string) (words []string, ok bool) {
	ok = true
	words = []string{""}
	first, last := -1, -1
	add := func(kind int, s string) {
		if first < 0 {
			first = kind
		}
		last = kind
		words[len(words)-1] += s
	}
	for i := 0; i < len(kinds); i++ {
		switch {
		case kinds[i] == 0:
			if first == 0 || last == 0 {
				ok = false
			}
			first, last = -1, -1
			words = append(words, "")
		case kinds[i] == 1 && i+1 < len(kinds) && kinds[i+1] <= 1:
			i++
			add(kinds[i], chars[i])
		default:
			add(kinds[i], chars[i])
		}
	}
	if first == 0 {
		ok = false
	}
	return
}

func zzHasPrefix(s, prefix string) bool {
	return len(prefix) <= len(s) && s[:len(prefix)] == prefix
}

// zzOption is a string of 1 to max characters that neither begins nor ends with white space.
func zzOption(max, kinds int) (s string) {
	n := 1 + zzverif.Choose("option length", max)
	for i := 0; i < n; i++ {
		kind := zzverif.Choose("option kind", kinds)
		if kind == 0 && (i == 0 || i == n-1) {
			zzverif.Stop()
		}
		s += zzChar(kind)
	}
	return
}

// ZZ_C27_Complete: the command o has the options given; the line is a start followed by up to
// len characters, the cursor is at its end or before its last characters.
func ZZ_C27_Complete() {
	options := make([]string, zzverif.Bound("options"))
	for i := range options {
		options[i] = zzOption(zzverif.Bound("optlen"), zzverif.Bound("kinds"))
	}
	starts := []string{"", "o ", "o  ", "o x  ", "\\o ", "ex", "l"}
	kinds, chars := zzStart(starts[zzverif.Choose("start", len(starts))])
	n := zzverif.Choose("length", zzverif.Bound("len")+1)
	for i := 0; i < n; i++ {
		kind := zzverif.Choose("kind", zzverif.Bound("kinds"))
		kinds, chars = append(kinds, kind), append(chars, zzChar(kind))
	}
	after := ""
	if n == 1 {
		after = []string{"", "o", " ", "\\"}[zzverif.Choose("after the cursor", zzverif.Bound("after"))]
	}
	zzComplete(options, kinds, chars, after)
}

// ZZ_C27_Letters: options that differ in single letters only, a word of one or two letters.
func ZZ_C27_Letters() {
	options := []string{"ab", "Ab", "aB", "b", "abc", "é", "a b"}
	starts := []string{"o ", "o x ", ""}
	kinds, chars := zzStart(starts[zzverif.Choose("start", len(starts))])
	for i := 1 + zzverif.Choose("length", zzverif.Bound("len")); 0 < i; i-- {
		b := zzverif.Byte("letter")
		zzverif.Assume('A' <= b && b <= 'Z' || 'a' <= b && b <= 'z')
		kinds, chars = append(kinds, 2), append(chars, string([]byte{b}))
	}
	zzComplete(options, kinds, chars, "")
}

func zzStart(start string) (kinds []int, chars []string) {
	for _, c := range start {
		switch c {
		case ' ':
			kinds = append(kinds, 0)
		case '\\':
			kinds = append(kinds, 1)
		default:
			kinds = append(kinds, 2)
		}
		chars = append(chars, string(c))
	}
	return
}

func zzComplete(options []string, kinds []int, chars []string, after string) {
	antlr.LexerATNSimulatorMaxDFAEdge = -1
	line, pos := "", len(kinds)
	for _, c := range chars {
		line += c
	}

	words, ok := zzWords(kinds, chars)
	if !ok {
		zzverif.Stop()
	}
	before := 0
	for _, w := range words[1:] {
		if w != "" {
			before++
		}
	}
	word, expected := words[len(words)-1], []string{}
	if len(words) > 1 && word != "" {
		before--
	}
	commands = []Command{helpCommand, lsCommand, {Name: "o", OptionsFunc: func(prefix string, arg int) []string {
		zzverif.Assert(prefix == word && arg == before, "the options are asked for the argument that is typed")
		return append([]string{}, options...)
	}}}
	var candidates []string
	if len(words) == 1 {
		candidates = []string{"clear", "exit", "help", "ls", "o"}
	} else if words[0] == "o" {
		candidates = options
	} else if words[0] == "help" || words[0] == "ls" {
		zzverif.Stop()
	}
	for _, c := range candidates {
		if zzHasPrefix(c, word) {
			expected = append(expected, c)
		}
	}

	got, _ := (&sshAutoCompleter{}).Do([]rune(line+after), pos)
	zzverif.Assert(len(got) <= len(expected), "nothing but the options that start with the word is offered")
	found := make([]bool, len(expected))
	for _, g := range got {
		cmd := parser.ParseCommand(line + string(g))
		all := append([]string{cmd.Command}, cmd.Parameters...)
		k, same := 0, true
		for i, w := range words[:len(words)-1] {
			if i > 0 && w == "" {
				continue
			}
			same = same && k < len(all) && all[k] == w
			k++
		}
		zzverif.Assert(same && len(all) == k+1, "a completion changes nothing but the word that is typed")
		is := false
		for i, e := range expected {
			if all[k] == e {
				is, found[i] = true, true
			}
		}
		zzverif.Assert(is, "a completion makes the word one of the options")
	}
	for _, f := range found {
		zzverif.Assert(f, "every option that starts with the word is offered")
	}
	zzverif.Reach("end")
}
