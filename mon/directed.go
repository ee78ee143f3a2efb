package main

import (
	"strings"
	"unicode"
)

// directedTexts visits every pair of a context of the notation and a next
// token, every Unicode set and the neighbourhood of every keyword.
func directedTexts() []string {
	var out []string
	// contexts: the text before the next token, and text that may complete it
	ctx := [][2]string{
		{``, `"x" S : "a" ;`},
		{`package`, `S : "a" ;`},
		{`package "x"`, `: "a" ;`},
		{`package "x"`, `aa : 'x' ;`},
		{`package "x" !`, `: 'x' ;`},
		{`package "x" aa`, `'x' ;`},
		{`package "x" aa :`, `;`},
		{`package "x" bb : 'y' ; aa :`, `"z" ;`},
		{`package "x" aa : 'x'`, `;`},
		{`package "x" aa : 'x'`, `S : "a" ;`},
		{`package "x" aa : any`, `;`},
		{`package "x" aa : not`, `;`},
		{`package "x" aa : .`, `;`},
		{`package "x" aa : letter`, `'x' ) } ] > ;`},
		{`package "x" bb : 'y' ; aa : bb`, `;`},
		{`package "x" bb : 'y' ; aa : ( bb`, `) ;`},
		{`package "x" aa : (`, `) ;`},
		{`package "x" aa : [`, `] ;`},
		{`package "x" aa : {`, `} ;`},
		{`package "x" aa : <`, `> ;`},
		{`package "x" aa : ( 'x'`, `) ;`},
		{`package "x" aa : [ 'x'`, `] ;`},
		{`package "x" aa : { 'x'`, `} ;`},
		{`package "x" aa : < 'x'`, `> ;`},
		{`package "x" aa : ( 'x' |`, `) ;`},
		{`package "x" aa : ( 'x' | 'y' )`, `;`},
		{`package "x" aa : { [ 'x' ]`, `} ;`},
		{`package "x" aa : '[`, `]' ;`},
		{`package "x" aa : '[ \p{L}`, `]' ;`},
		{`package "x" aa : '[ \p{L}`, `\p{Nd} ]' ;`},
		{`package "x" aa : '[ \p{L} -`, `]' ;`},
		{`package "x" aa : '[ \p{L} ]'`, `;`},
		{`package "x" S`, `"a" ;`},
		{`package "x" aa : 'x' ; S :`, `;`},
		{`package "x" aa : 'x' ; S : "a"`, `;`},
		{`package "x" aa : 'x' ; S : "a"`, `"b" ;`},
		{`package "x" aa : 'x' ; S : aa`, `;`},
		{`package "x" aa : 'x' ; S : S`, `;`},
		{`package "x" aa : 'x' ; S : empty`, `;`},
		{`package "x" aa : 'x' ; S : "a" |`, `;`},
		{`package "x" aa : 'x' ; S : "a" ;`, `T : "b" ;`},
		{`package "x" aa : 'x' ; S : "a" ;`, ``},
	}
	next := append(append([]string{}, notationKeywords...), `'x'`, `'\''`, `"q"`, `"\""`, `aa`, `zz`, `S`, `\p{Nd}`, `\p{Dash}`, ``, `§`)
	for _, c := range ctx {
		for _, t := range next {
			out = append(out, c[0]+" "+t+" "+c[1])
		}
	}
	for _, n := range append(append([]string{}, uniCategories...), uniProperties...) {
		out = append(out,
			`package "x" aa : '[\p{`+n+`}]' ; S : aa ;`,
			`package "x" aa : '[\p{L}\p{`+n+`}-\p{Me}]' ;`,
			`package "x" aa : '[\p{Soft_Dotted}-\p{`+n+`}]' ;`,
			`package "x" aa : '[\p{`+n[:len(n)-1]+`}]' ;`,
			`package "x" aa : '[\p{`+n+`x}]' ;`)
	}
	for _, k := range notationKeywords {
		if k[0] < 'a' || k[0] > 'z' {
			continue
		}
		for _, w := range []string{k[:len(k)-1], k + "s", k + "1", k + "_", k[:2], strings.ToUpper(k[:1]) + k[1:], k[:2] + "z"} {
			out = append(out, `package "x" `+w+` : 'x' ;`, `package "x" S : `+w+` ;`, `package "x" `+w+` : 'x' ; bb : `+w+` 'y' ; S : `+w+` | bb ;`)
		}
	}
	// names without a rule that are the text of a literal, and the reverse
	for _, w := range []string{"foo", "Foo", "f_0", "F_0", "empty0", "λx", "Éa"} {
		r, z := []rune(w)[0], `: "z"`
		if !unicode.IsUpper(r) {
			z = ": 'z'"
		}
		for _, t := range []string{
			`S : %s "x" | "%s" S ;`, `S : "%s" S | %s "x" ;`, `S : "%s" | "y" %s ;`, `S : A "%s" | %s ; A : "u" | "v" A ;`,
			`S : A %s | "y" ; A : "u" | "%s" A ;`, `S : "a" | %s "b" ; aa : 'x' { "%s" } ;`,
		} {
			t = strings.ReplaceAll(t, "%s", w)
			out = append(out, `package "x" `+t, `package "x" `+t+" "+w+" "+z+" ;")
		}
	}
	for _, l := range []string{`'\\'`, `'\''`, `'\n'`, `'\r'`, `'\t'`, `'\x'`, `'"'`, `'''`, `''`, `'ab'`, `'λ'`, `'𝔸'`, `'\\0'`, `'\'`, `' '`, "'\n'", `'['`, `'-'`, `']'`} {
		out = append(out, `package "x" aa : `+l+` ;`, `package "x" aa : `+l+`'y' ;`, `package "x" aa : [`+l+`] ;`)
	}
	for _, l := range []string{`"\\"`, `"\""`, `"\n"`, `"\x"`, `"'"`, `"`, `""`, `"a`, `"λ𝔸"`, `"\\\""`, `"a"b"`, "\"a\nb\"", `"a\\n"`} {
		out = append(out, `package "x" aa : any `+l+` ;`, `package "x" S : `+l+` ;`, `package "x" S : "a"`+l+`"b" ;`)
	}
	for _, w := range []string{"ab", "a", "aB", "a_", "a9", "éa", "ßß", "aé", "a٣", "aⅧ", "a-b", "_a", "9a", "ａb", "ab\u0301", "ªa"} {
		out = append(out, `package "x" `+w+` : 'x' ; S : `+w+` ;`)
	}
	for _, w := range []string{"A", "Ab", "A_", "A9", "É", "Éé", "A٣", "A-b", "ǅ", "ǅa", "Ａ", "A\u0301", "ⅧA", "ΑΒ"} {
		out = append(out, `package "x" `+w+` : "x" ; `, `package "x" S : `+w+` "y" ; `+w+` : "x" ; `)
	}
	return out
}
