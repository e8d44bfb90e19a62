package util

import "github.com/lechuckroh/octopus-db-tools/verifspec"

// SpecReserved: the reserved words of Python.
func SpecReserved(s string) bool {
	switch s {
	case "and", "as", "assert", "break", "class", "continue", "def", "del", "elif", "else", "except", "False", "finally",
		"for", "from", "global", "if", "import", "in", "is", "lambda", "None", "nonlocal", "not", "or", "pass", "raise",
		"return", "True", "try", "while", "with", "yield":
		return true
	}
	return false
}

//verif:use util.IsPythonReservedWord by Verif_S01_Reserved
//verif:memo util.pythonReservedWordSet
func ctIsPythonReservedWord(s string) bool { return SpecReserved(s) }

func specMemoOK() bool {
	return verifspec.Eq(pythonReservedWordSet, NewStringSet(pythonReservedWords[:]...))
}

// the reserved words are those of Python, also when asked again.
func Verif_S01_Reserved(s string) {
	verifspec.Requires(pythonReservedWordSet == nil || specMemoOK())
	verifspec.Ensures("reserved words", IsPythonReservedWord(s) == SpecReserved(s))
	verifspec.Ensures("the set is kept", specMemoOK())
}
