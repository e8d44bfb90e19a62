package util

import "github.com/lechuckroh/octopus-db-tools/verifspec"

// SpecSet: the set of the names a map holds.
func SpecSet(m map[string]bool) *StringSet { return &StringSet{valueMap: m} }

//verif:use (*util.StringSet).Slice by Verif_C04_SetSlice
func ctSlice(s *StringSet) []string {
	verifspec.Requires(s != nil)
	return verifspec.SortedKeys(s.valueMap)
}

func Verif_C04_SetSlice(s StringSet) {
	verifspec.Ensures("the names of the set, sorted, each once", verifspec.Eq(s.Slice(), ctSlice(&s)))
}

//verif:use util.NewStringMemoizer by Verif_C04_Memoizer
func ctNewStringMemoizer(fn func(interface{}) string) func(interface{}) string { return fn }

func specMemo(fn func(interface{}) string, keys []interface{}, k int) map[interface{}]string {
	if k <= 0 {
		return map[interface{}]string{}
	}
	m := specMemo(fn, keys, k-1)
	if _, ok := m[keys[k-1]]; !ok {
		m[keys[k-1]] = fn(keys[k-1])
	}
	return m
}

// the memory is what was asked for so far
func VInv_C04_Memo(v map[interface{}]string, fn func(interface{}) string, keys []interface{}, k int) bool {
	return verifspec.Eq(v, specMemo(fn, keys, k))
}

// a memoised function gives what the function gives, whatever it was asked before.
func Verif_C04_Memoizer(fn func(interface{}) string, keys []interface{}, key interface{}) {
	verifspec.Requires(fn != nil)
	m := NewStringMemoizer(fn)
	for _, k := range keys {
		m(k)
	}
	verifspec.Ensures("the value of the function", m(key) == fn(key))
}
