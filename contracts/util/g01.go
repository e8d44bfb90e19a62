package util

import "github.com/lechuckroh/octopus-db-tools/verifspec"

func specHas(m map[string]bool, keys []string, k int) bool {
	return verifspec.Forall(0, k, func(i int) bool { _, ok := m[keys[i]]; return ok })
}

func VInv_G01_Seen(k int, m map[string]bool, keys []string) bool { return specHas(m, keys, k) }

//verif:use (*util.StringSet).ContainsAll by Verif_G01_ContainsAll
func ctContainsAll(s *StringSet, keys []string) bool { return specHas(s.valueMap, keys, len(keys)) }

// a set contains all keys exactly when it contains each of them.
func Verif_G01_ContainsAll(m map[string]bool, keys []string) {
	s := &StringSet{valueMap: m}
	verifspec.Ensures("each key", s.ContainsAll(keys) == specHas(m, keys, len(keys)))
}
