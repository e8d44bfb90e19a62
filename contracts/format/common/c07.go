package common

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

func specPrefixes(xs []string, k int) map[string]string {
	if k <= 0 {
		return map[string]string{}
	}
	m := specPrefixes(xs, k-1)
	kv := strings.SplitN(xs[k-1], ":", 2)
	if len(kv) == 2 {
		m[kv[0]] = kv[1]
	}
	return m
}

func specPrefix(option, group string) string {
	if !strings.Contains(option, ":") {
		return option
	}
	xs := strings.Split(option, ",")
	m := specPrefixes(xs, len(xs))
	if len(m) == 0 {
		return option
	}
	return m[group]
}

func Verif_C07_Prefix(option, group string) {
	verifspec.Ensures("the prefix of the group", NewPrefixMapper(option).GetPrefix(group) == specPrefix(option, group))
}

func specAnnotations(xs []string, k int) map[string][]string {
	if k <= 0 {
		return map[string][]string{}
	}
	m := specAnnotations(xs, k-1)
	kv := strings.SplitN(xs[k-1], ":", 2)
	if len(kv) == 2 {
		m[kv[0]] = strings.Split(kv[1], ";")
	}
	return m
}

func specAnnotation(option, group string) []string {
	if !strings.Contains(option, ":") {
		return []string{option}
	}
	xs := strings.Split(option, ",")
	m := specAnnotations(xs, len(xs))
	if len(m) == 0 {
		return []string{option}
	}
	return m[group]
}

func Verif_C07_Annotation(option, group string) {
	verifspec.Ensures("the annotations of the group", verifspec.Eq(NewAnnotationMapper(option).GetAnnotations(group), specAnnotation(option, group)))
}
