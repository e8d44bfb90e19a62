package octopus

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

func specShape(ts []*Table) bool {
	return verifspec.Forall(0, len(ts), func(i int) bool {
		return ts[i] != nil && verifspec.Forall(0, len(ts[i].Columns), func(j int) bool { return ts[i].Columns[j] != nil })
	})
}

// specNormColumn: the column as normalisation leaves it.
func specNormColumn(c Column) Column {
	r := c
	r.Type = specCanonOf(c.Type)
	if r.AutoIncremental && !specIntType(strings.ToLower(r.Type)) {
		r.AutoIncremental = false
	}
	return r
}

func specSameTableHead(a, b *Table) bool {
	return a.Name == b.Name && a.Group == b.Group && a.Description == b.Description && a.ClassName == b.ClassName && verifspec.Eq(a.Indices, b.Indices) && len(a.Columns) == len(b.Columns)
}

func specNormTable(a, b *Table, k int) bool {
	return a != nil && specSameTableHead(a, b) &&
		verifspec.Forall(0, k, func(j int) bool {
			return a.Columns[j] != nil && verifspec.Eq(*a.Columns[j], specNormColumn(*b.Columns[j])) && specColumnValid(*a.Columns[j])
		}) &&
		verifspec.Forall(k, len(b.Columns), func(j int) bool { return verifspec.Eq(a.Columns[j], b.Columns[j]) })
}

// specSameColumns: the columns of both tables agree, one by one.
func specSameColumns(a, b *Table) bool {
	return verifspec.Forall(0, len(b.Columns), func(j int) bool { return verifspec.Eq(a.Columns[j], b.Columns[j]) })
}

// outer loop: a prefix of the tables is done
func VInv_C03_Tables(v, v_0 []*Table, k int) bool {
	return len(v) == len(v_0) &&
		verifspec.Forall(0, k, func(i int) bool { return specNormTable(v[i], v_0[i], len(v_0[i].Columns)) }) &&
		verifspec.Forall(k, len(v), func(i int) bool { return specSameColumns(v[i], v_0[i]) })
}

// inner loop: a prefix of the columns of table t is done
func VInv_C03_Columns(v, v_0 []*Table, t int, k int) bool {
	return 0 <= t && t < len(v_0) && len(v) == len(v_0) && k <= len(v_0[t].Columns) && specNormTable(v[t], v_0[t], k) &&
		verifspec.Forall(0, len(v), func(i int) bool { return i == t || specSameColumns(v[i], v_0[i]) })
}

func specOrdered(a, b *Table) bool {
	return a.Group < b.Group || (a.Group == b.Group && a.Name <= b.Name)
}

// Normalize on success: tables sorted, every column canonical and valid.
//
//verif:opaque octopus.specCanonOf octopus.specKnownType octopus.specIntType
func Verif_C03_Normalize(s *Schema) {
	verifspec.Requires(specShape(s.Tables))
	old := *s
	sorted := verifspec.Clone(s.Tables).([]*Table)
	sortTables(sorted)
	err := s.Normalize()
	verifspec.Ensures("author, name and version stay", s.Author == old.Author && s.Name == old.Name && s.Version == old.Version)
	verifspec.Ensures("no table appears or vanishes", len(s.Tables) == len(sorted))
	if err == nil {
		verifspec.Ensures("every table is its sorted original with canonical valid columns", verifspec.Forall(0, len(sorted), func(i int) bool {
			return specNormTable(s.Tables[i], sorted[i], len(sorted[i].Columns))
		}))
	}
}
