package octopus

import (
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

func specColumnsOK(t Table) bool {
	return verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil })
}

// specFindColumn: the first column at or after i that has the name.
func specFindColumn(cs []*Column, name string, i int) *Column {
	if i >= len(cs) {
		return nil
	}
	if cs[i].Name == name {
		return cs[i]
	}
	return specFindColumn(cs, name, i+1)
}

func VInv_C04_FindColumn(xs []*Column, name string, k int) bool {
	return specFindColumn(xs, name, 0) == specFindColumn(xs, name, k)
}

func specFindIndex(xs []*Index, name string, i int) *Index {
	if i >= len(xs) {
		return nil
	}
	if xs[i].Name == name {
		return xs[i]
	}
	return specFindIndex(xs, name, i+1)
}

func VInv_C04_FindIndex(xs []*Index, name string, k int) bool {
	return specFindIndex(xs, name, 0) == specFindIndex(xs, name, k)
}

//verif:use (*octopus.Schema).TableByName by Verif_C04_TableByName
func ctTableByName(s *Schema, name string) *Table {
	verifspec.Requires(specNonNil(s.Tables))
	r := specFindTable(s.Tables, name, 0)
	verifspec.Provides("the table is one of the schema", r == nil || verifspec.Exists(0, len(s.Tables), func(i int) bool { return verifspec.Eq(s.Tables[i], r) }))
	return r
}

//verif:use (*octopus.Table).ColumnByName by Verif_C04_ColumnByName
func ctColumnByName(t *Table, name string) *Column {
	verifspec.Requires(specColumnsOK(*t))
	r := specFindColumn(t.Columns, name, 0)
	verifspec.Provides("the column is one of the table", r == nil || verifspec.Exists(0, len(t.Columns), func(i int) bool { return verifspec.Eq(t.Columns[i], r) }))
	return r
}

func Verif_C04_ColumnByName(t Table, name string) {
	verifspec.Requires(specColumnsOK(t))
	got := t.ColumnByName(name)
	verifspec.Ensures("the first column of that name", verifspec.Eq(got, ctColumnByName(&t, name)))
}

func Verif_C04_IndexByName(t Table, name string) {
	verifspec.Requires(verifspec.Forall(0, len(t.Indices), func(i int) bool { return t.Indices[i] != nil }))
	verifspec.Ensures("the first index of that name", verifspec.Eq(t.IndexByName(name), specFindIndex(t.Indices, name, 0)))
}

// specColumnMap: the columns by name (the last one of a name counts).
func specColumnMap(cs []*Column, k int) map[string]*Column {
	if k <= 0 {
		return map[string]*Column{}
	}
	m := specColumnMap(cs, k-1)
	m[cs[k-1].Name] = cs[k-1]
	return m
}

// SpecColumnIndex: the columns of a table by name.
func SpecColumnIndex(t *Table) map[string]*Column { return specColumnMap(t.Columns, len(t.Columns)) }

//verif:use (*octopus.Table).ColumnNameMap by Verif_C04_ColumnNameMap
func ctColumnNameMap(t *Table) map[string]*Column {
	verifspec.Requires(specColumnsOK(*t))
	return SpecColumnIndex(t)
}

func Verif_C04_ColumnNameMap(t Table) {
	verifspec.Requires(specColumnsOK(t))
	verifspec.Ensures("every column under its name", verifspec.Eq(t.ColumnNameMap(), SpecColumnIndex(&t)))
}

func specTableMap(ts []*Table, k int) map[string]*Table {
	if k <= 0 {
		return map[string]*Table{}
	}
	m := specTableMap(ts, k-1)
	m[ts[k-1].Name] = ts[k-1]
	return m
}

// SpecTableIndex: the tables of a schema by name.
func SpecTableIndex(s *Schema) map[string]*Table { return specTableMap(s.Tables, len(s.Tables)) }

//verif:use (*octopus.Schema).TablesByName by Verif_C04_TablesByName
func ctTablesByName(s *Schema) map[string]*Table {
	verifspec.Requires(specNonNil(s.Tables))
	return SpecTableIndex(s)
}

func Verif_C04_TablesByName(s Schema) {
	verifspec.Requires(specNonNil(s.Tables))
	verifspec.Ensures("every table under its name", verifspec.Eq(s.TablesByName(), SpecTableIndex(&s)))
}

func specPKSet(cs []*Column, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	m := specPKSet(cs, k-1)
	if cs[k-1].PrimaryKey {
		m[cs[k-1].Name] = true
	}
	return m
}

func specUniqueSet(cs []*Column, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	m := specUniqueSet(cs, k-1)
	if cs[k-1].UniqueKey {
		m[cs[k-1].Name] = true
	}
	return m
}

// SpecPKNames, SpecUniqueNames: the names of the key columns of a table.
func SpecPKNames(t *Table) map[string]bool     { return specPKSet(t.Columns, len(t.Columns)) }
func SpecUniqueNames(t *Table) map[string]bool { return specUniqueSet(t.Columns, len(t.Columns)) }

//verif:use (*octopus.Table).PrimaryKeyNameSet by Verif_C04_PKSet
func ctPrimaryKeyNameSet(t *Table) *util.StringSet {
	verifspec.Requires(specColumnsOK(*t))
	return util.SpecSet(SpecPKNames(t))
}

func Verif_C04_PKSet(t Table) {
	verifspec.Requires(specColumnsOK(t))
	verifspec.Ensures("the names of the primary key columns", verifspec.Eq(t.PrimaryKeyNameSet(), ctPrimaryKeyNameSet(&t)))
}

//verif:use (*octopus.Table).UniqueKeyNameSet by Verif_C04_UniqueSet
func ctUniqueKeyNameSet(t *Table) *util.StringSet {
	verifspec.Requires(specColumnsOK(*t))
	return util.SpecSet(SpecUniqueNames(t))
}

func Verif_C04_UniqueSet(t Table) {
	verifspec.Requires(specColumnsOK(t))
	verifspec.Ensures("the names of the unique columns", verifspec.Eq(t.UniqueKeyNameSet(), ctUniqueKeyNameSet(&t)))
}

func Verif_C04_FindReference(s Schema, ref Reference) {
	verifspec.Requires(specShape(s.Tables))
	t, c := s.FindReference(ref)
	wt := specFindTable(s.Tables, ref.Table, 0)
	if wt == nil {
		verifspec.Ensures("no such table", t == nil && c == nil)
		return
	}
	wc := specFindColumn(wt.Columns, ref.Column, 0)
	if wc == nil {
		verifspec.Ensures("no such column", t == nil && c == nil)
		return
	}
	verifspec.Ensures("the referenced table and column", verifspec.Eq(t, wt) && verifspec.Eq(c, wc))
}

func specGroupSet(ts []*Table, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	m := specGroupSet(ts, k-1)
	m[ts[k-1].Group] = true
	return m
}

func Verif_C04_Groups(s Schema) {
	verifspec.Requires(specNonNil(s.Tables))
	verifspec.Ensures("the groups in use, sorted, each once", verifspec.Eq(s.Groups(), verifspec.SortedKeys(specGroupSet(s.Tables, len(s.Tables)))))
}

// SpecTableNamed: the first table of the schema that has the name.
func SpecTableNamed(s *Schema, name string) *Table { return specFindTable(s.Tables, name, 0) }

// SpecColumnNamed: the first column of the table that has the name.
func SpecColumnNamed(t *Table, name string) *Column { return specFindColumn(t.Columns, name, 0) }
