package diff

import (
	"fmt"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// specVersion: the number of a change set.
func specVersion(major, minor int) string {
	if minor == 0 {
		return fmt.Sprintf("%d", major)
	}
	return fmt.Sprintf("%d-%d", major, minor)
}

// specSet: a change set of one change.
func specSet(major, minor int, author string, c Change) *ChangeSet {
	return &ChangeSet{ID: specVersion(major, minor), Author: author, Changes: []Change{c}}
}

// specColumnDiff: what changed from column o to column c, numbered after minor.
func specColumnDiff(major, minor int, author string, t *octopus.Table, c, o *octopus.Column, comments bool) []*ChangeSet {
	var r []*ChangeSet
	if c.Name != o.Name {
		r = append(r, specSet(major, minor+len(r)+1, author, &RenameColumn{Table: t, OldColumn: o, NewColumn: c}))
	}
	if c.Type != o.Type || c.Size != o.Size || c.Scale != o.Scale {
		r = append(r, specSet(major, minor+len(r)+1, author, &ChangeColumnType{Table: t, OldColumn: o, NewColumn: c}))
	}
	if comments && c.Description != o.Description {
		r = append(r, specSet(major, minor+len(r)+1, author, &SetColumnComment{Table: t, Column: c}))
	}
	if c.NotNull != o.NotNull {
		r = append(r, specSet(major, minor+len(r)+1, author, &SetNotNullConstraint{Table: t, Column: c}))
	}
	if c.AutoIncremental != o.AutoIncremental {
		r = append(r, specSet(major, minor+len(r)+1, author, &SetAutoIncrement{Table: t, Column: c}))
	}
	if c.DefaultValue != o.DefaultValue {
		r = append(r, specSet(major, minor+len(r)+1, author, &SetDefaultValue{Table: t, Column: c}))
	}
	return r
}

//verif:use diff.diffColumn by Verif_D01_Column
//verif:modifies id
func ctDiffColumn(id *ChangeSetID, author string, table *octopus.Table, column, oldColumn *octopus.Column, useComments bool) ([]*ChangeSet, error) {
	verifspec.Requires(column != nil && oldColumn != nil)
	r := specColumnDiff(id.major, id.minor, author, table, column, oldColumn, useComments)
	id.minor += len(r)
	return r, nil
}

// the changes of one column
func Verif_D01_Column(id ChangeSetID, author string, table *octopus.Table, column, oldColumn *octopus.Column, useComments bool) {
	verifspec.Requires(id.major >= 0 && id.minor >= 0)
	id2 := id
	want, _ := ctDiffColumn(&id2, author, table, column, oldColumn, useComments)
	got, err := diffColumn(&id, author, table, column, oldColumn, useComments)
	verifspec.Ensures("no error", err == nil)
	verifspec.Ensures("one change set per change", verifspec.Eq(got, want))
	verifspec.Ensures("numbering goes on", id == id2)
}

func specColumnIndex(t *octopus.Table) map[string]*octopus.Column {
	return octopus.SpecColumnIndex(t)
}

// specNew: the columns among the first k that were not there before.
func specNew(table, oldTable *octopus.Table, k int) []*octopus.Column {
	if k <= 0 {
		return nil
	}
	c := table.Columns[k-1]
	if _, ok := specColumnIndex(oldTable)[c.Name]; ok {
		return specNew(table, oldTable, k-1)
	}
	return append(specNew(table, oldTable, k-1), c)
}

// specNames: the names of the first k old columns.
func specNames(oldTable *octopus.Table, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	m := specNames(oldTable, k-1)
	m[oldTable.Columns[k-1].Name] = true
	return m
}

// specGone: the old names without those the first k columns use.
func specGone(table, oldTable *octopus.Table, k int) map[string]bool {
	if k <= 0 {
		return specNames(oldTable, len(oldTable.Columns))
	}
	m := specGone(table, oldTable, k-1)
	if _, ok := specColumnIndex(oldTable)[table.Columns[k-1].Name]; ok {
		delete(m, table.Columns[k-1].Name)
	}
	return m
}

// specSource: the place of the first of the names from i on whose old column c could be.
func specSource(names []string, oldTable *octopus.Table, c *octopus.Column, useComments bool, i int) int {
	if i >= len(names) {
		return i
	}
	if old := specColumnIndex(oldTable)[names[i]]; old != nil && octopus.SpecRenamed(c, old, useComments) {
		return i
	}
	return specSource(names, oldTable, c, useComments, i+1)
}

func VInv_D01_Source(xs []string, oldTable *octopus.Table, addedColumn *octopus.Column, useComments bool, k int) bool {
	return specSource(xs, oldTable, addedColumn, useComments, 0) == specSource(xs, oldTable, addedColumn, useComments, k)
}

// specLeft: the old names left when the first k new columns took theirs.
func specLeft(table, oldTable *octopus.Table, useComments bool, k int) map[string]bool {
	if k <= 0 {
		return specGone(table, oldTable, len(table.Columns))
	}
	m := specLeft(table, oldTable, useComments, k-1)
	names := verifspec.SortedKeys(m)
	if n := specSource(names, oldTable, specNew(table, oldTable, len(table.Columns))[k-1], useComments, 0); n < len(names) {
		delete(m, names[n])
	}
	return m
}

// specRenamed: the old column of each of the first k new columns that has one.
func specRenamed(table, oldTable *octopus.Table, useComments bool, k int) map[*octopus.Column]*octopus.Column {
	if k <= 0 {
		return map[*octopus.Column]*octopus.Column{}
	}
	m := specRenamed(table, oldTable, useComments, k-1)
	c := specNew(table, oldTable, len(table.Columns))[k-1]
	names := verifspec.SortedKeys(specLeft(table, oldTable, useComments, k-1))
	if n := specSource(names, oldTable, c, useComments, 0); n < len(names) {
		m[c] = specColumnIndex(oldTable)[names[n]]
	}
	return m
}

func specRenames(table, oldTable *octopus.Table, useComments bool) map[*octopus.Column]*octopus.Column {
	return specRenamed(table, oldTable, useComments, len(specNew(table, oldTable, len(table.Columns))))
}

// specAdd adds the next change set of one change.
func specAdd(r []*ChangeSet, id0 ChangeSetID, author string, c Change) []*ChangeSet {
	return append(r, specSet(id0.major, id0.minor+len(r)+1, author, c))
}

// specA: table comment, then the changes of the first k columns that were there before.
func specA(id0 ChangeSetID, author string, table, oldTable *octopus.Table, useComments bool, k int) []*ChangeSet {
	if k <= 0 {
		if useComments && table.Description != oldTable.Description {
			return specAdd(nil, id0, author, &SetTableComment{Table: table})
		}
		return nil
	}
	r := specA(id0, author, table, oldTable, useComments, k-1)
	c := table.Columns[k-1]
	old, ok := specColumnIndex(oldTable)[c.Name]
	if !ok {
		return r
	}
	return append(r, specColumnDiff(id0.major, id0.minor+len(r), author, table, c, old, useComments)...)
}

func specUniqueChanged(table, oldTable *octopus.Table) bool {
	return !verifspec.Eq(octopus.SpecUniqueNames(table), octopus.SpecUniqueNames(oldTable))
}

// specB: then the old unique constraint and the first k dropped columns.
func specB(id0 ChangeSetID, author string, table, oldTable *octopus.Table, useComments bool, uniqueNameSuffix string, k int) []*ChangeSet {
	if k <= 0 {
		r := specA(id0, author, table, oldTable, useComments, len(table.Columns))
		if specUniqueChanged(table, oldTable) && len(octopus.SpecUniqueNames(oldTable)) > 0 {
			r = specAdd(r, id0, author, &DropUniqueConstraint{ConstraintName: table.Name + uniqueNameSuffix, Table: oldTable})
		}
		return r
	}
	return specAdd(specB(id0, author, table, oldTable, useComments, uniqueNameSuffix, k-1), id0, author, &DropColumn{Table: table, ColumnName: specDropped(table, oldTable, useComments)[k-1]})
}

func specDropped(table, oldTable *octopus.Table, useComments bool) []string {
	return verifspec.SortedKeys(specLeft(table, oldTable, useComments, len(specNew(table, oldTable, len(table.Columns)))))
}

// specC: then the renames among the first k new columns.
func specC(id0 ChangeSetID, author string, table, oldTable *octopus.Table, useComments bool, uniqueNameSuffix string, k int) []*ChangeSet {
	if k <= 0 {
		return specB(id0, author, table, oldTable, useComments, uniqueNameSuffix, len(specDropped(table, oldTable, useComments)))
	}
	r := specC(id0, author, table, oldTable, useComments, uniqueNameSuffix, k-1)
	c := specNew(table, oldTable, len(table.Columns))[k-1]
	if old, ok := specRenames(table, oldTable, useComments)[c]; ok {
		return specAdd(r, id0, author, &RenameColumn{Table: table, OldColumn: old, NewColumn: c})
	}
	return r
}

// specReallyNew: the first k new columns without the renamed ones.
func specReallyNew(table, oldTable *octopus.Table, useComments bool, k int) []*octopus.Column {
	if k <= 0 {
		return nil
	}
	c := specNew(table, oldTable, len(table.Columns))[k-1]
	if _, ok := specRenames(table, oldTable, useComments)[c]; ok {
		return specReallyNew(table, oldTable, useComments, k-1)
	}
	return append(specReallyNew(table, oldTable, useComments, k-1), c)
}

func specAddChanges(table *octopus.Table, cs []*octopus.Column, k int) []Change {
	if k <= 0 {
		return []Change{}
	}
	return append(specAddChanges(table, cs, k-1), &AddColumn{Table: table, Column: cs[k-1]})
}

// specTableDiff: everything that changed from the old table.
func specTableDiff(id0 ChangeSetID, author string, table, oldTable *octopus.Table, useComments bool, uniqueNameSuffix string) []*ChangeSet {
	n := len(specNew(table, oldTable, len(table.Columns)))
	r := specC(id0, author, table, oldTable, useComments, uniqueNameSuffix, n)
	if cs := specReallyNew(table, oldTable, useComments, n); len(cs) > 0 {
		r = append(r, &ChangeSet{ID: specVersion(id0.major, id0.minor+len(r)+1), Author: author, Changes: specAddChanges(table, cs, len(cs))})
	}
	if !verifspec.Eq(octopus.SpecPKNames(table), octopus.SpecPKNames(oldTable)) {
		r = specAdd(r, id0, author, &UpdatePrimaryKey{OldTable: oldTable, NewTable: table})
	}
	if specUniqueChanged(table, oldTable) && len(octopus.SpecUniqueNames(table)) > 0 {
		r = specAdd(r, id0, author, &CreateUniqueConstraint{ConstraintName: table.Name + uniqueNameSuffix, Table: table})
	}
	return r
}

// every change set takes the next number
func VInv_D01_Minor(v int, vr []*ChangeSet, id0 ChangeSetID, k int) bool {
	return v == id0.minor+len(vr)
}

// one change set per round
func VInv_D01_Len(vr, vr_0 []*ChangeSet, k int) bool {
	return len(vr) == len(vr_0)+k
}

func specTableOK(t *octopus.Table) bool {
	return t != nil && verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil })
}

//verif:use diff.diffTable by Verif_D01_Table
//verif:modifies id
func ctDiffTable(id *ChangeSetID, author string, table, oldTable *octopus.Table, useComments bool, uniqueNameSuffix string) ([]*ChangeSet, error) {
	verifspec.Requires(specTableOK(table) && specTableOK(oldTable))
	r := specTableDiff(*id, author, table, oldTable, useComments, uniqueNameSuffix)
	id.minor += len(r)
	return r, nil
}

// the changes of one table
//
//verif:opaque diff.specColumnDiff
func Verif_D01_Table(id0 ChangeSetID, author string, table, oldTable *octopus.Table, useComments bool, uniqueNameSuffix string) {
	verifspec.Requires(id0.major >= 0 && id0.minor >= 0)
	verifspec.Requires(specTableOK(table) && specTableOK(oldTable))
	id, id2 := id0, id0
	want, _ := ctDiffTable(&id2, author, table, oldTable, useComments, uniqueNameSuffix)
	got, err := diffTable(&id, author, table, oldTable, useComments, uniqueNameSuffix)
	verifspec.Ensures("no error", err == nil)
	verifspec.Ensures("the change sets of the table", verifspec.Eq(got, want))
	verifspec.Ensures("numbering goes on", id == id2)
}
