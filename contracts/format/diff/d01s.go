package diff

import (
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

func specAuthor(o *Option) string {
	if o.Author != "" {
		return o.Author
	}
	return o.DiffTo.Author
}

func specOld(o *Option) map[string]*octopus.Table {
	return octopus.SpecTableIndex(o.DiffFrom)
}

func specWanted(o *Option, t *octopus.Table) bool {
	return o.TableFilter == nil || o.TableFilter(t)
}

// specCompared: the table is compared with an old table of its name.
func specCompared(o *Option, t *octopus.Table) bool {
	_, ok := specOld(o)[t.Name]
	return specWanted(o, t) && ok
}

// specAdded: the tables among the first k that were not there before.
func specAdded(o *Option, k int) []*octopus.Table {
	if k <= 0 {
		return nil
	}
	t := o.DiffTo.Tables[k-1]
	if _, ok := specOld(o)[t.Name]; !ok && specWanted(o, t) {
		return append(specAdded(o, k-1), t)
	}
	return specAdded(o, k-1)
}

// specOldNames: the names of the selected tables among the first k old tables.
func specOldNames(o *Option, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	m := specOldNames(o, k-1)
	if specWanted(o, o.DiffFrom.Tables[k-1]) {
		m[o.DiffFrom.Tables[k-1].Name] = true
	}
	return m
}

// specRemoved: the old names the first k tables do not use.
func specRemoved(o *Option, k int) map[string]bool {
	if k <= 0 {
		return specOldNames(o, len(o.DiffFrom.Tables))
	}
	m := specRemoved(o, k-1)
	delete(m, o.DiffTo.Tables[k-1].Name)
	return m
}

func specOneDiff(o *Option, major int, t *octopus.Table) []*ChangeSet {
	if !specCompared(o, t) {
		return nil
	}
	return specTableDiff(ChangeSetID{major: major}, specAuthor(o), t, specOld(o)[t.Name], o.UseComments, o.UniqueNameSuffix)
}

// specMajorA: how many of the first k tables changed.
func specMajorA(o *Option, k int) int {
	if k <= 0 {
		return 0
	}
	n := specMajorA(o, k-1)
	if len(specOneDiff(o, n+1, o.DiffTo.Tables[k-1])) > 0 {
		return n + 1
	}
	return n
}

// specSetsA: the changes of the first k tables.
func specSetsA(o *Option, k int) []*ChangeSet {
	if k <= 0 {
		return nil
	}
	return append(specSetsA(o, k-1), specOneDiff(o, specMajorA(o, k-1)+1, o.DiffTo.Tables[k-1])...)
}

// specTableSource: the place of the first of the names from i on whose old table has the columns of t.
func specTableSource(names []string, o *Option, t *octopus.Table, i int) int {
	if i >= len(names) {
		return i
	}
	if old := specOld(o)[names[i]]; old != nil && verifspec.Eq(t.Columns, old.Columns) {
		return i
	}
	return specTableSource(names, o, t, i+1)
}

func VInv_D01_TableSource(xs []string, o *Option, addedTable *octopus.Table, k int) bool {
	return specTableSource(xs, o, addedTable, 0) == specTableSource(xs, o, addedTable, k)
}

func specAllAdded(o *Option) []*octopus.Table { return specAdded(o, len(o.DiffTo.Tables)) }

// specTablesLeft: the removed names left when the first k added tables took theirs.
func specTablesLeft(o *Option, k int) map[string]bool {
	if k <= 0 {
		return specRemoved(o, len(o.DiffTo.Tables))
	}
	m := specTablesLeft(o, k-1)
	names := verifspec.SortedKeys(m)
	if n := specTableSource(names, o, specAllAdded(o)[k-1], 0); n < len(names) {
		delete(m, names[n])
	}
	return m
}

// specTablesRenamed: the old table of each of the first k added tables that has one.
func specTablesRenamed(o *Option, k int) map[*octopus.Table]*octopus.Table {
	if k <= 0 {
		return map[*octopus.Table]*octopus.Table{}
	}
	m := specTablesRenamed(o, k-1)
	t := specAllAdded(o)[k-1]
	names := verifspec.SortedKeys(specTablesLeft(o, k-1))
	if n := specTableSource(names, o, t, 0); n < len(names) {
		m[t] = specOld(o)[names[n]]
	}
	return m
}

func VInv_D01_OldTables(v map[*octopus.Table]*octopus.Table, xs []*octopus.Table, k int) bool {
	return verifspec.Forall(0, k, func(i int) bool {
		old, ok := v[xs[i]]
		return verifspec.Implies(ok, old != nil)
	})
}

func specAllRenamed(o *Option) map[*octopus.Table]*octopus.Table {
	return specTablesRenamed(o, len(specAllAdded(o)))
}

func specAllDropped(o *Option) []string {
	return verifspec.SortedKeys(specTablesLeft(o, len(specAllAdded(o))))
}

// specSetsB: then the first k dropped tables.
func specSetsB(o *Option, k int) []*ChangeSet {
	if k <= 0 {
		return specSetsA(o, len(o.DiffTo.Tables))
	}
	return append(specSetsB(o, k-1),
		specSet(specMajorA(o, len(o.DiffTo.Tables))+k, 0, specAuthor(o), &DropTable{Table: specOld(o)[specAllDropped(o)[k-1]]}))
}

// specMajorC: the number of the last of the first k renamed tables.
func specMajorC(o *Option, k int) int {
	if k <= 0 {
		return specMajorA(o, len(o.DiffTo.Tables)) + len(specAllDropped(o))
	}
	n := specMajorC(o, k-1)
	if _, ok := specAllRenamed(o)[specAllAdded(o)[k-1]]; ok {
		return n + 1
	}
	return n
}

// specSetsC: then the renamed tables among the first k added ones, each without
// its old unique constraint before, and with its new one after.
func specSetsC(o *Option, k int) []*ChangeSet {
	if k <= 0 {
		return specSetsB(o, len(specAllDropped(o)))
	}
	r := specSetsC(o, k-1)
	t := specAllAdded(o)[k-1]
	old, ok := specAllRenamed(o)[t]
	if !ok {
		return r
	}
	major := specMajorC(o, k-1) + 1
	if len(octopus.SpecUniqueNames(old)) > 0 {
		r = append(r, specSet(major, 0, specAuthor(o), &DropUniqueConstraint{ConstraintName: old.Name + o.UniqueNameSuffix, Table: old}))
	}
	r = append(r, specSet(major, 1, specAuthor(o), &RenameTable{OldTable: old, NewTable: t}))
	if len(octopus.SpecUniqueNames(t)) > 0 {
		r = append(r, specSet(major, 2, specAuthor(o), &CreateUniqueConstraint{ConstraintName: t.Name + o.UniqueNameSuffix, Table: t}))
	}
	return r
}

// specMajorD: the number of the last of the first k really new tables.
func specMajorD(o *Option, k int) int {
	if k <= 0 {
		return specMajorC(o, len(specAllAdded(o)))
	}
	n := specMajorD(o, k-1)
	if _, ok := specAllRenamed(o)[specAllAdded(o)[k-1]]; ok {
		return n
	}
	return n + 1
}

// specSetsD: then the really new tables among the first k added ones.
func specSetsD(o *Option, k int) []*ChangeSet {
	if k <= 0 {
		return specSetsC(o, len(specAllAdded(o)))
	}
	r := specSetsD(o, k-1)
	t := specAllAdded(o)[k-1]
	if _, ok := specAllRenamed(o)[t]; ok {
		return r
	}
	return append(r, specSet(specMajorD(o, k-1)+1, 0, specAuthor(o), &CreateTable{Table: t}))
}

func specTablesOK(ts []*octopus.Table) bool {
	return verifspec.Forall(0, len(ts), func(i int) bool { return specTableOK(ts[i]) })
}

// everything that changed between two schemas
//
//verif:opaque diff.specTableDiff
func Verif_D01_Schema(o *Option) {
	verifspec.Requires(o != nil && o.DiffFrom != nil && o.DiffTo != nil)
	verifspec.Requires(specTablesOK(o.DiffFrom.Tables) && specTablesOK(o.DiffTo.Tables))
	verifspec.NilEmpty(o)
	got, err := getDiff(o)
	verifspec.Ensures("no error", err == nil)
	verifspec.Ensures("the compared schemas", verifspec.Eq(got.From, o.DiffFrom) && verifspec.Eq(got.To, o.DiffTo))
	verifspec.Ensures("the change sets", verifspec.Eq(got.ChangeSets, specSetsD(o, len(specAllAdded(o)))))
}
