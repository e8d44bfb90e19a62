package diff

import (
	"bytes"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/mysql"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

func init() {
	verifspec.Impl((*Change)(nil), &CreateTable{}, &DropTable{}, &RenameTable{}, &UpdatePrimaryKey{}, &CreateUniqueConstraint{},
		&DropUniqueConstraint{}, &SetTableComment{}, &AddColumn{}, &DropColumn{}, &SetColumnComment{}, &ChangeColumnType{},
		&RenameColumn{}, &SetNotNullConstraint{}, &SetAutoIncrement{}, &SetDefaultValue{})
}

func specAlterColumn(head string, c octopus.Column) string {
	s := head + " " + mysql.SpecColumnType(c)
	if cs := mysql.SpecConstraintText(c); cs != "" {
		s += " " + cs
	}
	return s + ";"
}

func specUpdatePK(c *UpdatePrimaryKey) []string {
	var out []string
	name := c.NewTable.Name
	if len(octopus.SpecPKNames(c.OldTable)) > 0 {
		out = append(out, "ALTER TABLE "+name+" DROP PRIMARY KEY;")
	}
	pk := verifspec.SortedKeys(octopus.SpecPKNames(c.NewTable))
	if len(pk) > 0 {
		out = append(out, "ALTER TABLE "+name+" ADD PRIMARY KEY ("+strings.Join(pk, ",")+");")
	}
	return out
}

func specBuilder(suffix string) *MysqlQueryBuilder {
	return NewMysqlQueryBuilder(&Option{UniqueNameSuffix: suffix})
}

// specSQL: the statements of a change; changes Flyway output has no statement for yet are left open.
func specSQL(change interface{}, suffix string) []string {
	switch c := change.(type) {
	case *CreateTable:
		return []string{mysql.SpecCreate(*c.Table, suffix)}
	case *DropTable:
		return []string{"DROP TABLE " + c.Table.Name + ";"}
	case *RenameTable:
		return []string{"RENAME TABLE " + c.OldTable.Name + " TO " + c.NewTable.Name + ";"}
	case *UpdatePrimaryKey:
		return specUpdatePK(c)
	case *AddColumn:
		return []string{specAlterColumn("ALTER TABLE "+c.Table.Name+" ADD "+c.Column.Name, *c.Column)}
	case *SetNotNullConstraint:
		return []string{specAlterColumn("ALTER TABLE "+c.Table.Name+" MODIFY "+c.Column.Name, *c.Column)}
	case *SetAutoIncrement:
		return []string{specAlterColumn("ALTER TABLE "+c.Table.Name+" MODIFY COLUMN "+c.Column.Name, *c.Column)}
	}
	r, _ := specBuilder(suffix).ToSQL(change)
	return r
}

// specChangeOK: a change as the differ produces it.
func specChangeOK(change interface{}) bool {
	switch c := change.(type) {
	case *CreateTable:
		return c != nil && mysql.SpecTableOK(c.Table)
	case *DropTable:
		return c != nil && c.Table != nil
	case *RenameTable:
		return c != nil && c.OldTable != nil && c.NewTable != nil
	case *UpdatePrimaryKey:
		return c != nil && specTableOK(c.OldTable) && specTableOK(c.NewTable)
	case *AddColumn:
		return c != nil && c.Table != nil && c.Column != nil
	case *SetNotNullConstraint:
		return c != nil && c.Table != nil && c.Column != nil
	case *SetAutoIncrement:
		return c != nil && c.Table != nil && c.Column != nil
	case *CreateUniqueConstraint:
		return c != nil && specTableOK(c.Table)
	case *DropUniqueConstraint:
		return c != nil && specTableOK(c.Table)
	case *SetTableComment:
		return c != nil && c.Table != nil
	case *DropColumn:
		return c != nil && c.Table != nil
	case *SetColumnComment:
		return c != nil && c.Table != nil && c.Column != nil
	case *ChangeColumnType:
		return c != nil && c.Table != nil && c.OldColumn != nil && c.NewColumn != nil
	case *RenameColumn:
		return c != nil && c.Table != nil && c.OldColumn != nil && c.NewColumn != nil
	case *SetDefaultValue:
		return c != nil && c.Table != nil && c.Column != nil
	}
	return false
}

//verif:use (*diff.MysqlQueryBuilder).ToSQL by Verif_D03_Statements
func ctToSQL(b *MysqlQueryBuilder, c interface{}) ([]string, error) {
	verifspec.Requires(specChangeOK(c))
	return specSQL(c, b.option.UniqueNameSuffix), nil
}

// the statements of every kind of change.
//
//verif:opaque mysql.SpecColumnType mysql.SpecConstraintText
func Verif_D03_Statements(c Change, suffix string) {
	verifspec.Requires(specChangeOK(c))
	b := specBuilder(suffix)
	want, _ := ctToSQL(b, c)
	r, err := b.ToSQL(c)
	verifspec.Ensures("no error", err == nil)
	verifspec.Ensures("statements of the change", verifspec.Eq(r, want))
}

// ---- the migration script

func specStatements(out string, sqls []string, k int) string {
	if k <= 0 {
		return out
	}
	return specStatements(out, sqls, k-1) + sqls[k-1] + "\n"
}

func specChanges(out string, cs []Change, suffix string, k int) string {
	if k <= 0 {
		return out
	}
	sqls := specSQL(cs[k-1], suffix)
	return specStatements(specChanges(out, cs, suffix, k-1), sqls, len(sqls))
}

func specScript(sets []*ChangeSet, suffix string, k int) string {
	if k <= 0 {
		return ""
	}
	cs := sets[k-1].Changes
	return specChanges(specScript(sets, suffix, k-1), cs, suffix, len(cs)) + "\n"
}

// the statements of all changes in order, an empty line after each change set.
//
//verif:opaque diff.specSQL
func Verif_D03_Script(r *Result, suffix string) {
	verifspec.Requires(r != nil && verifspec.Forall(0, len(r.ChangeSets), func(i int) bool {
		s := r.ChangeSets[i]
		return s != nil && verifspec.Forall(0, len(s.Changes), func(j int) bool { return specChangeOK(s.Changes[j]) })
	}))
	buf := new(bytes.Buffer)
	err := NewFlywayChangeSetWirter(buf, &Option{UniqueNameSuffix: suffix}).Write(r)
	verifspec.Ensures("no error", err == nil)
	verifspec.Ensures("the migration script", buf.String() == specScript(r.ChangeSets, suffix, len(r.ChangeSets)))
}
