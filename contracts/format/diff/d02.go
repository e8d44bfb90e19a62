package diff

import (
	"bytes"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

func specQuoted(s string) string { return "`" + s + "`" }

func specNameList(m map[string]bool) string {
	return "[" + strings.Join(verifspec.SortedKeys(m), ", ") + "]"
}

// specLine: a change in words.
func specLine(change interface{}) string {
	switch c := change.(type) {
	case *CreateTable:
		return "create table"
	case *DropTable:
		return "drop table"
	case *RenameTable:
		return "rename table " + specQuoted(c.OldTable.Name) + " → " + specQuoted(c.NewTable.Name)
	case *UpdatePrimaryKey:
		return "update PK: " + specNameList(octopus.SpecPKNames(c.OldTable)) + " → " + specNameList(octopus.SpecPKNames(c.NewTable))
	case *CreateUniqueConstraint:
		return "create unique constraint: " + specNameList(octopus.SpecUniqueNames(c.Table))
	case *DropUniqueConstraint:
		return "drop unique constraint: " + specNameList(octopus.SpecUniqueNames(c.Table))
	case *SetTableComment:
		return "update table comment: " + specQuoted(c.Table.Description)
	case *AddColumn:
		return "add column: " + specQuoted(c.Column.Name)
	case *DropColumn:
		return "drop column: " + specQuoted(c.ColumnName)
	case *SetColumnComment:
		return "update column comment: " + specQuoted(c.Column.Name) + " :" + specQuoted(c.Column.Description)
	case *ChangeColumnType:
		return "change column type: " + specQuoted(c.NewColumn.Name) + " :" + specQuoted(octopus.SpecFormat(*c.OldColumn)) + " → " + specQuoted(octopus.SpecFormat(*c.NewColumn))
	case *RenameColumn:
		return "rename column: " + specQuoted(c.OldColumn.Name) + " → " + specQuoted(c.NewColumn.Name)
	case *SetNotNullConstraint:
		if c.Column.NotNull {
			return "set not null: " + specQuoted(c.Column.Name)
		}
		return "set nullable: " + specQuoted(c.Column.Name)
	case *SetAutoIncrement:
		if c.Column.AutoIncremental {
			return "set auto incremental: " + specQuoted(c.Column.Name)
		}
		return "remove auto incremental: " + specQuoted(c.Column.Name)
	case *SetDefaultValue:
		if c.Column.DefaultValue == "" {
			return "remove default value: " + specQuoted(c.Column.Name)
		}
		return "update default value: " + specQuoted(c.Column.Name) + " : " + specQuoted(c.Column.DefaultValue)
	}
	return ""
}

//verif:use (*diff.MarkdownChangeSetWriter).toMarkdownLine by Verif_D02_Line
func ctToMarkdownLine(w *MarkdownChangeSetWriter, c Change) (string, error) {
	verifspec.Requires(specChangeOK(c))
	return specLine(c), nil
}

// the line of every kind of change.
func Verif_D02_Line(c Change, suffix string) {
	verifspec.Requires(specChangeOK(c))
	w := NewMarkdownChangeSetWirter(new(bytes.Buffer), &Option{UniqueNameSuffix: suffix})
	want, _ := ctToMarkdownLine(w, c)
	got, err := w.toMarkdownLine(c)
	verifspec.Ensures("no error", err == nil)
	verifspec.Ensures("line of the change", got == want)
}

// ---- the report

func specAllChanges(sets []*ChangeSet) []Change {
	var out []Change
	for _, s := range sets {
		out = append(out, s.Changes...)
	}
	return out
}

func specReport(r *Result) string {
	out := "# DB Schema changes\n\n* from: `" + r.From.Version + "`\n* to: `" + r.To.Version + "`\n"
	names := map[string]bool{}
	cs := specAllChanges(r.ChangeSets)
	for _, c := range cs {
		names[c.DepTable().Name] = true
	}
	for _, n := range verifspec.SortedKeys(names) {
		out += "\n## " + n + "\n"
		for _, c := range cs {
			if c.DepTable().Name == n {
				out += "* " + specLine(c) + "\n"
			}
		}
	}
	return out
}

// one section per table in name order, its changes in the order found.
//
//verif:native-only
func Verif_D04_Report(r *Result, suffix string) {
	verifspec.Requires(r != nil && r.From != nil && r.To != nil)
	for _, s := range r.ChangeSets {
		verifspec.Requires(s != nil)
		for _, c := range s.Changes {
			verifspec.Requires(specChangeOK(c))
		}
	}
	buf := new(bytes.Buffer)
	err := NewMarkdownChangeSetWirter(buf, &Option{UniqueNameSuffix: suffix}).Write(r)
	verifspec.Ensures("no error", err == nil)
	verifspec.Ensures("the report", buf.String() == specReport(r))
}
