package diff

import (
	"bytes"
	"encoding/json"

	"github.com/lechuckroh/octopus-db-tools/format/liquibase"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// every option of the command reaches the comparison, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:assume-effect diff.getDiff
//verif:assume-effect (*diff.FlywayChangeSetWriter).Write
//verif:opaque octopus.GetTableFilterFn
func Verif_K01_Flyway(from, to, output string, a, b *octopus.Schema, author, groups, suffix string, comments bool) {
	from = verifspec.InFile(from)
	to = verifspec.InFile(to)
	output = verifspec.OutFile(output)
	da, _ := json.Marshal(a)
	verifspec.Input(from, da)
	db, _ := json.Marshal(b)
	verifspec.Input(to, db)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(CliFlags, FlywayAction, "from", from, "to", to, "output", output,
			"author", author, "groups", groups, "uniqueNameSuffix", suffix, "comments", comments)
	})
	want, wantErr := verifspec.Run(func() error {
		from, err := octopus.LoadSchema(from)
		if err != nil {
			return err
		}
		to, err := octopus.LoadSchema(to)
		if err != nil {
			return err
		}
		option := &Option{TableFilter: octopus.GetTableFilterFn(groups), DiffFrom: from, DiffTo: to, Author: author, UniqueNameSuffix: suffix, UseComments: comments}
		result, err := getDiff(option)
		if err != nil {
			return err
		}
		buf := new(bytes.Buffer)
		if err := NewFlywayChangeSetWirter(buf, option).Write(result); err != nil {
			return err
		}
		return util.WriteStringToFile(output, buf.String())
	})
	verifspec.Ensures("fails like the comparison", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes the differences", verifspec.Eq(files, want))
}

// every option of the command reaches the comparison, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:assume-effect diff.getDiff
//verif:assume-effect (*diff.MarkdownChangeSetWriter).Write
//verif:opaque octopus.GetTableFilterFn
func Verif_K01_Markdown(from, to, output string, a, b *octopus.Schema, author, groups, suffix string, comments bool) {
	from = verifspec.InFile(from)
	to = verifspec.InFile(to)
	output = verifspec.OutFile(output)
	da, _ := json.Marshal(a)
	verifspec.Input(from, da)
	db, _ := json.Marshal(b)
	verifspec.Input(to, db)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(CliFlags, MarkdownAction, "from", from, "to", to, "output", output,
			"author", author, "groups", groups, "uniqueNameSuffix", suffix, "comments", comments)
	})
	want, wantErr := verifspec.Run(func() error {
		from, err := octopus.LoadSchema(from)
		if err != nil {
			return err
		}
		to, err := octopus.LoadSchema(to)
		if err != nil {
			return err
		}
		option := &Option{TableFilter: octopus.GetTableFilterFn(groups), DiffFrom: from, DiffTo: to, Author: author, UniqueNameSuffix: suffix, UseComments: comments}
		result, err := getDiff(option)
		if err != nil {
			return err
		}
		buf := new(bytes.Buffer)
		if err := NewMarkdownChangeSetWirter(buf, option).Write(result); err != nil {
			return err
		}
		return util.WriteStringToFile(output, buf.String())
	})
	verifspec.Ensures("fails like the comparison", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes the differences", verifspec.Eq(files, want))
}

// every option of the command reaches the comparison, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:assume-effect (*liquibase.Diff).Generate
//verif:opaque octopus.GetTableFilterFn
func Verif_K01_Liquibase(from, to, output string, a, b *octopus.Schema, author, groups, suffix string, comments bool) {
	from = verifspec.InFile(from)
	to = verifspec.InFile(to)
	output = verifspec.OutFile(output)
	da, _ := json.Marshal(a)
	verifspec.Input(from, da)
	db, _ := json.Marshal(b)
	verifspec.Input(to, db)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(CliFlags, LiquibaseAction, "from", from, "to", to, "output", output,
			"author", author, "groups", groups, "uniqueNameSuffix", suffix, "comments", comments)
	})
	want, wantErr := verifspec.Run(func() error {
		from, err := octopus.LoadSchema(from)
		if err != nil {
			return err
		}
		to, err := octopus.LoadSchema(to)
		if err != nil {
			return err
		}
		option := &liquibase.DiffOption{TableFilter: octopus.GetTableFilterFn(groups), DiffFrom: from, DiffTo: to, Author: author, UniqueNameSuffix: suffix, UseComments: comments}
		return liquibase.NewDiff(option).Generate(output)
	})
	verifspec.Ensures("fails like the comparison", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes the differences", verifspec.Eq(files, want))
}
