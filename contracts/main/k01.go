package main

import (
	"encoding/json"

	"github.com/lechuckroh/octopus-db-tools/format/dbml"
	"github.com/lechuckroh/octopus-db-tools/format/diff"
	"github.com/lechuckroh/octopus-db-tools/format/gorm"
	"github.com/lechuckroh/octopus-db-tools/format/graphql"
	"github.com/lechuckroh/octopus-db-tools/format/jpa"
	"github.com/lechuckroh/octopus-db-tools/format/liquibase"
	"github.com/lechuckroh/octopus-db-tools/format/mysql"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/format/ojson"
	"github.com/lechuckroh/octopus-db-tools/format/plantuml"
	"github.com/lechuckroh/octopus-db-tools/format/protobuf"
	"github.com/lechuckroh/octopus-db-tools/format/quickdbd"
	"github.com/lechuckroh/octopus-db-tools/format/sqlalchemy"
	"github.com/lechuckroh/octopus-db-tools/format/staruml"
	"github.com/lechuckroh/octopus-db-tools/format/xlsx"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
	"github.com/urfave/cli/v2"
)

// specSub is the sub-command of a command by name.
func specSub(c *cli.Command, name string) *cli.Command {
	for _, s := range c.Subcommands {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// specSame: the command does what the action does with the flags.
func specSame(c *cli.Command, flags []cli.Flag, action func(*cli.Context) error, options, short []interface{}) {
	verifspec.Ensures("the command exists", c != nil)
	got, err := verifspec.Run(func() error { return verifspec.CLI(c.Flags, c.Action, options...) })
	want, wantErr := verifspec.Run(func() error { return verifspec.CLI(flags, action, options...) })
	verifspec.Ensures("fails like the action", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the action writes", verifspec.Eq(xlsx.SpecBooks(got), xlsx.SpecBooks(want)))
	brief, briefErr := verifspec.Run(func() error { return verifspec.CLI(c.Flags, c.Action, short...) })
	verifspec.Ensures("short option names: fails alike", (err == nil) == (briefErr == nil))
	verifspec.Ensures("short option names: writes the same", verifspec.Eq(xlsx.SpecBooks(got), xlsx.SpecBooks(brief)))
}

//verif:assume-effect (*mysql.Importer).ImportFile
//verif:assume-effect (*octopus.Schema).ToFile
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_ImportMysql(input, output string, text, author, excludes, version string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	verifspec.Input(input, []byte(text))
	specSame(specSub(importCommand(), "mysql"), mysql.ImportCliFlags, mysql.ImportAction,
		[]interface{}{"input", input, "output", output, "author", author, "excludes", excludes, "version", version},
		[]interface{}{"i", input, "o", output, "a", author, "x", excludes, "v", version})
}

//verif:assume-effect (*ojson.Importer).ImportFile
//verif:assume-effect (*octopus.Schema).ToFile
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_ImportOjson(input, output string, text string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	verifspec.Input(input, []byte(text))
	specSame(specSub(importCommand(), "ojson"), ojson.ImportCliFlags, ojson.ImportAction,
		[]interface{}{"input", input, "output", output},
		[]interface{}{"i", input, "o", output})
}

//verif:assume-effect (*staruml.Importer).ImportFile
//verif:assume-effect (*octopus.Schema).ToJson
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_ImportStaruml(input, output string, text string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	verifspec.Input(input, []byte(text))
	specSame(specSub(importCommand(), "staruml"), staruml.ImportCliFlags, staruml.ImportAction,
		[]interface{}{"input", input, "output", output},
		[]interface{}{"i", input, "o", output})
}

//verif:assume-effect (*xlsx.Importer).Import
//verif:assume-effect (*octopus.Schema).ToJson
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_ImportXlsx(input, output string, text string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	verifspec.Input(input, []byte(text))
	specSame(specSub(importCommand(), "xlsx"), xlsx.ImportCliFlags, xlsx.ImportAction,
		[]interface{}{"input", input, "output", output},
		[]interface{}{"i", input, "o", output})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect (*dbml.Exporter).Export
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_ExportDbml(input, output string, a *octopus.Schema, o0 string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	specSame(specSub(exportCommand(), "dbml"), dbml.ExportCliFlags, dbml.ExportAction,
		[]interface{}{"input", input, "output", output, "groups", o0},
		[]interface{}{"i", input, "o", output, "g", o0})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect (*quickdbd.Exporter).Export
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_ExportQuickdbd(input, output string, a *octopus.Schema) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	specSame(specSub(exportCommand(), "quickdbd"), quickdbd.ExportCliFlags, quickdbd.ExportAction,
		[]interface{}{"input", input, "output", output},
		[]interface{}{"i", input, "o", output})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect (*mysql.Exporter).Export
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_ExportMysql(input, output string, a *octopus.Schema, o0, o1 string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	specSame(specSub(exportCommand(), "mysql"), mysql.ExportCliFlags, mysql.ExportAction,
		[]interface{}{"input", input, "output", output, "groups", o0, "uniqueNameSuffix", o1},
		[]interface{}{"i", input, "o", output, "g", o0, "u", o1})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect (*xlsx.Exporter).Export
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_ExportXlsx(input, output string, a *octopus.Schema, b0 bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	specSame(specSub(exportCommand(), "xlsx"), xlsx.ExportCliFlags, xlsx.ExportAction,
		[]interface{}{"input", input, "output", output, "useNullColumn", b0},
		[]interface{}{"i", input, "o", output, "useNullColumn", b0})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect (*gorm.Generator).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_GenerateGorm(input, output string, a *octopus.Schema, o0, o1, o2, o3, o4, o5 string, b0 bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	specSame(specSub(generateCommand(), "gorm"), gorm.CliFlags, gorm.Action,
		[]interface{}{"input", input, "output", output, "embed", o0, "groups", o1, "package", o2, "pointerAssociation", b0, "prefix", o3, "removePrefix", o4, "uniqueNameSuffix", o5},
		[]interface{}{"i", input, "o", output, "e", o0, "g", o1, "k", o2, "a", b0, "p", o3, "r", o4, "u", o5})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect (*graphql.Generator).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_GenerateGraphql(input, output string, a *octopus.Schema, o0 string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	specSame(specSub(generateCommand(), "graphql"), graphql.CliFlags, graphql.Action,
		[]interface{}{"input", input, "output", output, "graphqlPackage", o0},
		[]interface{}{"i", input, "o", output, "p", o0})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect jpa.NewKtGenerator
//verif:assume-effect (*jpa.KtGenerator).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_GenerateKt(input, output string, a *octopus.Schema, o0, o1, o2, o3, o4, o5, o6, o7, o8 string, b0 bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	specSame(specSub(generateCommand(), "kt"), jpa.KotlinCliFlags, jpa.KotlinAction,
		[]interface{}{"input", input, "output", output, "annotation", o0, "groups", o1, "idEntity", o2, "package", o3, "prefix", o4, "relation", o5, "removePrefix", o6, "reposPackage", o7, "uniqueNameSuffix", o8, "useUTC", b0},
		[]interface{}{"i", input, "o", output, "a", o0, "g", o1, "e", o2, "p", o3, "f", o4, "l", o5, "d", o6, "r", o7, "q", o8, "u", b0})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect (*liquibase.Generator).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_GenerateLiquibase(input, output string, a *octopus.Schema, o0, o1 string, b0 bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	specSame(specSub(generateCommand(), "liquibase"), liquibase.CliFlags, liquibase.Action,
		[]interface{}{"input", input, "output", output, "groups", o0, "uniqueNameSuffix", o1, "comments", b0},
		[]interface{}{"i", input, "o", output, "g", o0, "u", o1, "c", b0})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect (*plantuml.Generator).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_GeneratePlantuml(input, output string, a *octopus.Schema) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	specSame(specSub(generateCommand(), "plantuml"), plantuml.CliFlags, plantuml.Action,
		[]interface{}{"input", input, "output", output},
		[]interface{}{"i", input, "o", output})
}

//verif:effect octopus.LoadSchema
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_GeneratePb(input, output string, a *octopus.Schema, o0, o1, o2, o3, o4, o5 string, b0 bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	verifspec.Requires(protobuf.SpecSchemaOK(a))
	schema, err := octopus.LoadSchema(input)
	verifspec.Requires(err != nil || protobuf.SpecSchemaOK(schema))
	specSame(specSub(generateCommand(), "pb"), protobuf.CliFlags, protobuf.Action,
		[]interface{}{"input", input, "output", output, "goPackage", o0, "groups", o1, "package", o2, "prefix", o3, "removePrefix", o4, "relationTagDecr", b0, "relationTagStart", o5},
		[]interface{}{"i", input, "o", output, "goPackage", o0, "g", o1, "p", o2, "f", o3, "d", o4, "relationTagDecr", b0, "relationTagStart", o5})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect (*sqlalchemy.Generator).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_GenerateSqlalchemy(input, output string, a *octopus.Schema, o0, o1, o2, o3 string, b0 bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(a)
	verifspec.Input(input, data)
	specSame(specSub(generateCommand(), "sqlalchemy"), sqlalchemy.CliFlags, sqlalchemy.Action,
		[]interface{}{"input", input, "output", output, "groups", o0, "prefix", o1, "removePrefix", o2, "uniqueNameSuffix", o3, "useUTC", b0},
		[]interface{}{"i", input, "o", output, "g", o0, "p", o1, "r", o2, "u", o3, "t", b0})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect diff.getDiff
//verif:assume-effect (*diff.FlywayChangeSetWriter).Write
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_DiffFlyway(from, to, output string, a, b *octopus.Schema, o0, o1, o2 string, b0 bool) {
	from = verifspec.InFile(from)
	to = verifspec.InFile(to)
	output = verifspec.OutFile(output)
	da, _ := json.Marshal(a)
	verifspec.Input(from, da)
	db, _ := json.Marshal(b)
	verifspec.Input(to, db)
	specSame(specSub(diffCommand(), "flyway"), diff.CliFlags, diff.FlywayAction,
		[]interface{}{"from", from, "to", to, "output", output, "author", o0, "groups", o1, "uniqueNameSuffix", o2, "comments", b0},
		[]interface{}{"f", from, "t", to, "o", output, "a", o0, "g", o1, "u", o2, "c", b0})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect (*liquibase.Diff).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_DiffLiquibase(from, to, output string, a, b *octopus.Schema, o0, o1, o2 string, b0 bool) {
	from = verifspec.InFile(from)
	to = verifspec.InFile(to)
	output = verifspec.OutFile(output)
	da, _ := json.Marshal(a)
	verifspec.Input(from, da)
	db, _ := json.Marshal(b)
	verifspec.Input(to, db)
	specSame(specSub(diffCommand(), "liquibase"), diff.CliFlags, diff.LiquibaseAction,
		[]interface{}{"from", from, "to", to, "output", output, "author", o0, "groups", o1, "uniqueNameSuffix", o2, "comments", b0},
		[]interface{}{"f", from, "t", to, "o", output, "a", o0, "g", o1, "u", o2, "c", b0})
}

//verif:effect octopus.LoadSchema
//verif:assume-effect diff.getDiff
//verif:assume-effect (*diff.MarkdownChangeSetWriter).Write
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper xlsx.SpecBooks
func Verif_K01_DiffMd(from, to, output string, a, b *octopus.Schema, o0, o1, o2 string, b0 bool) {
	from = verifspec.InFile(from)
	to = verifspec.InFile(to)
	output = verifspec.OutFile(output)
	da, _ := json.Marshal(a)
	verifspec.Input(from, da)
	db, _ := json.Marshal(b)
	verifspec.Input(to, db)
	specSame(specSub(diffCommand(), "md"), diff.CliFlags, diff.MarkdownAction,
		[]interface{}{"from", from, "to", to, "output", output, "author", o0, "groups", o1, "uniqueNameSuffix", o2, "comments", b0},
		[]interface{}{"f", from, "t", to, "o", output, "a", o0, "g", o1, "u", o2, "c", b0})
}

// init writes the first schema.
//
//verif:effect (*octopus.Schema).ToFile
//verif:opaque xlsx.SpecBooks
func Verif_K01_Init() {
	specSame(initCommand(), octopus.InitCliFlags, octopus.InitAction, []interface{}{"output", "out.json"}, []interface{}{"o", "out.json"})
}
