package mysql

import (
	"bytes"
	"encoding/json"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// every option of the command reaches the generator, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:effect (*mysql.Exporter).Export
//verif:opaque octopus.GetTableFilterFn
func Verif_K01_Export(input, output string, s *octopus.Schema, groups, suffix string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(ExportCliFlags, ExportAction, "input", input, "output", output, "groups", groups, "uniqueNameSuffix", suffix)
	})
	want, wantErr := verifspec.Run(func() error {
		schema, err := octopus.LoadSchema(input)
		if err != nil {
			return err
		}
		e := Exporter{schema: schema, option: &ExportOption{TableFilter: octopus.GetTableFilterFn(groups), UniqueNameSuffix: suffix}}
		buf := new(bytes.Buffer)
		if err := e.Export(buf); err != nil {
			return err
		}
		return util.WriteStringToFile(output, buf.String())
	})
	verifspec.Ensures("fails like the generator", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the generator writes", verifspec.Eq(files, want))
}

// every option of the command reaches the importer, the schema imported goes to the file named.
//
//verif:assume-effect (*mysql.Importer).ImportFile
//verif:effect (*octopus.Schema).ToFile
func Verif_K01_Import(input, output string, text, author, excludes, version string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	verifspec.Input(input, []byte(text))
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(ImportCliFlags, ImportAction, "input", input, "output", output, "author", author, "excludes", excludes, "version", version)
	})
	want, wantErr := verifspec.Run(func() error {
		im := Importer{option: &ImportOption{Author: author, Excludes: strings.Split(excludes, ","), Version: version}}
		schema, err := im.ImportFile(input)
		if err != nil {
			return err
		}
		return schema.ToFile(output)
	})
	verifspec.Ensures("fails like the importer", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes the schema imported", verifspec.Eq(files, want))
}
