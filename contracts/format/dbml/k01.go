package dbml

import (
	"bytes"
	"encoding/json"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// every option of the command reaches the generator, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:effect (*dbml.Exporter).Export
//verif:opaque octopus.GetTableFilterFn
func Verif_K01_Dbml(input, output string, s *octopus.Schema, groups string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(ExportCliFlags, ExportAction, "input", input, "output", output, "groups", groups)
	})
	want, wantErr := verifspec.Run(func() error {
		schema, err := octopus.LoadSchema(input)
		if err != nil {
			return err
		}
		e := Exporter{schema: schema, option: &Option{TableFilter: octopus.GetTableFilterFn(groups)}}
		buf := new(bytes.Buffer)
		if err := e.Export(buf); err != nil {
			return err
		}
		return util.WriteStringToFile(output, buf.String())
	})
	verifspec.Ensures("fails like the generator", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the generator writes", verifspec.Eq(files, want))
}
