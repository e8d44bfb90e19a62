package liquibase

import (
	"encoding/json"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// every option of the command reaches the generator, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:effect (*liquibase.Generator).Generate
//verif:opaque octopus.GetTableFilterFn
func Verif_K01_Liquibase(input, output string, s *octopus.Schema, groups, suffix string, comments bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(CliFlags, Action, "input", input, "output", output, "groups", groups, "uniqueNameSuffix", suffix, "comments", comments)
	})
	want, wantErr := verifspec.Run(func() error {
		schema, err := octopus.LoadSchema(input)
		if err != nil {
			return err
		}
		g := Generator{schema: schema, option: &Option{TableFilter: octopus.GetTableFilterFn(groups), UniqueNameSuffix: suffix, UseComments: comments}}
		return g.Generate(output)
	})
	verifspec.Ensures("fails like the generator", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the generator writes", verifspec.Eq(files, want))
}
