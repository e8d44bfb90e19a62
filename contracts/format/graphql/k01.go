package graphql

import (
	"encoding/json"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// every option of the command reaches the generator, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:effect (*graphql.Generator).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper
func Verif_K01_Graphql(input, output string, s *octopus.Schema, pkg string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(CliFlags, Action, "input", input, "output", output, "graphqlPackage", pkg)
	})
	want, wantErr := verifspec.Run(func() error {
		schema, err := octopus.LoadSchema(input)
		if err != nil {
			return err
		}
		g := Generator{schema: schema, option: &Option{PrefixMapper: common.NewPrefixMapper(""), TableFilter: octopus.GetTableFilterFn(""), RemovePrefixes: strings.Split("", ",")}}
		return g.Generate(output)
	})
	verifspec.Ensures("fails like the generator", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the generator writes", verifspec.Eq(files, want))
}
