package sqlalchemy

import (
	"encoding/json"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// every option of the command reaches the generator, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:assume-effect (*sqlalchemy.Generator).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper
func Verif_K01_Sqlalchemy(input, output string, s *octopus.Schema, groups, prefix, remove, suffix string, utc bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(CliFlags, Action, "input", input, "output", output, "groups", groups, "prefix", prefix, "removePrefix", remove, "uniqueNameSuffix", suffix, "useUTC", utc)
	})
	want, wantErr := verifspec.Run(func() error {
		schema, err := octopus.LoadSchema(input)
		if err != nil {
			return err
		}
		g := Generator{schema: schema, option: &Option{PrefixMapper: common.NewPrefixMapper(prefix), TableFilter: octopus.GetTableFilterFn(groups),
			RemovePrefixes: strings.Split(remove, ","), UniqueNameSuffix: suffix, UseUTC: utc}}
		return g.Generate(output)
	})
	verifspec.Ensures("fails like the generator", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the generator writes", verifspec.Eq(files, want))
}
