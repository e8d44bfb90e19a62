package gorm

import (
	"bytes"
	"encoding/json"
	"path/filepath"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// every option of the command reaches the generator, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:assume-effect (*gorm.Generator).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper
func Verif_K01_Gorm(input, output string, s *octopus.Schema, embed, groups, pkg, prefix, remove, suffix string, pointer bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(CliFlags, Action, "input", input, "output", output, "embed", embed, "groups", groups, "package", pkg, "pointerAssociation", pointer, "prefix", prefix, "removePrefix", remove, "uniqueNameSuffix", suffix)
	})
	want, wantErr := verifspec.Run(func() error {
		schema, err := octopus.LoadSchema(input)
		if err != nil {
			return err
		}
		g := Generator{schema: schema, option: &Option{PrefixMapper: common.NewPrefixMapper(prefix), TableFilter: octopus.GetTableFilterFn(groups), Embed: embed, Package: pkg,
			PointerAssociation: pointer, RemovePrefixes: strings.Split(remove, ","), UniqueNameSuffix: suffix}}
		name := output
		if strings.ToLower(filepath.Ext(output)) != ".go" {
			if _, err := util.Mkdir(name); err != nil {
				return err
			}
			name = filepath.Join(name, "output.go")
		}
		buf := new(bytes.Buffer)
		if err := g.Generate(buf); err != nil {
			return err
		}
		return util.WriteStringToFile(name, buf.String())
	})
	verifspec.Ensures("fails like the generator", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the generator writes", verifspec.Eq(files, want))
}
