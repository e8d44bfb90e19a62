package plantuml

import (
	"bytes"
	"encoding/json"
	"path/filepath"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// every option of the command reaches the generator, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:effect (*plantuml.Generator).Generate
func Verif_K01_Plantuml(input, output string, s *octopus.Schema) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(CliFlags, Action, "input", input, "output", output)
	})
	want, wantErr := verifspec.Run(func() error {
		schema, err := octopus.LoadSchema(input)
		if err != nil {
			return err
		}
		g := Generator{schema: schema, option: &Option{}}
		name := output
		if !specUmlExt(strings.ToLower(filepath.Ext(output))) {
			if _, err := util.Mkdir(name); err != nil {
				return err
			}
			name = filepath.Join(name, "output.plantuml")
		}
		buf := new(bytes.Buffer)
		if err := g.Generate(buf); err != nil {
			return err
		}
		return util.WriteStringToFile(name, buf.String())
	})
	verifspec.Ensures("fails like the generator", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the generator writes", verifspec.Eq(files, want))
}

func specUmlExt(e string) bool {
	return e == ".wsd" || e == ".pu" || e == ".puml" || e == ".plantuml" || e == ".iuml"
}
