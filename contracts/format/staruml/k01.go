package staruml

import (
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// the command writes the JSON text of the schema imported to the file named.
//
//verif:assume-effect (*staruml.Importer).ImportFile
//verif:effect (*octopus.Schema).ToJson
func Verif_K01_Staruml(input, output string, text string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	verifspec.Input(input, []byte(text))
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(ImportCliFlags, ImportAction, "input", input, "output", output)
	})
	want, wantErr := verifspec.Run(func() error {
		im := Importer{}
		schema, err := im.ImportFile(input)
		if err != nil {
			return err
		}
		data, err := schema.ToJson()
		if err != nil {
			return err
		}
		return util.WriteBytesToFile(output, data)
	})
	verifspec.Ensures("fails like the importer", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes the schema imported", verifspec.Eq(files, want))
}
