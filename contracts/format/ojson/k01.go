package ojson

import (
	"encoding/json"

	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// the command writes the schema imported to the file named.
//
//verif:effect (*ojson.Importer).ImportFile
//verif:effect (*octopus.Schema).ToFile
func Verif_K01_Ojson(input, output string, s *Schema) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(ImportCliFlags, ImportAction, "input", input, "output", output)
	})
	want, wantErr := verifspec.Run(func() error {
		im := Importer{option: &ImportOption{}}
		schema, err := im.ImportFile(input)
		if err != nil {
			return err
		}
		return schema.ToFile(output)
	})
	verifspec.Ensures("fails like the importer", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes the schema imported", verifspec.Eq(files, want))
}
