package xlsx

import (
	"encoding/json"
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
	"github.com/tealeg/xlsx"
)

// every option of the command reaches the generator, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:effect (*xlsx.Exporter).Export
//verif:opaque xlsx.SpecBooks
func Verif_K01_Export(input, output string, s *octopus.Schema, null bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(ExportCliFlags, ExportAction, "input", input, "output", output, "useNullColumn", null)
	})
	want, wantErr := verifspec.Run(func() error {
		schema, err := octopus.LoadSchema(input)
		if err != nil {
			return err
		}
		e := Exporter{schema: schema, option: &ExportOption{UseNullColumn: null}}
		return e.Export(output)
	})
	verifspec.Ensures("fails like the generator", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the generator writes", verifspec.Eq(SpecBooks(files), SpecBooks(want)))
}

// the command writes the JSON text of the schema imported to the file named.
//
// specBook is a workbook to import.
func specBook(s *octopus.Schema, null bool) []byte {
	dir, err := ioutil.TempDir(".", "book")
	if err != nil {
		return nil
	}
	defer func() {
		recover()
		os.RemoveAll(dir)
	}()
	e := Exporter{schema: s, option: &ExportOption{UseNullColumn: null}}
	e.Export(filepath.Join(dir, "a.xlsx"))
	data, _ := ioutil.ReadFile(filepath.Join(dir, "a.xlsx"))
	return data
}

//verif:opaque xlsx.specBook
//verif:assume-effect (*xlsx.Importer).Import
//verif:effect (*octopus.Schema).ToJson
func Verif_K01_Import(input, output string, s *octopus.Schema, null bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	verifspec.Input(input, specBook(s, null))
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(ImportCliFlags, ImportAction, "input", input, "output", output)
	})
	want, wantErr := verifspec.Run(func() error {
		im := Importer{}
		schema, err := im.Import(input)
		if err != nil {
			return err
		}
		data, err := schema.ToJson()
		if err != nil {
			return err
		}
		return util.WriteBytesToFile(output, data)
	})
	verifspec.Ensures("fails like the importer", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes the schema imported", verifspec.Eq(files, want))
}

// SpecBooks gives the cells of workbooks (the bytes of a workbook file differ
// from run to run).
func SpecBooks(files []verifspec.File) []verifspec.File {
	var out []verifspec.File
	for _, f := range files {
		if book, err := xlsx.OpenBinary([]byte(f.Content)); err == nil {
			f.Content = ""
			for _, sheet := range book.Sheets {
				f.Content += "[" + sheet.Name + "]\n"
				for _, row := range sheet.Rows {
					for _, cell := range row.Cells {
						f.Content += cell.Value + "|"
					}
					f.Content += "\n"
				}
			}
		}
		out = append(out, f)
	}
	return out
}
