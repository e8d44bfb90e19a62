package octopus

import (
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// init writes a schema to the file named, db.json if none is.
func Verif_K01_Init(named bool) {
	files, err := verifspec.Run(func() error {
		if named {
			return verifspec.CLI(InitCliFlags, InitAction, "output", "out.json")
		}
		return verifspec.CLI(InitCliFlags, InitAction)
	})
	want := "db.json"
	if named {
		want = "out.json"
	}
	verifspec.Ensures("one file is written", err != nil || len(files) == 1)
	verifspec.Ensures("the file is the one named", verifspec.Forall(0, len(files), func(i int) bool { return files[i].Name == want }))
}
