package octopus

import "sort"

func sortTables(ts []*Table) { sort.Sort(TableSlice(ts)) }
