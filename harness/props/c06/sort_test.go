package c06

import "slices"

func sortInts(x []int64) { slices.Sort(x) }
