package main

import "go/types"

// Maps from texts or numbers to values of any kind: an object holding a total
// function from keys to what is stored there, if anything.

func mapParts(u *types.Map) (*types.Map, bool) {
	if i, ok := u.Elem().Underlying().(*types.Interface); !ok || i.NumMethods() > 0 {
		return nil, false
	}
	b, ok := u.Key().Underlying().(*types.Basic)
	return u, ok && b.Info()&types.IsString != 0
}

func isMapSort(s *Sort) bool {
	return s.Data != nil && isOpt(s) && heapElem[s.Data.Ctors[1].Fields[0].Sort] != nil
}

// textMap is the sort of map[string]interface{}.
func (w *World) textMap() *Sort { return w.optSort(arraySort(sStr, w.optSort(w.anyD.Sort))) }
