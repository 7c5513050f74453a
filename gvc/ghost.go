package main

// Ghost fields: specification-only state attached to a type the repository
// does not define (a gzip reader's position, an io.Reader's contents). They
// exist in the symbolic memory only; no program text can read or write them.

import "go/types"

type ghostDef struct {
	owner string
	name  string
	typ   types.Type
}

var ghosts []ghostDef

func typePath(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func ghostField(t types.Type, name string) (int, types.Type) {
	if len(ghosts) == 0 || t == nil {
		return 0, nil
	}
	p := typePath(t)
	for i, g := range ghosts {
		if g.owner == p && g.name == "$"+name {
			return -1 - i, g.typ
		}
	}
	return 0, nil
}

// ghostPlace is the place of a ghost field of an interface value.
func ghostPlace(v Value, t types.Type, i int) *Place {
	return (&Place{Kind: PObj, Ref: scalar(v), Key: typePath(t), Root: t}).field(i, ghosts[-1-i].name)
}
