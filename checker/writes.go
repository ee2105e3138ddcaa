package main

// what the events write into, below the level of cells: the sequences whose elements are stored to, copied
// over or appended to (where there may be room left behind the slice)
func elemWrites(evs []*Event) (out []*Event, roots []*Term) {
	add := func(ev *Event, t *Term) {
		b, _, _ := seqParts(t)
		for b.op == OConcat && len(b.args) > 0 {
			b, _, _ = seqParts(b.args[0])
		}
		if t.op == ONil || b.op == ONil || b.op == OConst || b.op == OElems || b.op == OMakeSlice || localRoot(b) || addrRoot(b).op == OAlloc {
			return
		}
		out = append(out, ev)
		roots = append(roots, b)
	}
	for _, ev := range evs {
		switch ev.Kind {
		case EvCall:
			if ev.Name == "append" && ev.Fn == nil && len(ev.Args) == 2 {
				add(ev, ev.Args[0])
			}
		case EvCopy:
			add(ev, ev.Args[0])
		case EvStore:
			if ev.Addr.op == OIndexAddr {
				add(ev, ev.Addr.args[0])
			}
		}
	}
	return
}
