package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C14", "Field-by-field specification of configuration completion, decided by path-sensitive analysis with one option symbolic at a time and all others set, then all others unset.", 40, ruleC14)
}

// leafPath is a path of field indices to a non-struct field.
type leafPath struct {
	name string
	idx  []int
	typ  types.Type
}

func leavesOf(t types.Type, name string, idx []int) (out []leafPath) {
	st := structOf(t)
	if st == nil || opaqueStruct(t) {
		return []leafPath{{name, append([]int{}, idx...), t}}
	}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		if name != "" {
			n = name + "." + n
		}
		out = append(out, leavesOf(st.Field(i).Type(), n, append(append([]int{}, idx...), i))...)
	}
	return
}

// symStruct: a struct value made of symbols, one per leaf.
func symStruct(t types.Type, name string) *Term {
	st := structOf(t)
	if st == nil || opaqueStruct(t) {
		return mkSym(name, t)
	}
	args := make([]*Term, st.NumFields())
	for i := range args {
		args[i] = symStruct(st.Field(i).Type(), name+"."+st.Field(i).Name())
	}
	return mk(Term{op: OAgg, typ: t, args: args})
}

func leafVal(v *Term, lp leafPath, root types.Type) *Term {
	t := root
	for _, i := range lp.idx {
		st := structOf(t)
		t = st.Field(i).Type()
		v = mkFieldVal(v, i, t)
	}
	return v
}

func isZeroLit(v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkIntEq(v, tZeroInt)
		case u.Info()&types.IsString != 0:
			return mkEq(mkLen(v), tZeroInt)
		case u.Info()&types.IsBoolean != 0:
			return mkNot(v)
		}
	}
	return mkEq(v, tNil)
}

func ruleC14(c *Ctx) {
	fill, def := c.fn("config", "Fill"), c.fn("config", "Default")
	if fill == nil || def == nil {
		return
	}
	e := c.engine()
	dps := returns(c.run(e, nil, def, nil))
	if !c.ob(len(dps) == 1, "default:one-way", def.Pos(), "the defaults are not constant: %d paths", len(dps)) {
		return
	}
	if !c.ob(len(fill.Params) == 1 && fill.Signature.Results().Len() == 1, "fill:signature", fill.Pos(), "unexpected signature") {
		return
	}
	cfgT := fill.Params[0].Type()
	src := symStruct(cfgT, "src")
	leaves := leavesOf(cfgT, "", nil)
	c.note("%d options", len(leaves))
	for _, lp := range leaves {
		d := leafVal(dps[0].Results[0], lp, cfgT)
		_, isInt := d.isInt()
		c.ob(isInt || d.op == OGlobalVal || d.op == OConst, "default:"+lp.name, def.Pos(), "the default of %s is not a constant: %s", lp.name, d)
		if n, ok := d.isInt(); ok {
			c.ob(n > 0, "default-usable:"+lp.name, def.Pos(), "the default of %s is %d, which would leave the option unset", lp.name, n)
		}
		for _, other := range []bool{false, true} {
			s := newState()
			for _, o := range leaves {
				v := leafVal(src, o, cfgT)
				if b, ok := o.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
					s.F.assume(mkLe(tZeroInt, v), true)
				}
				if o.name != lp.name {
					s.F.assume(isZeroLit(v, o.typ), other)
				}
			}
			ps := c.run(e, s, fill, []*Term{src})
			c.noPanic(ps, fill)
			seen := 0
			for _, p := range returns(ps) {
				for _, o := range leaves {
					v, got := leafVal(src, o, cfgT), leafVal(p.Results[0], o, cfgT)
					dv := leafVal(dps[0].Results[0], o, cfgT)
					for _, unset := range []bool{false, true} {
						z := isZeroLit(v, o.typ)
						f := p.with(Lit{t: z, v: unset})
						if f == nil || f.refuteAll(1) {
							continue
						}
						seen++
						q := &Path{S: &State{F: f}}
						want, what := v, "kept"
						if unset {
							want, what = dv, "defaulted"
						}
						c.ob(q.equal(got, want), what+":"+o.name, p.Pos, "%s is completed to %s where %s is due (%s)", o.name, got, want, map[bool]string{true: "unset", false: "set"}[unset])
					}
				}
			}
			c.ob(seen >= len(leaves)+1, "fill:covered:"+lp.name, fill.Pos(), "only %d cases reached", seen)
		}
	}
	// a pair of an initial and a maximal size is consistent
	byName := map[string]int64{}
	for _, lp := range leaves {
		if n, ok := leafVal(dps[0].Results[0], lp, cfgT).isInt(); ok {
			byName[lp.name] = n
		}
	}
	for n, v := range byName {
		if strings.HasSuffix(n, ".Default") {
			if m, ok := byName[strings.TrimSuffix(n, "Default")+"Maximal"]; ok {
				c.ob(v <= m, "consistent:"+n, def.Pos(), "%s", fmt.Sprintf("%s is %d, above its maximum %d", n, v, m))
			}
		}
	}
}
