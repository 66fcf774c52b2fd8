package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var debugPeel = false

const maxPeel = 10

// hasHeaderExit: the loop can end at its header.
func hasHeaderExit(lp *loop) bool {
	for _, s := range lp.header.Succs {
		if !lp.blocks[s] {
			return true
		}
	}
	return false
}

// peel evaluates a loop whose number of iterations is a known constant (a
// range over a list whose elements are all known) one iteration at a time.
func (fr *frame) peel(lp *loop, ins []edge) (out []edge, ok bool) {
	if !hasHeaderExit(lp) {
		return nil, false
	}
	// a range over a map whose keys are known: in any order
	var next *ssa.Next
	var steps []*Term
	for _, in := range lp.header.Instrs {
		if n, is := in.(*ssa.Next); is {
			if !fr.ev.absReflect && !mapInstance || n.IsString || next != nil {
				return nil, false
			}
			next = n
		}
	}
	if next != nil {
		r := fr.val(next.Iter, nil)
		if r.op != "rangemap" {
			return nil, false
		}
		ks, known := mapEntries(r.args[0])
		if !known {
			return nil, false
		}
		ks = fr.ev.inOrder(ks)
		mt := next.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		for _, k := range ks {
			steps = append(steps, mk("tup", "", True, k, mk("get", "", r.args[0], k, fr.ev.zero(mt.Elem()))))
		}
		steps = append(steps, mk("tup", "", False, fr.ev.zero(mt.Key()), fr.ev.zero(mt.Elem())))
		defer func(old map[*ssa.Next]*Term) { fr.nextAt = old }(fr.nextAt)
	}
	savedP, savedRets, savedCrash := fr.panicC, len(fr.rets), fr.ev.crashC
	savedEnv := map[ssa.Value]*Term{}
	for k, v := range fr.env {
		savedEnv[k] = v
	}
	savedDefers := len(fr.defers)
	restore := func() {
		fr.panicC, fr.ev.crashC = savedP, savedCrash
		fr.rets = fr.rets[:savedRets]
		fr.defers = fr.defers[:savedDefers]
		fr.env = savedEnv
		out, ok = nil, false
	}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(undecided); !is {
				panic(e)
			}
			if fr.ev.absReflect {
				panic(e) // the general treatment of loops does not get further
			}
			if debugPeel {
				fmt.Println("peel:", fr.fn, e.(undecided).why)
			}
			restore()
		}
	}()
	var phis []*ssa.Phi
	for _, in := range lp.header.Instrs {
		if phi, is := in.(*ssa.Phi); is {
			phis = append(phis, phi)
		}
	}
	var outside []ssa.Value
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if v, is := in.(ssa.Value); is && usedOutside(v, lp) {
				outside = append(outside, v)
			}
		}
	}
	type snap struct {
		pc   *Term
		vals map[ssa.Value]*Term
	}
	var snaps []snap
	for n := 0; ; n++ {
		if n > maxPeel {
			restore()
			return
		}
		pc := orAll(ins)
		if pc == False {
			break
		}
		st := fr.ev.mergeStates(ins).clone()
		vals := map[*ssa.Phi]*Term{}
		for _, phi := range phis {
			var v *Term
			for i := len(ins) - 1; i >= 0; i-- {
				x := fr.val(phi.Edges[predIndex(lp.header, ins[i].from)], ins[i].st)
				if v == nil {
					v = x
				} else {
					v = ite(ins[i].pc, x, v)
				}
			}
			vals[phi] = constrain(v, pc)
		}
		for phi, v := range vals {
			fr.env[phi] = v
		}
		if next != nil {
			if n >= len(steps) {
				restore()
				return
			}
			m := map[*ssa.Next]*Term{next: steps[n]}
			for k, v := range fr.nextAt {
				if k != next {
					m[k] = v
				}
			}
			fr.nextAt = m
		}
		p0 := fr.panicC
		fr.panicC = False
		exits, latches := fr.runRegion(lp, lp.header, []edge{{nil, lp.header, True, st}})
		pI := fr.panicC
		fr.panicC = or(p0, and(pc, pI))
		if len(fr.rets) != savedRets {
			restore()
			return
		}
		H := False
		for _, e := range exits {
			if e.from == lp.header {
				H = or(H, e.pc)
			}
		}
		if H != True && H != False {
			restore()
			return
		}
		for _, e := range exits {
			g := and(pc, e.pc)
			if g == False {
				continue
			}
			s := snap{pc: g, vals: map[ssa.Value]*Term{}}
			for _, v := range outside {
				if t, has := fr.env[v]; has {
					s.vals[v] = t
				}
			}
			snaps = append(snaps, s)
			out = append(out, edge{e.from, e.to, g, e.st})
		}
		if H == True {
			break
		}
		ins = ins[:0:0]
		for _, e := range latches {
			ins = append(ins, edge{e.from, e.to, and(pc, e.pc), e.st})
		}
	}
	for _, v := range outside {
		var m *Term
		for i := len(snaps) - 1; i >= 0; i-- {
			x, has := snaps[i].vals[v]
			if !has {
				continue
			}
			if m == nil {
				m = x
			} else {
				m = ite(snaps[i].pc, x, m)
			}
		}
		if m != nil {
			fr.env[v] = m
		}
	}
	return out, true
}
