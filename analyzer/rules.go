package main

import (
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rule is a check of the whole program.
type rule struct {
	name  string
	props []string
	run   func(p *Program) []report
}

var rules = []rule{
	{"package-state", []string{"P36"}, rulePackageState},
	{"effects", []string{"P36"}, ruleEffects},
	{"nondeterminism", []string{"P32"}, ruleNondeterminism},
	{"map-order", []string{"P32"}, ruleMapOrder},
	{"shared-code", []string{"P18"}, ruleSharedCode},
	{"shared-lists", []string{"P30"}, ruleSharedLists},
	{"overwrite", []string{"P25", "P31"}, ruleOverwrite},
	{"variants", []string{"P33"}, ruleVariants},
	{"close-on-panic", []string{"P20"}, ruleCloseOnPanic},
	{"loops", []string{"P38"}, ruleLoops},
	{"recursion", []string{"P38"}, ruleRecursion},
}

func (p *Program) runRule(r rule) (out []report) {
	defer func() {
		if e := recover(); e != nil {
			why := "the rule failed"
			if u, ok := e.(undecided); ok {
				why = u.why
			}
			out = []report{{Name: "rule:" + r.name, Verdict: "undecided", Why: []string{why}}}
		}
	}()
	return r.run(p)
}

// isSpecFunc: part of the reference definitions.
func (p *Program) isSpecFunc(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return strings.HasPrefix(filepath.Base(p.fset.Position(f.Pos()).Filename), "zz_verif_")
}
