package main

import (
	"fmt"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// --- C33. Validators that are built on the framework ---

// ownValidator is a validator that embeds AbstractValidator, like the documentation says
type ownValidator struct {
	validator.AbstractValidator
	visit func(v *ownValidator, e parser.Expression)
}

func (v *ownValidator) Validate(e parser.Expression) { v.visit(v, e) }

// wrappedChecker is a validator that adds something to one of the checkers
type wrappedChecker struct {
	validator.Checker
	seen int
}

func (w *wrappedChecker) Validate(e parser.Expression) {
	w.seen++
	validator.Check(w.Checker, e)
}

type demoter interface {
	Demote(code issue.Code, severity issue.Severity)
}

// Codes that can be demoted, and codes that can't
var softCodes = []issue.Code{validator.ValidateDuplicateKey, validator.ValidateFutureReservedWord, validator.ValidateIdemExpressionNotLast}
var hardCodes = []issue.Code{validator.ValidateCatalogOperationNotSupported, validator.ValidateNotTopLevel, validator.ValidateReservedWord, validator.ValidateUnreadableSource,
	validator.ValidateDuplicateParameter, validator.ValidateIllegalAssignmentContext, validator.ValidateNotRvalue, validator.ValidateIdemNotAllowedLast, validator.ValidateIllegalClassref,
	validator.ValidateNotVirtualizable, validator.ValidateWorkflowOperationNotSupported, validator.ValidateIllegalParameterName, validator.ValidateDuplicateDefault}
var severities = []issue.Severity{issue.SeverityIgnore, issue.SeverityDeprecation, issue.SeverityWarning, issue.SeverityError}

func panicsWith(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func runC33(c *Case) {
	r := c.R
	e, t := c.validSource()
	if e == nil || t.depth() > 150 {
		return
	}
	if r.P(15) {
		// Any expression can be validated
		var all []parser.Expression
		e.AllContents(nil, func(_ []parser.Expression, x parser.Expression) { all = append(all, x) })
		if len(all) > 0 {
			e = all[r.N(len(all))]
			t = Dump(e)
		}
	}
	switch r.N(3) {
	case 0:
		c.ownChecker(e)
	default:
		c.ownVisits(e, t)
	}
}

// ownVisits checks what an own validator is told and what it reports
func (c *Case) ownVisits(e parser.Expression, t *T) {
	r := c.R
	parent := map[parser.Expression]parser.Expression{}
	expect := map[parser.Expression]int{}
	t.Walk(func(x *T) {
		if x.E == nil {
			return
		}
		expect[x.E]++
		for _, ch := range x.Children() {
			if ch.E != nil {
				parent[ch.E] = x.E
			}
		}
	})
	order := []parser.Expression{e}
	e.AllContents(nil, func(_ []parser.Expression, x parser.Expression) { order = append(order, x) })

	v := &ownValidator{}
	severity := map[issue.Code]issue.Severity{}
	demote := func() {
		if r.P(50) {
			code, s := softCodes[r.N(len(softCodes))], severities[r.N(len(severities))]
			v.Demote(code, s)
			severity[code] = s
			c.Count("demoted")
		}
		if r.P(30) {
			code := hardCodes[r.N(len(hardCodes))]
			if panicsWith(func() { v.Demote(code, severities[r.N(len(severities))]) }) == nil {
				c.Fail("the hard issue %s can be demoted", code)
			}
			c.Count("demotion of a hard issue refused")
		}
		if r.P(30) {
			s := issue.Severity(r.N(12) - 4)
			valid := false
			for _, x := range severities {
				valid = valid || x == s
			}
			if !valid {
				if panicsWith(func() { v.Demote(softCodes[r.N(len(softCodes))], s) }) == nil {
					c.Fail("an issue can be demoted to the severity %d", int(s))
				}
				c.Count("demotion to an unknown severity refused")
			}
		}
	}
	type report struct {
		code issue.Code
		s    issue.Severity
		at   parser.Expression
		word string
	}
	var before []issue.Reported
	var beforeText []string
	for round := 0; round < 1+r.N(3); round++ {
		demote()
		var want []report
		k := 0
		failed := ""
		fail := func(f string, args ...interface{}) {
			if failed == "" {
				failed = fmt.Sprintf(f, args...)
			}
		}
		rate := r.Pick([]string{"0", "5", "50"})
		v.visit = func(v *ownValidator, x parser.Expression) {
			if k >= len(order) {
				fail("more expressions are given than there are")
				return
			}
			if x != order[k] {
				fail("expression %d is %s, expected %s", k, x.Label(), order[k].Label())
			}
			k++
			if round > 0 && len(want) == 0 && len(v.Issues()) != 0 {
				fail("issues of the previous validation remain")
			}
			var up parser.Expression
			if x != e {
				up = parent[x]
			}
			if got := v.Container(); got != up {
				fail("the container of %s at %d is %s, expected %s", x.Label(), x.ByteOffset(), labelOf(got), labelOf(up))
			}
			for y := x; y != nil && failed == ""; y = parent[y] {
				up := parent[y]
				if y == e {
					up = nil
				}
				if got := v.ContainerOf(y); got != up {
					fail("the container of %s, which is around %s, is %s, expected %s", labelOf(y), x.Label(), labelOf(got), labelOf(up))
				}
				if y == e {
					break
				}
			}
			if rate == "5" && r.P(5) || rate == "50" && r.P(50) {
				code := softCodes[r.N(len(softCodes))]
				if r.P(40) {
					code = validator.ValidateReservedWord
				}
				word := r.Pick([]string{"x", "%{word}", "%d", "", "a b", "日本"})
				s, found := severity[code]
				if !found {
					s = issue.SeverityError
				}
				args := issue.H{"word": word, "key": word, "expression": x}
				v.Accept(code, x, args)
				if s != issue.SeverityIgnore {
					want = append(want, report{code, s, x, word})
				}
			}
		}
		validator.Validate(v, e)
		if failed != "" {
			c.Fail("%s", failed)
		}
		if k != len(order) {
			c.Fail("%d of %d expressions are given to the validator", k, len(order))
		}
		got := v.Issues()
		if len(got) != len(want) {
			c.Fail("%d issues were accepted, %d are reported", len(want), len(got))
		}
		for i, w := range want {
			g := got[i]
			l := g.Location()
			if g.Code() != w.code || g.Severity() != w.s {
				c.Fail("issue %d is %s %s, expected %s %s", i, g.Severity(), g.Code(), w.s, w.code)
			}
			if l.File() != w.at.File() || l.Line() != w.at.Line() || l.Pos() != w.at.Pos() {
				c.Fail("issue %d is located at line %d, column %d, expected line %d, column %d", i, l.Line(), l.Pos(), w.at.Line(), w.at.Pos())
			}
			if g.Argument("word") != w.word {
				c.Fail("issue %d has the argument %v, expected %q", i, g.Argument("word"), w.word)
			}
			if w.code == validator.ValidateReservedWord && !strings.HasPrefix(g.Error(), "Use of reserved word: "+w.word+", must be quoted") {
				c.Fail("issue %d has the message %q", i, g.Error())
			}
		}
		c.CountN("expressions given to own validators", k)
		c.CountN("issues of own validators", len(want))
		for i, x := range before {
			if x.String() != beforeText[i] {
				c.Fail("an issue that was returned before is changed, from %q to %q", beforeText[i], x)
			}
		}
		before, beforeText = got, nil
		for _, x := range got {
			beforeText = append(beforeText, x.String())
		}
	}
	if r.P(30) {
		v.Clear()
		if len(v.Issues()) != 0 {
			c.Fail("%d issues remain after Clear", len(v.Issues()))
		}
		v.Accept(validator.ValidateReservedWord, e, issue.H{"word": "x"})
		if len(v.Issues()) != 1 {
			c.Fail("one issue was accepted after Clear, %d are reported", len(v.Issues()))
		}
		for i, x := range before {
			if x.String() != beforeText[i] {
				c.Fail("an issue that was returned before is changed by Clear, from %q to %q", beforeText[i], x)
			}
		}
	}
	key := ""
	if len(order) > 3 {
		key = c.Src
	}
	c.Seen(key)
}

func labelOf(e parser.Expression) string {
	if e == nil {
		return "nothing"
	}
	return fmt.Sprintf("%s at %d", e.Label(), e.ByteOffset())
}

// ownChecker checks validators that add something to those that exist, and the demotion of their issues
func (c *Case) ownChecker(e parser.Expression) {
	r := c.R
	mode, strict := r.N(3), vStricts[r.N(3)]
	newChecker := func() validator.Checker {
		switch mode {
		case vmTasks:
			return validator.NewTasksChecker()
		case vmWorkflow:
			return validator.NewWorkflowChecker()
		}
		return validator.NewChecker(strict)
	}
	file := e.File()
	want := c.vList(vValidate(mode, strict, e).Issues(), file)
	w := &wrappedChecker{Checker: newChecker()}
	validator.Validate(w, e)
	if got := c.vList(w.Issues(), file); !sameStrings(got, want) {
		c.Fail("a validator that delegates to a checker reports:\n%s\n\nthe checker reports:\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	n := 1
	e.AllContents(nil, func([]parser.Expression, parser.Expression) { n++ })
	if w.seen != n {
		c.Fail("%d of %d expressions are given to the validator", w.seen, n)
	}
	c.Count("checker wrapped")

	// Demotion of soft issues
	v := newChecker()
	d, ok := v.(demoter)
	if !ok {
		c.Count("checker without Demote")
		c.Seen("")
		return
	}
	severity := map[string]issue.Severity{}
	for _, code := range softCodes {
		if r.P(60) {
			s := severities[r.N(len(severities))]
			d.Demote(code, s)
			severity[string(code)] = s
		}
	}
	base := newChecker()
	for _, code := range softCodes {
		base.(demoter).Demote(code, issue.SeverityError)
	}
	validator.Validate(base, e)
	validator.Validate(v, e)
	plain := newChecker()
	validator.Validate(plain, e)
	default1 := map[string]issue.Severity{}
	for _, code := range softCodes {
		default1[string(code)] = issue.SeverityIgnore
	}
	for _, i := range plain.Issues() {
		default1[string(i.Code())] = i.Severity()
	}
	var exp []string
	affected := 0
	for _, i := range base.Issues() {
		s, found := severity[string(i.Code())]
		if !found {
			if s, found = default1[string(i.Code())]; !found {
				s = i.Severity()
			}
		} else {
			affected++
		}
		if s != issue.SeverityIgnore {
			exp = append(exp, s.String()+strings.TrimPrefix(c.vActual(i, file), i.Severity().String()))
		}
	}
	if got := c.vList(v.Issues(), file); !sameStrings(got, exp) {
		c.Fail("with the severities %v the issues are:\n%s\n\nexpected:\n%s", severity, strings.Join(got, "\n"), strings.Join(exp, "\n"))
	}
	code := hardCodes[r.N(len(hardCodes))]
	if panicsWith(func() { d.Demote(code, issue.SeverityWarning) }) == nil {
		c.Fail("the hard issue %s of a checker can be demoted", code)
	}
	c.CountN("issues with demoted severity", affected)
	key := ""
	if affected > 0 {
		key = c.Src
	}
	c.Seen(key)
}

func init() {
	register(&Prop{ID: "C33", Quick: 60000, Thorough: 2000000, Run: runC33,
		Rule: "generated programs with violations, generated and changed programs, and accepted hostile sources, or one of the expressions in them, are validated by validators of the harness: one that embeds AbstractValidator, which compares each expression it's given, its container, and the containers of those around it with the tree got by accessors, and accepts issues with random codes, demoted at random, at random places, in several rounds; and one that delegates to the checkers. " +
			"Non-trivial: a distinct source with more than three expressions, or with issues whose severity is changed"})
}
