package main

// Checks whose programs are generated also use changed programs, with the AST that the reference parser gives
func init() {
	near := func(id, focus string, percent int, m refMode, kinds ...string) {
		p := props[id]
		run := p.Run
		var nontrivial func(p *Prog) bool
		if len(kinds) > 0 {
			nontrivial = hasKind(kinds...)
		}
		p.Run = func(c *Case) {
			if c.Idx >= enumerated(id, c.Tier) && c.R.P(percent) {
				nearCase(c, focus, m, nontrivial)
				return
			}
			run(c)
		}
		if m.over {
			p.Rule += "; also texts made by random changes of tokens and bytes of programs. Those that an independent parser (refparse.go) rejects must be rejected"
		} else {
			p.Rule += "; also texts made by random changes of tokens and bytes of programs. Those that an independent parser (refparse.go) accepts must be accepted, with the AST that it gives"
		}
	}
	ast := refMode{under: true}
	near("C04", "ops", 40, ast, "Or", "And", "Comparison", "Arithmetic", "Match", "In", "Minus", "Not", "Unfold", "Assignment", "Relationship", "Selector")
	near("C05", "literals", 25, ast)
	near("C06", "strings", 25, ast, "String")
	near("C07", "interp", 25, ast, "Concat")
	near("C08", "heredoc", 30, ast, "Heredoc")
	near("C09", "calls", 30, ast, "CallNamed", "CallMethod", "Lambda", "Access", "List", "Hash")
	near("C10", "flow", 30, ast, "If", "Unless", "Case", "Selector")
	near("C11", "resources", 30, ast, "Resource", "ResourceDefaults", "ResourceOverride", "Collect", "Relationship", "CapabilityMapping")
	near("C12", "defs", 30, ast, "Class", "Define", "Function", "Plan", "Node", "Site", "Application", "TypeAlias", "TypeDefinition", "TypeMapping")
	near("C13", "steps", 30, ast, "Step")
	near("C14", "epp", 25, ast, "Render", "RenderString")
	props["C08"].Rule += ". A quarter of those are heredocs that share lines with strings, comments and regular expressions that span lines or contain what looks like a heredoc"
	near("C18", "any", 30, refMode{over: true})
	for _, id := range []string{"C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17", "C19", "C23", "C29", "C30"} {
		props[id].Rule += ". Some programs are long: parts of a program that can be repeated are repeated up to thousands of times"
	}
	props["C17"].Rule += ". Every 300th program is preceded by long white space, up to 200000 bytes"
	for _, id := range []string{"C17", "C24", "C29"} {
		p := props[id]
		run := p.Run
		p.Run = func(c *Case) {
			if c.Idx%800 == 11 {
				repeated(c)
				return
			}
			run(c)
		}
		p.Rule += ". Every 800th case: a small program that is accepted with the same number of statements, definitions and issues for each repetition when it's repeated 1 to 5 times must be when it's repeated more than 10000 times, and the last repetition must be like the fifth"
	}
	for _, id := range []string{"C17", "C19", "C23"} {
		props[id].Rule += "; 30% of the programs are made by random changes of tokens and bytes, and are those that an independent parser (refparse.go) accepts, with the AST that it gives"
	}
}

// enumerated returns the number of cases, from the first, that enumerate something
func enumerated(id, tier string) int {
	switch id {
	case "C04":
		return (opSeqCount(tier) + opChunk - 1) / opChunk
	case "C05":
		return len(badNumbers) * len(litContexts)
	}
	return 0
}
