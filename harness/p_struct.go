package main

const genRule = "programs are generated together with their expected AST from a constructive grammar (random construct, nesting, names, spacing, line breaks, comments); the real AST, dumped through its accessors, and the list of definitions must equal the expected. "

var genAssumptions = []string{
	"the generator (harness/gen*.go) is the specification of the language; it was checked by hand against the Puppet language reference and the behaviour of the code",
	"accessors of the AST nodes return the fields of the node",
}

func init() {
	s := func(id, focus string, quick, thorough int, what string, kinds ...string) {
		register(&Prop{ID: id, Quick: quick, Thorough: thorough, Run: structural(focus, hasKind(kinds...)),
			Rule: genRule + "Non-trivial: a distinct source that contains " + what, Assumptions: genAssumptions})
	}
	s("C09", "calls", 250000, 8000000, "a call, a lambda, an access, or a collection", "CallNamed", "CallMethod", "CallFunction", "Lambda", "Access", "List", "Hash")
	s("C10", "flow", 250000, 8000000, "an if, unless, case, or selector", "If", "Unless", "Case", "Selector")
	s("C11", "resources", 250000, 8000000, "a resource, resource defaults, an override, a collector, a relationship or a capability mapping", "Resource", "ResourceDefaults", "ResourceOverride", "Collect", "Relationship", "CapabilityMapping")
	s("C12", "defs", 250000, 8000000, "a definition", "Class", "Define", "Function", "Plan", "Node", "Site", "Application", "TypeAlias", "TypeDefinition", "TypeMapping")
	s("C13", "steps", 250000, 8000000, "a workflow step", "Step")
	s("C14", "epp", 250000, 8000000, "rendered text or a rendered expression", "Render", "RenderString")
	epp := props["C14"]
	programs := epp.Run
	epp.Run = func(c *Case) {
		if c.R.P(30) {
			rawTemplate(c)
			return
		}
		programs(c)
	}
	epp.Rule += "; 30% of the cases decode templates made of random pieces with an independent decoder"
}
