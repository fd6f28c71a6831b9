package main

import (
	"math/big"
	"strconv"
)

// --- C23. The PN of an AST ---

// A reference for the PN form of each kind of node

func pvCall(name string, kids ...*pv) *pv { return &pv{k: 'c', s: name, kids: kids} }
func pvStr(s string) *pv                  { return &pv{k: 's', s: s} }
func pvInt(i int64) *pv                   { return &pv{k: 'i', i: big.NewInt(i)} }
func pvList(kids []*pv) *pv               { return &pv{k: 'l', kids: kids} }

type pvMap struct{ v *pv }

func newPvMap() *pvMap { return &pvMap{&pv{k: 'm'}} }

func (m *pvMap) put(key string, v *pv) *pvMap {
	if v != nil {
		m.v.keys = append(m.v.keys, key)
		m.v.kids = append(m.v.kids, v)
	}
	return m
}

func pnOfAll(ts []*T) []*pv {
	r := make([]*pv, len(ts))
	for i, t := range ts {
		r[i] = pnOf(t)
	}
	return r
}

// pnStatements is the list of statements of a body
func pnStatements(t *T) *pv {
	if t == nil {
		return nil
	}
	if t.K == "Block" {
		return pvList(pnOfAll(t.Many("statements")))
	}
	return pvList([]*pv{pnOf(t)})
}

func pnParams(ts []*T) *pv {
	if len(ts) == 0 {
		return nil
	}
	m := newPvMap()
	for _, p := range ts {
		m.put(p.Str("name"), pnParam(newPvMap(), p))
	}
	return m.v
}

func pnParam(m *pvMap, p *T) *pv {
	m.put("type", pnOf(p.One("type")))
	if p.Bool("rest") {
		m.put("splat", &pv{k: 'b', b: true})
	}
	return m.put("value", pnOf(p.One("value"))).v
}

func pnForm(t *T) *pv {
	if f := t.Str("form"); f != "regular" {
		return pvStr(f)
	}
	return nil
}

var pnBinary = map[string]string{"And": "and", "Or": "or", "In": "in", "NamedAccess": "."}
var pnUnary = map[string]string{"Not": "!", "Minus": "-", "Unfold": "unfold", "Paren": "paren", "Render": "render", "Text": "str", "AttributesOp": "splat-hash"}
var pnNamed = map[string]string{"Name": "qn", "TypeName": "qr", "Reserved": "reserved"}
var pnDefs = map[string]string{"Class": "class", "Define": "define", "Function": "function", "Plan": "plan", "Application": "application"}

func pnOf(t *T) *pv {
	if t == nil {
		return nil
	}
	one := func(f string) *pv { return pnOf(t.One(f)) }
	all := func(f string) *pv { return pvList(pnOfAll(t.Many(f))) }
	if op, ok := pnUnary[t.K]; ok {
		return pvCall(op, one("expr"))
	}
	if n, ok := pnNamed[t.K]; ok {
		return pvCall(n, pvStr(t.Str("name")))
	}
	if d, ok := pnDefs[t.K]; ok {
		m := newPvMap().put("name", pvStr(t.Str("name")))
		if p := t.Str("parent"); p != "" {
			m.put("parent", pvStr(p))
		}
		return pvCall(d, m.put("params", pnParams(t.Many("params"))).put("body", pnStatements(t.One("body"))).put("returns", one("returns")).v)
	}
	switch t.K {
	case "And", "Or", "In", "NamedAccess":
		return pvCall(pnBinary[t.K], one("lhs"), one("rhs"))
	case "Arithmetic", "Assignment", "Comparison", "Match", "Relationship":
		return pvCall(t.Str("op"), one("lhs"), one("rhs"))
	case "Access":
		return pvCall("access", append([]*pv{one("operand")}, pnOfAll(t.Many("keys"))...)...)
	case "AttributeOp":
		return pvCall(t.Str("op"), pvStr(t.Str("name")), one("value"))
	case "Block":
		return pvCall("block", pnOfAll(t.Many("statements"))...)
	case "CallMethod", "CallNamed", "CallFunction":
		name := "invoke"
		if t.Bool("rval") {
			name = "call"
		}
		if t.K == "CallMethod" {
			name += "-method"
		} else if t.K == "CallFunction" {
			name += "-lambda"
		}
		return pvCall(name, newPvMap().put("functor", one("functor")).put("args", all("args")).put("block", one("lambda")).v)
	case "CapabilityMapping":
		return pvCall(t.Str("kind"), one("component"), pvList(append([]*pv{pvStr(t.Str("capability"))}, pnOfAll(t.Many("mappings"))...)))
	case "Case":
		return pvCall("case", one("test"), all("options"))
	case "CaseOption":
		return newPvMap().put("when", all("values")).put("then", pnStatements(t.One("then"))).v
	case "Collect":
		m := newPvMap().put("type", one("type")).put("query", one("query"))
		if len(t.Many("ops")) > 0 {
			m.put("ops", all("ops"))
		}
		return pvCall("collect", m.v)
	case "Concat":
		return pvCall("concat", pnOfAll(t.Many("segments"))...)
	case "Epp":
		return pvCall("epp", pnOfAll(t.One("body").Many("statements"))...)
	case "VirtualQuery", "ExportedQuery":
		name := "virtual-query"
		if t.K == "ExportedQuery" {
			name = "exported-query"
		}
		if e := t.One("expr"); e != nil && e.K != "Nop" {
			return pvCall(name, pnOf(e))
		}
		return pvCall(name)
	case "Heredoc":
		m := newPvMap()
		if s := t.Str("syntax"); s != "" {
			m.put("syntax", pvStr(s))
		}
		return pvCall("heredoc", m.put("text", one("text")).v)
	case "If", "Unless":
		name := "if"
		if t.K == "Unless" {
			name = "unless"
		}
		m := newPvMap().put("test", one("test")).put("then", pnStatements(t.One("then")))
		if e := t.One("else"); e != nil && e.K != "Nop" {
			m.put("else", pnStatements(e))
		}
		return pvCall(name, m.v)
	case "KeyedEntry":
		return pvCall("=>", one("key"), one("value"))
	case "SelectorEntry":
		return pvCall("=>", one("matching"), one("value"))
	case "Selector":
		return pvCall("?", one("lhs"), all("selectors"))
	case "Lambda":
		return pvCall("lambda", newPvMap().put("params", pnParams(t.Many("params"))).put("returns", one("returns")).put("body", pnStatements(t.One("body"))).v)
	case "Boolean":
		return &pv{k: 'b', b: t.Bool("value")}
	case "Default":
		return pvCall("default")
	case "Undef":
		return &pv{k: 'n'}
	case "Float":
		f, _ := t.Attr("value").(float64)
		return &pv{k: 'f', f: f}
	case "Integer":
		v, _ := t.Attr("value").(int64)
		if radix, _ := t.Attr("radix").(int64); radix != 10 {
			return pvCall("int", newPvMap().put("radix", pvInt(radix)).put("value", pvInt(v)).v)
		}
		return pvInt(v)
	case "String":
		return pvStr(t.Str("value"))
	case "RenderString":
		return pvCall("render-s", pvStr(t.Str("value")))
	case "Regexp":
		return pvCall("regexp", pvStr(t.Str("value")))
	case "Hash":
		return pvCall("hash", pnOfAll(t.Many("entries"))...)
	case "List":
		return pvCall("array", pnOfAll(t.Many("elements"))...)
	case "Node":
		return pvCall("node", newPvMap().put("matches", all("matches")).put("parent", one("parent")).put("body", pnStatements(t.One("body"))).v)
	case "Nop":
		return pvCall("nop")
	case "Parameter":
		return pvCall("param", pnParam(newPvMap().put("name", pvStr(t.Str("name"))), t))
	case "Program":
		return one("body")
	case "ResourceBody":
		return pvCall("resource-body", newPvMap().put("title", one("title")).put("ops", all("ops")).v)
	case "ResourceDefaults":
		return pvCall("resource-defaults", newPvMap().put("type", one("type")).put("ops", all("ops")).put("form", pnForm(t)).v)
	case "ResourceOverride":
		return pvCall("resource-override", newPvMap().put("resources", one("resources")).put("ops", all("ops")).put("form", pnForm(t)).v)
	case "Resource":
		bodies := make([]*pv, 0)
		for _, b := range t.Many("bodies") {
			bodies = append(bodies, newPvMap().put("title", pnOf(b.One("title"))).put("ops", pvList(pnOfAll(b.Many("ops")))).v)
		}
		return pvCall("resource", newPvMap().put("type", one("type")).put("bodies", pvList(bodies)).put("form", pnForm(t)).v)
	case "Site":
		return pvCall("site", pnStatements(t.One("body")).kids...)
	case "Step":
		return pvCall("step", newPvMap().put("name", pvStr(t.Str("name"))).put("style", pvStr(t.Str("style"))).put("properties", one("properties")).put("definition", one("definition")).v)
	case "TypeAlias":
		return pvCall("type-alias", pvStr(t.Str("name")), one("type"))
	case "TypeDefinition":
		return pvCall("type-definition", pvStr(t.Str("name")), pvStr(t.Str("parent")), one("body"))
	case "TypeMapping":
		return pvCall("type-mapping", one("type"), one("mapping"))
	case "Variable":
		e := t.One("expr")
		if e.K == "Integer" {
			v, _ := e.Attr("value").(int64)
			return pvCall("var", pvInt(v))
		}
		return pvCall("var", pvStr(e.Str("name")))
	}
	panic("no PN form for " + t.K)
}

func runC23(c *Case) {
	p := wideProg(c, 12, 30)
	if p == nil {
		return
	}
	e, err := p.parse()
	if err != nil {
		c.Fail("valid source is rejected: %s", err)
	}
	check := func(t *T, act interface{ ToData() interface{} }, text string) {
		got, err := pvOfData(act.ToData())
		if err != nil {
			c.Fail("the data of the PN doesn't obey the mapping: %s", err)
		}
		exp := pnOf(t)
		if d := pvDiff(exp, got); d != "" {
			c.Fail("wrong PN of %s. %s\nPN: %s", t.K, d, clip(text, 1000))
		}
		fromText, err := readPN(text)
		if err != nil {
			c.Fail("the text of the PN can't be read: %s", err)
		}
		if d := pvDiffAt(exp, fromText, "", false); d != "" {
			c.Fail("wrong text of the PN of %s. %s\nPN: %s", t.K, d, clip(text, 1000))
		}
		c.Seen(p.Src + "\x00" + t.K + strconv.Itoa(t.Off))
		c.Count("PN of " + t.K)
	}
	top := e.ToPN()
	check(p.T, top, top.String())
	// Some of the nodes
	d := Dump(e)
	if Diff(p.T, d) != "" {
		c.Fail("wrong AST: %s", Diff(p.T, d))
	}
	var exps, acts []*T
	p.T.Walk(func(t *T) { exps = append(exps, t) })
	d.Walk(func(t *T) { acts = append(acts, t) })
	for i := 0; i < 5 && len(exps) == len(acts); i++ {
		k := c.R.N(len(exps))
		if acts[k].E == nil {
			continue
		}
		x := acts[k].E.ToPN()
		check(exps[k], x, x.String())
	}
	c.observe(p)
}

func init() {
	register(&Prop{ID: "C23", Quick: 100000, Thorough: 4000000, Run: runC23,
		Rule:        "programs are generated together with their expected AST. The PN (data form and text) of the program and of random nodes must be what the reference (pnOf) gives for the expected AST. Non-trivial: distinct node in a distinct source",
		Assumptions: append([]string{"pnOf (p_ast_pn.go) is the documented form of each kind of node; it was derived from the tests' expectations and reviewed by hand"}, genAssumptions...)})
}
