package main

import "strconv"

// step generates a workflow step. The outermost steps are definitions
// The definition of a workflow or resource step can only be omitted when it's the last step, and it has no iteration
func (g *Gen) step(top, last bool) *T {
	r := g.r
	g.depth++
	defer func() { g.depth-- }()
	g.budget--
	style := r.Pick([]string{"workflow", "action", "resource", "stateHandler"})
	if g.deep() && style == "workflow" {
		style = "action"
	}
	if g.cfg.Focus == "steps" && !g.deep() && r.P(30) {
		style = "workflow"
	}
	n := g.node("Step")
	g.t(style)
	g.count("step " + style)
	name := g.defName()
	if r.P(5) {
		name = r.Pick([]string{"type", "class", "if", "node", "default", "site"})
	}
	for name[0] == ':' {
		name = g.defName()
	}
	qn := g.qname(name)
	g.t(name)
	n.A = attrs(str("name", qn), str("style", style))
	if style == "workflow" {
		g.push(name)
	}

	// properties
	props := &T{K: "Hash"}
	g.open = append(g.open, props)
	g.t("{")
	pcount := g.small(5)
	if g.deep() {
		pcount = r.N(2)
	}
	entries := g.list("}", pcount, g.stepProperty)
	g.t("}")
	props.last = g.lastTok()

	omit := last && r.P(25)
	// iteration
	if !omit && r.P(20) {
		iname := name
		if r.P(40) {
			iname = r.Pick([]string{"x", "y", "res", "a::b"})
			g.t("$" + iname)
			g.t("=")
			g.count("step iteration named")
		}
		fn := r.Pick([]string{"times", "range", "each"})
		g.count("step iteration " + fn)
		iter := &T{K: "Hash"}
		ie := &T{K: "KeyedEntry"}
		g.open = append(g.open, iter, ie)
		g.t(fn)
		ft := g.lastTok()
		mkName := func(s string, t *Tok) *T {
			return &T{K: "Name", A: attrs(str("name", s)), first: t, NoLoc: true}
		}
		lst := &T{K: "List"}
		g.open = append(g.open, lst)
		g.t("(")
		pt := g.lastTok()
		ps := g.params(g.small(3))
		g.t(")")
		lst.F = fields(many("elements", ps))
		lst.last = g.lastTok()
		vars := &T{K: "List"}
		g.open = append(g.open, vars)
		g.t("|")
		vt := g.lastTok()
		vs := g.params(g.small(3))
		g.t("|")
		vars.F = fields(many("elements", vs))
		vars.last = g.lastTok()
		ke := func(t *Tok, k string, v *T) *T {
			return &T{K: "KeyedEntry", F: fields(one("key", mkName(k, t)), one("value", v)), first: t}
		}
		iter.F = fields(many("entries", []*T{
			ke(ft, "name", &T{K: "Name", A: attrs(str("name", iname)), first: ft}),
			ke(ft, "function", &T{K: "Name", A: attrs(str("name", fn)), first: ft, last: ft}),
			ke(pt, "params", lst),
			ke(vt, "vars", vars)}))
		iter.last = g.lastTok()
		ie.F = fields(one("key", mkName("iteration", ft)), one("value", iter))
		ie.last = g.lastTok()
		entries = append(entries, ie)
	}
	if len(entries) > 0 {
		props.F = fields(many("entries", entries))
	} else {
		props = nil
	}

	var def *T
	switch style {
	case "workflow":
		if !omit {
			b := &T{K: "Block"}
			g.open = append(g.open, b)
			g.t("{")
			var ss []*T
			cnt := g.small(5)
			if g.deep() {
				cnt = r.N(2)
			}
			for i := 0; i < cnt; i++ {
				if r.P(15) {
					ss = append(ss, g.function())
				} else {
					ss = append(ss, g.step(false, i == cnt-1))
				}
			}
			g.t("}")
			if len(ss) > 0 {
				b.F = fields(many("statements", ss))
				b.last = g.lastTok()
				def = b
			}
		}
		g.pop()
	case "resource":
		if !omit {
			h := &T{K: "Hash"}
			g.open = append(g.open, h)
			g.t("{")
			es := g.list("}", g.small(5), g.stateAttribute)
			g.t("}")
			if len(es) > 0 {
				h.F = fields(many("entries", es))
				h.last = g.lastTok()
				def = h
			}
		}
	default:
		def = g.braces()
	}
	// The workflow has popped its own name here
	n.F = fields(one("properties", props), one("definition", def))
	n.last = g.lastTok()
	if top {
		g.defs = append(g.defs, n)
	}
	return n
}

func (g *Gen) stepProperty() *T {
	r := g.r
	n := g.node("KeyedEntry")
	key := g.node("Name")
	var name string
	x := r.N(8)
	switch x {
	case 0, 1:
		name = "parameters"
	case 2, 3:
		name = "returns"
	default:
		name = r.Pick([]string{"type", "state", "external_id", "when", "if", "typespace", "class", "x"})
	}
	g.t(name)
	key.A = attrs(str("name", name))
	g.done(key)
	g.t("=>")
	g.count("step property " + name)
	switch x {
	case 0, 1:
		v := g.node("List")
		g.t("(")
		ps := g.params(g.small(4))
		g.t(")")
		return g.done(n, one("key", key), one("value", g.done(v, many("elements", ps))))
	case 2, 3:
		v := g.node("List")
		g.t("(")
		ps := g.list(")", g.small(4), g.returnParam)
		g.t(")")
		return g.done(n, one("key", key), one("value", g.done(v, many("elements", ps))))
	}
	v := g.kwOr(lvRel)
	return g.done(n, one("key", key), one("value", v))
}

func (g *Gen) returnParam() *T {
	r := g.r
	n := g.node("Parameter")
	var ty, val *T
	if r.P(50) {
		ty = g.typeExpr()
	}
	g.seq++
	name := "r" + strconv.Itoa(g.seq)
	g.t("$" + name)
	alias := func() *T {
		a := g.node("String")
		s := r.Pick(append([]string{"if", "class", "type"}, g.simpleName()))
		g.t(s)
		a.A = attrs(str("value", s))
		return g.done(a)
	}
	if r.P(40) {
		g.t("=")
		g.count("step return alias")
		if r.P(40) {
			val = g.node("List")
			g.t("(")
			as := g.list(")", g.small(3), alias)
			g.t(")")
			g.done(val, many("elements", as))
		} else {
			val = alias()
		}
	}
	n.A = attrs(str("name", name), boolean("rest", false))
	return g.done(n, one("type", ty), one("value", val))
}

func (g *Gen) stateAttribute() *T {
	r := g.r
	n := g.node("KeyedEntry")
	key := g.node("Name")
	name := g.simpleName()
	if r.P(15) {
		name = r.Pick([]string{"if", "type", "class", "in", "site"})
	}
	key.A = attrs(str("name", name))
	g.t(name)
	g.done(key)
	g.t("=>")
	v := g.expr(lvExpr, true)
	g.done(n, one("key", key), one("value", v))
	n.F[0].L[0] = deferred(key)
	n.F[1].L[0] = deferred(v)
	g.count("step state attribute")
	return n
}

// deferred replaces variables and calls, found in literal lists and hashes, with calls to Deferred.new
func deferred(e *T) *T {
	slice := func(es []*T) []*T {
		var r []*T
		for _, c := range es {
			r = append(r, deferred(c))
		}
		return r
	}
	with := func(fs ...Field) *T {
		c := *e
		c.F = fs
		return &c
	}
	syn := func(k string, as []Attr, fs ...Field) *T {
		return &T{K: k, A: as, F: fs, first: e.first, dOff: e.dOff, NoLoc: false}
	}
	call := func(lambda *T, args ...*T) *T {
		ty := syn("TypeName", attrs(str("name", "Deferred"), str("down", "deferred")))
		na := syn("NamedAccess", nil, one("lhs", ty), one("rhs", syn("Name", attrs(str("name", "new")))))
		return &T{K: "CallMethod", A: attrs(boolean("rval", true)), first: e.first, dOff: e.dOff, last: e.last,
			F: fields(one("functor", na), many("args", args), one("lambda", lambda))}
	}
	switch e.K {
	case "List":
		return with(many("elements", slice(e.Many("elements"))))
	case "Hash":
		return with(many("entries", slice(e.Many("entries"))))
	case "KeyedEntry":
		return with(one("key", deferred(e.One("key"))), one("value", deferred(e.One("value"))))
	case "CallNamed":
		f := e.One("functor")
		switch f.K {
		case "Name":
			return call(e.One("lambda"), syn("String", attrs(str("value", f.Str("name")))), syn("List", nil, many("elements", slice(e.Many("args")))))
		case "TypeName":
			return call(e.One("lambda"), syn("Name", attrs(str("name", "new"))), syn("List", nil, many("elements", slice(append([]*T{f}, e.Many("args")...)))))
		}
	case "Variable":
		v := e.One("expr")
		n := v.Str("name")
		if v.K == "Integer" {
			n = strconv.FormatInt(v.Attr("value").(int64), 10)
		}
		return call(nil, syn("String", attrs(str("value", "$"+n))))
	}
	return e
}
