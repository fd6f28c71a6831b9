package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// --- C24, C25, C26. Validation ---

// A reference validator. It works on the T of an AST, with links to the parents, rather than on the real AST, and it has no
// state: what a rule says about a node only depends on that node, its ancestors, and its descendants.

const (
	vmPuppet = iota
	vmTasks
	vmWorkflow
)

type vissue struct {
	code string
	at   *T
	args map[string]interface{} // string, int64, or *T
	soft bool                   // might be reported
}

type vref struct {
	mode   int
	parent map[*T]*T
	issues []vissue
	visits map[string]int
}

type va = map[string]interface{}

func (v *vref) add(code string, at *T, args va) {
	v.issues = append(v.issues, vissue{code: "VALIDATE_" + code, at: at, args: args})
}

func refValidate(root *T, mode int) *vref {
	v := &vref{mode: mode, parent: map[*T]*T{}, visits: map[string]int{}}
	var link func(t *T)
	link = func(t *T) {
		for _, x := range t.Children() {
			v.parent[x] = t
			link(x)
		}
	}
	link(root)
	root.Walk(v.visit)
	return v
}

var vCatalog = map[string]bool{"Application": true, "CapabilityMapping": true, "Collect": true, "Class": true, "Node": true, "Relationship": true,
	"ResourceDefaults": true, "Resource": true, "ResourceOverride": true, "Define": true, "Site": true}

func (v *vref) visit(t *T) {
	v.visits[t.K]++
	if v.mode != vmPuppet && vCatalog[t.K] {
		v.add("CATALOG_OPERATION_NOT_SUPPORTED", t, va{"operation": t})
		return
	}
	parent := v.parent[t]
	switch t.K {
	case "Step":
		if v.mode != vmWorkflow {
			v.add("WORKFLOW_OPERATION_NOT_SUPPORTED", t, va{"operation": t})
		}

	case "Assignment":
		if op := t.Str("op"); op != "=" {
			v.add("APPENDS_DELETES_NO_LONGER_SUPPORTED", t, va{"operator": op})
		} else {
			v.assigned(t.One("lhs"))
			v.value(t.One("rhs"))
		}

	case "And", "Or", "In", "Arithmetic", "Comparison", "Match":
		v.value(t.One("lhs"))
		v.value(t.One("rhs"))

	case "Not", "Minus", "Unfold", "Paren", "Render", "Text", "Variable":
		v.value(t.One("expr"))

	case "NamedAccess":
		if rhs := t.One("rhs"); rhs.K != "Name" {
			v.add("ILLEGAL_EXPRESSION", rhs, va{"expression": rhs, "feature": "method name", "container": parent})
		}

	case "AttributeOp":
		if t.Str("op") == "+>" && (parent == nil || parent.K != "Collect" && parent.K != "ResourceOverride") {
			v.add("ILLEGAL_ATTRIBUTE_APPEND", t, va{"attr": t.Str("name"), "expression": parent})
		}

	case "AttributesOp":
		if parent != nil && map[string]bool{"Resource": true, "ResourceDefaults": true, "ResourceOverride": true, "Collect": true, "CapabilityMapping": true}[parent.K] {
			v.add("UNSUPPORTED_OPERATOR_IN_CONTEXT", parent, va{"operator": "* =>", "value": parent})
		}
		v.value(t.One("expr"))

	case "Block":
		ss := t.Many("statements")
		for i := 0; i < len(ss)-1; i++ {
			if noEffect(ss[i]) {
				v.add("IDEM_EXPRESSION_NOT_LAST", ss[i], va{"expression": ss[i]})
				break
			}
		}

	case "CallNamed":
		if f := t.One("functor"); f.K != "Name" && f.K != "TypeName" && !(f.K == "Access" && f.One("operand").K == "TypeName") {
			v.add("ILLEGAL_EXPRESSION", f, va{"expression": f, "feature": "function name", "container": t})
		}

	case "CapabilityMapping":
		x := t.One("component")
		keys := x.Many("keys")
		switch {
		case x.K == "TypeName":
		case x.K == "Name":
			v.add("ILLEGAL_CLASSREF", x, va{"name": x.Str("name")})
		case x.K == "Access" && x.One("operand").K == "TypeName" && len(keys) == 1 && (keys[0].K == "String" || keys[0].K == "Name" || keys[0].K == "TypeName"):
		default:
			v.add("ILLEGAL_EXPRESSION", x, va{"expression": x, "feature": "capability mapping", "container": t})
		}
		if !isSegments(strings.TrimPrefix(t.Str("capability"), "::"), true) {
			v.add("ILLEGAL_CLASSREF", t, va{"name": t.Str("capability")})
		}

	case "Case":
		v.value(t.One("test"))
		n := 0
		for _, o := range t.Many("options") {
			for _, x := range o.Many("values") {
				if x.K == "Default" {
					if n++; n > 1 {
						v.add("DUPLICATE_DEFAULT", x, va{"container": t})
					}
				}
			}
		}

	case "CaseOption":
		for _, x := range t.Many("values") {
			v.value(x)
		}

	case "Collect":
		if x := t.One("type"); x.K != "TypeName" {
			v.add("ILLEGAL_EXPRESSION", x, va{"expression": x, "feature": "type name", "container": t})
		}

	case "Epp":
		if parent != nil && parent.K == "Lambda" {
			v.noRest(parent)
			v.uniqueParams(parent)
		}

	case "Function", "Plan":
		v.namedDefinition(t)
		v.restLast(t)
		v.typeRef(t, t.One("returns"))

	case "Class", "Define":
		v.namedDefinition(t)
		v.noRest(t)
		for _, p := range t.Many("params") {
			if n := p.Str("name"); n == "name" || n == "title" {
				v.add("RESERVED_PARAMETER", t, va{"param": n, "container": t})
			}
		}
		v.bodyHasEffect(t)

	case "If", "Unless":
		v.value(t.One("test"))

	case "KeyedEntry":
		v.value(t.One("key"))
		v.value(t.One("value"))

	case "Lambda":
		v.restLast(t)
		v.typeRef(t, t.One("returns"))

	case "Hash":
		v.uniqueKeys(t)

	case "List":
		for _, x := range t.Many("elements") {
			v.value(x)
		}

	case "Node":
		for _, h := range t.Many("matches") {
			name := ""
			switch {
			case h.K == "String":
				name = h.Str("value")
			case h.K == "Concat":
				lit, ok := refLiteral(h)
				if !ok {
					v.add("ILLEGAL_HOSTNAME_INTERPOLATION", h, nil)
					continue
				}
				name = lit.(string)
			default:
				continue
			}
			if strings.IndexFunc(name, func(c rune) bool { return !(isWordChar(c) || c == '-' || c == '.') }) >= 0 {
				v.add("ILLEGAL_HOSTNAME_CHARS", h, va{"hostname": name})
			}
		}
		v.topLevel(t)
		v.bodyHasEffect(t)

	case "Parameter":
		n := t.Str("name")
		switch {
		case n != "" && n[0] >= '0' && n[0] <= '9':
			v.add("ILLEGAL_NUMERIC_PARAMETER", t, va{"name": n})
		case !isSimpleName(n, true):
			v.add("ILLEGAL_PARAMETER_NAME", t, va{"name": n})
		}
		var find func(x *T)
		find = func(x *T) {
			switch x.K {
			case "Assignment":
				v.add("ILLEGAL_ASSIGNMENT_CONTEXT", x, nil)
			case "Lambda":
			default:
				for _, y := range x.Children() {
					find(y)
				}
			}
		}
		if x := t.One("value"); x != nil {
			find(x)
		}

	case "VirtualQuery", "ExportedQuery":
		if x := t.One("expr"); x != nil && x.K != "Nop" {
			v.query(x)
		}

	case "Relationship":
		for _, x := range []*T{t.One("lhs"), t.One("rhs")} {
			if x.K != "Collect" && x.K != "Relationship" {
				v.value(x)
			}
		}

	case "Reserved":
		code := "RESERVED_WORD"
		if t.Bool("future") {
			code = "FUTURE_RESERVED_WORD"
		}
		v.add(code, t, va{"word": t.Str("name")})

	case "ResourceBody":
		n := 0
		for _, x := range t.Many("ops") {
			if x.K == "AttributesOp" {
				if n++; n > 1 {
					v.add("MULTIPLE_ATTRIBUTES_UNFOLD", x, nil)
				}
			}
		}

	case "ResourceDefaults", "ResourceOverride":
		if t.Str("form") != "regular" {
			v.add("NOT_VIRTUALIZABLE", t, nil)
		}

	case "Resource":
		if x := t.One("type"); t.Str("form") != "regular" && x.K == "Name" && x.Str("name") == "class" {
			v.add("NOT_VIRTUALIZABLE", t, nil)
		}

	case "SelectorEntry":
		v.value(t.One("matching"))

	case "Selector":
		v.value(t.One("lhs"))
		n := 0
		for _, x := range t.Many("selectors") {
			if x.One("matching").K == "Default" {
				if n++; n > 1 {
					v.add("DUPLICATE_DEFAULT", x, va{"container": t})
				}
			}
		}

	case "TypeAlias":
		v.topLevel(t)
		if !isSegments(t.Str("name"), true) {
			v.add("ILLEGAL_DEFINITION_NAME", t, va{"name": t.Str("name"), "value": t})
		}
		v.reservedTypeName(t)
		v.typeRef(t, t.One("type"))

	case "TypeDefinition":
		v.topLevel(t)

	case "TypeMapping":
		v.topLevel(t)
		v.typeMapping(t)
	}
}

// value reports an expression that doesn't produce a value
func (v *vref) value(t *T) {
	if t != nil && (defKinds[t.K] || t.K == "Collect") {
		v.add("NOT_RVALUE", t, va{"value": t})
	}
}

// assigned checks the left side of an assignment
func (v *vref) assigned(t *T) {
	switch t.K {
	case "Access":
		v.add("ILLEGAL_ASSIGNMENT_VIA_INDEX", t, nil)
	case "List":
		for _, x := range t.Many("elements") {
			v.assigned(x)
		}
	case "Variable":
		switch x := t.One("expr"); x.K {
		case "Name":
			if n := x.Str("name"); strings.Contains(n, "::") {
				v.add("CROSS_SCOPE_ASSIGNMENT", t, va{"name": n})
			}
		case "Integer":
			v.add("ILLEGAL_NUMERIC_ASSIGNMENT", t, va{"var": x.Attr("value").(int64)})
		}
	}
}

func isWordChar(c rune) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func isSimpleName(s string, underscore bool) bool {
	for i, c := range s {
		if !isWordChar(c) || i == 0 && !(c >= 'a' && c <= 'z' || underscore && c == '_') {
			return false
		}
	}
	return s != ""
}

// isSegments answers if all segments are words that start with the given kind of letter
func isSegments(s string, upper bool) bool {
	for _, p := range strings.Split(s, "::") {
		if p == "" || (p[0] >= 'A' && p[0] <= 'Z') != upper || !upper && !(p[0] >= 'a' && p[0] <= 'z') {
			return false
		}
		for _, c := range p {
			if !isWordChar(c) {
				return false
			}
		}
	}
	return true
}

var vReservedTypes = map[string]bool{}
var vFutureWords = map[string]bool{"application": true, "produces": true, "consumes": true}

func init() {
	for _, n := range strings.Fields(`type any unit scalar boolean numeric integer float collection array hash tuple struct variant optional enum
		regexp pattern runtime init object sensitive semver semverrange string timestamp timespan typeset`) {
		vReservedTypes[n] = true
	}
}

func (v *vref) namedDefinition(t *T) {
	v.topLevel(t)
	n := t.Str("name")
	if !isSegments(n, false) {
		v.add("ILLEGAL_DEFINITION_NAME", t, va{"name": n, "value": t})
	}
	v.reservedTypeName(t)
	v.futureWord(t, n)
	v.uniqueParams(t)
}

func (v *vref) reservedTypeName(t *T) {
	if n := t.Str("name"); vReservedTypes[strings.ToLower(n)] {
		v.add("RESERVED_TYPE_NAME", t, va{"name": n, "expression": t})
	}
}

func (v *vref) futureWord(t *T, n string) {
	if vFutureWords[n] {
		v.add("FUTURE_RESERVED_WORD", t, va{"word": n})
	}
}

func (v *vref) uniqueParams(t *T) {
	seen := map[string]bool{}
	for _, p := range t.Many("params") {
		n := p.Str("name")
		if seen[n] {
			v.add("DUPLICATE_PARAMETER", p, va{"param": n})
		}
		seen[n] = true
	}
}

func (v *vref) noRest(t *T) {
	for _, p := range t.Many("params") {
		if p.Bool("rest") {
			v.add("CAPTURES_REST_NOT_SUPPORTED", p, va{"param": p.Str("name"), "container": t})
		}
	}
}

func (v *vref) restLast(t *T) {
	ps := t.Many("params")
	for i, p := range ps {
		if i < len(ps)-1 && p.Bool("rest") {
			v.add("CAPTURES_REST_NOT_LAST", p, va{"param": p.Str("name")})
		}
	}
}

func (v *vref) typeRef(t, r *T) {
	if r == nil {
		return
	}
	n := r
	if r.K == "Access" {
		n = r.One("operand")
	}
	if n.K == "TypeName" {
		v.futureWord(r, strings.ToLower(n.Str("name")))
	} else {
		v.add("ILLEGAL_EXPRESSION", r, va{"expression": r, "feature": "a type reference", "container": t})
	}
}

func (v *vref) bodyHasEffect(t *T) {
	ss := t.One("body").Many("statements")
	if n := len(ss); n > 0 && noEffect(ss[n-1]) {
		v.add("IDEM_NOT_ALLOWED_LAST", ss[n-1], va{"expression": ss[n-1], "container": t})
	}
}

// topLevel checks that all ancestors are classes, or blocks of such, and that what can't be in a class is directly in the program
func (v *vref) topLevel(t *T) {
	absolute := t.K == "Function" || t.K == "TypeAlias" || t.K == "TypeDefinition" || t.K == "TypeMapping"
	for p := v.parent[t]; p != nil && p.K != "Class" && p.K != "Program"; {
		if p.K != "Block" {
			v.add("NOT_TOP_LEVEL", t, nil)
			return
		}
		p = v.parent[p]
		if absolute && (p == nil || p.K != "Program") {
			v.add("NOT_ABSOLUTE_TOP_LEVEL", t, va{"value": t})
			return
		}
	}
}

func (v *vref) query(t *T) {
	switch t.K {
	case "Comparison":
		if op := t.Str("op"); op == "==" || op == "!=" {
			return
		}
	case "Paren":
		v.query(t.One("expr"))
		return
	case "And", "Or":
		v.query(t.One("lhs"))
		v.query(t.One("rhs"))
		return
	case "Variable", "Name", "Integer", "Float", "String", "Boolean":
		return
	}
	v.add("ILLEGAL_QUERY_EXPRESSION", t, va{"expression": t})
}

func (v *vref) typeMapping(t *T) {
	// A Runtime type is mapped to a type. A Runtime type with a pattern is mapped to a pattern
	isPattern := func(x *T) bool {
		if x.K != "List" {
			return false
		}
		es := x.Many("elements")
		return len(es) == 2 && es[0].K == "Regexp" && es[1].K == "String"
	}
	l, r := t.One("type"), t.One("mapping")
	if l.K != "Access" || l.One("operand").K != "TypeName" || l.One("operand").Str("name") != "Runtime" {
		v.add("UNSUPPORTED_EXPRESSION", t, va{"expression": t})
		return
	}
	keys := l.Many("keys")
	fromPattern := len(keys) == 2 && isPattern(keys[1])
	toType := r.K == "TypeName" || r.K == "Access" && r.One("operand").K == "TypeName"
	if fromPattern && !isPattern(r) {
		v.add("ILLEGAL_REGEXP_TYPE_MAPPING", t, va{"expression": t})
	} else if !fromPattern && !toType {
		v.add("ILLEGAL_SINGLE_TYPE_MAPPING", t, va{"expression": t})
	}
}

func (v *vref) uniqueKeys(t *T) {
	type key struct {
		t   *T
		lit interface{}
	}
	composite := func(t *T) bool { return t.K == "List" || t.K == "Hash" || t.K == "Regexp" || t.K == "TypeName" }
	var seen []key
	for _, e := range t.Many("entries") {
		k := e.One("key")
		lit, ok := refLiteral(k)
		if !ok {
			continue
		}
		same, maybe := false, false
		for _, o := range seen {
			switch {
			case composite(k) != composite(o.t):
			case composite(k):
				if Diff(k, o.t) == "" {
					same = true
				} else if k.K == o.t.K && litEqual(lit, o.lit) {
					maybe = true // [a] and ['a'], or [16] and [0x10]
				}
			case litEqual(lit, o.lit):
				same = true
			default:
				f1, ok1 := lit.(float64)
				f2, ok2 := o.lit.(float64)
				maybe = maybe || ok1 && ok2 && f1 == f2
			}
		}
		if same || maybe {
			v.issues = append(v.issues, vissue{code: "VALIDATE_DUPLICATE_KEY", at: e, args: va{"key": k.E.String()}, soft: !same})
		}
		seen = append(seen, key{k, lit})
	}
}

// noEffect answers if the evaluation of an expression changes nothing, and produces nothing but a value
func noEffect(t *T) bool {
	if t == nil {
		return true
	}
	all := func(ts []*T) bool {
		for _, x := range ts {
			if !noEffect(x) {
				return false
			}
		}
		return true
	}
	switch t.K {
	case "Access", "Concat", "Heredoc", "List", "Hash", "Nop", "Selector",
		"And", "Or", "In", "Arithmetic", "Comparison", "NamedAccess",
		"Boolean", "Default", "Float", "Integer", "String", "Undef", "Name", "TypeName", "Regexp", "Reserved",
		"Not", "Minus", "Unfold", "Text", "Variable":
		return true
	case "Block":
		return all(t.Many("statements"))
	case "Case":
		return noEffect(t.One("test")) && all(t.Many("options"))
	case "CaseOption":
		return all(t.Many("values")) && noEffect(t.One("then"))
	case "If", "Unless":
		return noEffect(t.One("test")) && noEffect(t.One("then")) && noEffect(t.One("else"))
	case "Paren":
		return noEffect(t.One("expr"))
	}
	return false
}

// --- comparison ---

func vExprKey(e parser.Expression) string {
	return fmt.Sprintf("<%s at %d>", e.Label(), e.ByteOffset())
}

func vKey(code, sev string, line, pos int, args map[string]string) string {
	names := make([]string, 0, len(args))
	for n := range args {
		names = append(names, n)
	}
	sort.Strings(names)
	b := &strings.Builder{}
	fmt.Fprintf(b, "%s %s at line %d, column %d", sev, code, line, pos)
	for _, n := range names {
		fmt.Fprintf(b, ", %s=%s", n, args[n])
	}
	return b.String()
}

func (v *vissue) key(sev string) string {
	args := map[string]string{}
	for n, a := range v.args {
		switch x := a.(type) {
		case *T:
			if x != nil {
				args[n] = vExprKey(x.E)
			}
		case int64:
			args[n] = fmt.Sprintf("%d", x)
		default:
			args[n] = fmt.Sprintf("%q", x)
		}
	}
	return vKey(v.code, sev, v.at.E.Line(), v.at.E.Pos(), args)
}

// vActual returns the text of what a reported issue says, and checks its message
func (c *Case) vActual(r issue.Reported, file string) string {
	args := map[string]string{}
	msg := r.Error()
	for _, n := range r.Keys() {
		switch x := r.Argument(n).(type) {
		case nil:
			continue
		case parser.Expression:
			args[n] = vExprKey(x)
			if l := x.Label(); l == "" || !strings.Contains(msg, l) && !strings.Contains(msg, x.String()) {
				c.Fail("the message of %s doesn't contain its argument %s (%s): %s", r.Code(), n, l, msg)
			}
		case string:
			args[n] = fmt.Sprintf("%q", x)
			if !strings.Contains(msg, x) {
				c.Fail("the message of %s doesn't contain its argument %s (%q): %s", r.Code(), n, x, msg)
			}
		case int, int64:
			args[n] = fmt.Sprintf("%d", x)
			if !strings.Contains(msg, args[n]) {
				c.Fail("the message of %s doesn't contain its argument %s (%s): %s", r.Code(), n, args[n], msg)
			}
		default:
			args[n] = fmt.Sprintf("?%T", x)
		}
	}
	if issue.ForCode(r.Code()).MessageFormat() == "" || strings.Contains(issue.ForCode(r.Code()).MessageFormat(), "%!") {
		c.Fail("bad message: %s", msg)
	}
	l := r.Location()
	if l == nil {
		c.Fail("%s has no location", r.Code())
	}
	if l.File() != file {
		c.Fail("%s is located in file '%s'", r.Code(), l.File())
	}
	return vKey(string(r.Code()), r.Severity().String(), l.Line(), l.Pos(), args)
}

// severityOf is the severity of an issue, or an empty string if it isn't reported
func severityOf(code string, strict validator.Strictness) string {
	switch code {
	case "VALIDATE_FUTURE_RESERVED_WORD":
		return "deprecation"
	case "VALIDATE_DUPLICATE_KEY", "VALIDATE_IDEM_EXPRESSION_NOT_LAST":
		if strict == validator.StrictOff {
			return ""
		}
		return strict.String()
	}
	return "error"
}

// checkIssues compares the reported issues with those of the reference
func (c *Case) checkIssues(what string, ref *vref, strict validator.Strictness, issues []issue.Reported) {
	want, soft := map[string]int{}, map[string]bool{}
	for i := range ref.issues {
		x := &ref.issues[i]
		sev := severityOf(x.code, strict)
		if sev == "" {
			continue
		}
		k := x.key(sev)
		if x.soft {
			soft[k] = true
			continue
		}
		want[k]++
		if x.code == "VALIDATE_ILLEGAL_ASSIGNMENT_CONTEXT" {
			want[k] = 1 // a default value that contains parameters with default values
		}
		c.Count("expected " + x.code)
	}
	got := map[string]int{}
	for _, r := range issues {
		k := c.vActual(r, "f.pp")
		got[k]++
		if r.Code() == "VALIDATE_ILLEGAL_ASSIGNMENT_CONTEXT" {
			got[k] = 1
		}
	}
	var diffs []string
	for k, n := range want {
		if got[k] < n {
			diffs = append(diffs, fmt.Sprintf("not reported (%d of %d): %s", got[k], n, k))
		}
	}
	for k, n := range got {
		if n > want[k] && !soft[k] {
			diffs = append(diffs, fmt.Sprintf("unexpected (%d of %d): %s", want[k], n, k))
		}
	}
	if len(diffs) > 0 {
		sort.Slice(diffs, func(i, j int) bool { return diffs[i] > diffs[j] })
		if len(diffs) > 6 {
			diffs = diffs[:6]
		}
		c.Fail("%s: %s", what, strings.Join(diffs, "\n"))
	}
	c.CountN("issues compared", len(issues))
	if len(issues) == 0 {
		c.Count("programs without issues")
	}
}

// validSource returns an AST to validate
func (c *Case) validSource() (parser.Expression, *T) {
	r := c.R
	var e parser.Expression
	var err error
	switch k := r.N(100); {
	case k < 55:
		opts, src := vgenSource(r)
		c.Src = src
		e, err = parser.CreateParser(opts...).Parse("f.pp", src, false)
		if err != nil {
			c.Count("validation source rejected")
			if debugRejected {
				fmt.Println(err, "\n", src)
			}
			return nil, nil
		}
		c.Count("validation source")
	case k < 85:
		p := wideProg(c, 15, 35)
		if p == nil {
			return nil, nil
		}
		e, err = p.parse()
		if err != nil {
			return nil, nil // see C08 - C14
		}
		c.Count("generated program")
	default:
		in := hostile(c, 40)
		c.use(in)
		if e, err = in.parse(); err != nil {
			return nil, nil
		}
		c.Count("accepted hostile source")
	}
	t := Dump(e)
	if t.K != "Program" && t.K == "Block" {
		return nil, nil
	}
	return e, t
}

var debugRejected = os.Getenv("VH_DEBUG") != ""

func vValidate(mode int, strict validator.Strictness, e parser.Expression) validator.Validator {
	switch mode {
	case vmTasks:
		return validator.ValidateTasks(e)
	case vmWorkflow:
		return validator.ValidateWorkflow(e)
	}
	return validator.ValidatePuppet(e, strict)
}

var vStricts = []validator.Strictness{validator.StrictOff, validator.StrictWarning, validator.StrictError}

func runC24(c *Case) {
	e, t := c.validSource()
	if e == nil {
		return
	}
	strict := vStricts[1+c.R.N(2)]
	ref := refValidate(t, vmPuppet)
	c.checkIssues("issues", ref, strict, validator.ValidatePuppet(e, strict).Issues())
	for k, n := range ref.visits {
		c.feat["visited "+k] += n
	}
	if p, ok := e.(*parser.Program); ok && c.R.P(20) {
		// A part of the AST can also be validated
		if ds := p.Definitions(); len(ds) > 0 {
			d := ds[c.R.N(len(ds))]
			c.checkIssues("issues of a definition", refValidate(Dump(d), vmPuppet), strict, validator.ValidatePuppet(d, strict).Issues())
			c.Count("definition validated")
		}
	}
	key := ""
	if len(ref.issues) > 0 {
		key = c.Src
	}
	c.Seen(key)
}

func runC26(c *Case) {
	e, t := c.validSource()
	if e == nil {
		return
	}
	n := 0
	for mode, name := range []string{"puppet", "tasks", "workflow"} {
		ref := refValidate(t, mode)
		c.checkIssues("issues of the "+name+" validator", ref, validator.StrictError, vValidate(mode, validator.StrictError, e).Issues())
		for _, i := range ref.issues {
			if strings.HasSuffix(i.code, "_OPERATION_NOT_SUPPORTED") {
				n++
				c.Count(name + " reports " + i.at.K)
			}
		}
	}
	key := ""
	if n > 0 {
		key = c.Src
	}
	c.Seen(key)
}

// vList is the issues as texts
func (c *Case) vList(issues []issue.Reported, file string) []string {
	r := make([]string, len(issues))
	for i, x := range issues {
		r[i] = c.vActual(x, file)
	}
	return r
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC25(c *Case) {
	r := c.R
	e, t := c.validSource()
	if e == nil {
		return
	}
	before := t.String()
	pnBefore := e.ToPN().String()

	// Each strictness
	all := map[validator.Strictness][]string{}
	ref := refValidate(t, vmPuppet)
	var done []validator.Validator
	var doneText [][]string
	for _, i := range r.perm(3) {
		s := vStricts[i]
		sv := validator.ValidatePuppet(e, s)
		is := sv.Issues()
		all[s] = c.vList(is, "f.pp")
		done, doneText = append(done, sv), append(doneText, all[s])
		c.checkIssues("issues with strictness "+s.String(), ref, s, is)
	}
	adjust := func(strict validator.Strictness) []string {
		var r []string
		for _, s := range all[validator.StrictError] {
			for _, code := range []string{"VALIDATE_DUPLICATE_KEY", "VALIDATE_IDEM_EXPRESSION_NOT_LAST"} {
				if strings.HasPrefix(s, "error "+code+" ") {
					if strict == validator.StrictOff {
						s = ""
					} else {
						s = strict.String() + s[len("error"):]
					}
					break
				}
			}
			if s != "" {
				r = append(r, s)
			}
		}
		return r
	}
	for _, s := range vStricts {
		if exp := adjust(s); !sameStrings(exp, all[s]) {
			c.Fail("strictness %s gives other issues than strictness error:\n%s\n\n%s", s, strings.Join(all[s], "\n"), strings.Join(all[validator.StrictError], "\n"))
		}
	}
	affected := len(all[validator.StrictError]) - len(all[validator.StrictOff])
	c.CountN("issues subject to strictness", affected)

	// A validator that is used again, for this and for other ASTs
	mode := r.N(3)
	strict := vStricts[r.N(3)]
	var v validator.Checker
	switch mode {
	case vmPuppet:
		v = validator.NewChecker(strict)
	case vmTasks:
		v = validator.NewTasksChecker()
		strict = validator.StrictError
	default:
		v = validator.NewWorkflowChecker()
		strict = validator.StrictError
	}
	mv := vValidate(mode, strict, e)
	want := c.vList(mv.Issues(), "f.pp")
	done, doneText = append(done, mv), append(doneText, want)
	var kept []issue.Reported
	var keptText []string
	for k, n := 0, 2+r.N(4); k < n; k++ {
		x, exp, file := e, want, "f.pp"
		if r.P(50) {
			x, exp = nil, nil
			src := c.Src
			opts, other := vgenSource(r)
			if y, err := parser.CreateParser(opts...).Parse("g.pp", other, false); err == nil {
				x, file = y, "g.pp"
				exp = c.vList(vValidate(mode, strict, x).Issues(), file)
			}
			c.Src = src
			if x == nil {
				continue
			}
		}
		validator.Validate(v, x)
		if got := c.vList(v.Issues(), file); !sameStrings(got, exp) {
			c.Fail("a validator that is used again reports:\n%s\n\nexpected:\n%s", strings.Join(got, "\n"), strings.Join(exp, "\n"))
		}
		if k == 0 {
			kept, keptText = v.Issues(), exp
		}
		if r.P(20) {
			v.Clear()
			if len(v.Issues()) != 0 {
				c.Fail("a validator that is cleared has %d issues", len(v.Issues()))
			}
		}
		c.Count("validator used again")
	}
	if kept != nil {
		for i, x := range kept {
			f := x.Location().File()
			if s := c.vActual(x, f); s != keptText[i] {
				c.Fail("an issue that has been returned is changed by a later validation: '%s' was '%s'", s, keptText[i])
			}
		}
	}
	for i, d := range done {
		if got := c.vList(d.Issues(), "f.pp"); !sameStrings(got, doneText[i]) {
			c.Fail("the issues of a validation are changed by later validations:\n%s\n\nbefore:\n%s", strings.Join(got, "\n"), strings.Join(doneText[i], "\n"))
		}
	}
	if after := Dump(e).String(); after != before {
		c.Fail("the AST is changed by the validation")
	}
	if after := e.ToPN().String(); after != pnBefore {
		c.Fail("the PN of the AST is changed by the validation")
	}

	c.strictNames()

	// Parse and validate
	c.parserValidator()
	key := ""
	if affected > 0 {
		key = c.Src
	}
	c.Seen(key)
}

// strictNames checks what the names of the strictnesses denote
func (c *Case) strictNames() {
	r := c.R
	name := r.PickS("off", "warning", "error", "")
	want := map[string]validator.Strictness{"": validator.StrictOff, "off": validator.StrictOff, "warning": validator.StrictWarning, "error": validator.StrictError}[name]
	b := []byte(name)
	for i := range b {
		if r.P(40) {
			b[i] -= 'a' - 'A'
		}
	}
	if got := validator.Strict(string(b)); got != want {
		c.Fail("the strictness '%s' is %s", b, got)
	}
	if s := want.String(); s != name && name != "" {
		c.Fail("the name of strictness %s is '%s'", name, s)
	}
	bad := r.PickS("of", "warn", "errors", "err", " error", "error ", "on", "true", "none", "ignore", "1", "critical", "notice", "deprecation", "o", "offf")
	func() {
		defer func() {
			if x := recover(); x != nil {
				bad = ""
			}
		}()
		validator.Strict(bad)
	}()
	if bad != "" {
		c.Fail("'%s' is accepted as a strictness", bad)
	}
	c.Count("strictness names")
}

// parserValidator checks the combined entry point, which is used for several sources
func (c *Case) parserValidator() {
	r := c.R
	cfg := randomOptions(r)
	opts := cfg.options(false)
	strict := vStricts[r.N(3)]
	mode := r.N(3)
	newValidator := func() validator.Validator {
		switch mode {
		case vmTasks:
			return validator.NewTasksChecker()
		case vmWorkflow:
			return validator.NewWorkflowChecker()
		}
		return validator.NewChecker(strict)
	}
	pv := validator.NewParserValidator(parser.CreateParser(opts...), newValidator())
	for k, n := 0, 1+r.N(5); k < n; k++ {
		src := ""
		switch r.N(5) {
		case 0:
			src = hostile(c, 20).src
		case 1:
			cfg.Focus = r.Pick(allFocuses)
			if cfg.Focus == "steps" && !cfg.Workflow {
				cfg.Focus = ""
			}
			cfg.Budget = 3 + r.N(40)
			if p := newProg(r, cfg, false); p != nil {
				src = p.Src
			}
		case 2:
			src = r.PickS("", " ", "$x", "fail('x')", "$a = 1", "\xff", "class a {}", "1 2 3", "if", "notice(1)\n")
		default:
			_, src = vgenSource(r)
		}
		c.Src = src
		c.Info = []string{cfg.String(), "strict=" + strict.String(), fmt.Sprintf("mode=%d", mode)}
		file := r.PickS("f.pp", "dir/g.pp", "")
		e1, err := parser.CreateParser(opts...).Parse(file, src, false)
		e, res := pv.Parse(file, src)
		if err != nil {
			if e != nil {
				c.Fail("an AST is returned for a source that is rejected: %s", err)
			}
			if res == nil || len(res.Issues()) != 1 || !res.Error() {
				c.Fail("a source that is rejected doesn't give a result with one error: %s", err)
			}
			i := res.Issues()[0]
			if rep, ok := err.(issue.Reported); ok {
				if i.Error() != rep.Error() || i.Code() != rep.Code() || i.Severity() != issue.SeverityError {
					c.Fail("expected the issue '%s', got '%s'", rep, i)
				}
			} else if i.Severity() != issue.SeverityError || !strings.Contains(i.Error(), err.Error()) {
				c.Fail("expected the issue '%s', got '%s'", err, i)
			}
			c.Count("parse and validate: rejected")
			continue
		}
		if e == nil {
			c.Fail("no AST is returned for a source that is accepted")
		}
		if d := Diff(Dump(e1), Dump(e)); d != "" {
			c.Fail("parse and validate returns another AST: %s", d)
		}
		v := newValidator()
		validator.Validate(v, e1)
		exp := c.vList(v.Issues(), file)
		if len(exp) == 0 {
			if res != nil {
				c.Fail("a result is returned although there are no issues: %v", res.Issues())
			}
			c.Count("parse and validate: no issues")
			continue
		}
		if res == nil {
			c.Fail("no result although there are issues:\n%s", strings.Join(exp, "\n"))
		}
		if got := c.vList(res.Issues(), file); !sameStrings(got, exp) {
			c.Fail("parse and validate reports:\n%s\n\nexpected:\n%s", strings.Join(got, "\n"), strings.Join(exp, "\n"))
		}
		isErr := false
		for _, x := range v.Issues() {
			isErr = isErr || x.Severity() == issue.SeverityError
		}
		if res.Error() != isErr {
			c.Fail("the result has error=%v, but there are errors=%v", res.Error(), isErr)
		}
		c.Count("parse and validate: issues")
	}
}

// perm is a random permutation
func (r *Rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func init() {
	register(&Prop{ID: "C24", Quick: 250000, Thorough: 8000000, Run: runC24,
		Rule: "distinct sources that have at least one violation according to the reference validator"})
	register(&Prop{ID: "C25", Quick: 60000, Thorough: 2000000, Run: runC25,
		Rule: "distinct sources with at least one issue that is subject to the strictness"})
	register(&Prop{ID: "C26", Quick: 150000, Thorough: 5000000, Run: runC26,
		Rule: "distinct sources that contain a catalog or workflow construct"})
}
