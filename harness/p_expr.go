package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// --- C04. Operators ---

type binop struct {
	s     string
	level int
}

// All binary operators, lowest precedence first
var binops = []binop{
	{"->", lvRel}, {"~>", lvRel}, {"<-", lvRel}, {"<~", lvRel},
	{"=", lvAssign}, {"+=", lvAssign}, {"-=", lvAssign},
	{"or", lvOr}, {"and", lvAnd},
	{"<", lvComp}, {"<=", lvComp}, {">", lvComp}, {">=", lvComp},
	{"==", lvEq}, {"!=", lvEq},
	{"<<", lvShift}, {">>", lvShift},
	{"+", lvAdd}, {"-", lvAdd},
	{"*", lvMul}, {"/", lvMul}, {"%", lvMul},
	{"=~", lvMatch}, {"!~", lvMatch},
	{"in", lvIn},
}

func mkBin(op binop, l, r *T) *T {
	n := &T{K: binKind(op.level), F: fields(one("lhs", l), one("rhs", r)), NoLoc: true}
	switch n.K {
	case "Or", "And", "In":
	default:
		n.A = attrs(str("op", op.s))
	}
	return n
}

// precedence builds the tree of a flat sequence by repeatedly reducing the operator that binds hardest
func precedence(operands []*T, ops []binop) *T {
	operands = append([]*T{}, operands...)
	ops = append([]binop{}, ops...)
	for len(ops) > 0 {
		best := 0
		for i, o := range ops {
			if o.level > ops[best].level || o.level == ops[best].level && o.level == lvAssign {
				best = i // assignment is right associative
			}
		}
		operands[best] = mkBin(ops[best], operands[best], operands[best+1])
		operands = append(operands[:best+1], operands[best+2:]...)
		ops = append(ops[:best], ops[best+1:]...)
	}
	return operands[0]
}

func mkVar(name string) *T {
	return &T{K: "Variable", F: fields(one("expr", &T{K: "Name", A: attrs(str("name", name))}))}
}

// opOperand creates an operand that is perhaps preceded by unary operators. It returns the source and the tree
func opOperand(r *Rng, name string, unary int) (string, *T) {
	s, t := "$"+name, mkVar(name)
	switch unary {
	case 0:
		return s, t
	case 1:
		return "!" + s, &T{K: "Not", F: fields(one("expr", t))}
	case 2:
		return "-" + s, &T{K: "Minus", F: fields(one("expr", t))}
	case 3:
		return "*" + s, &T{K: "Unfold", F: fields(one("expr", t))}
	case 4:
		return "! !" + s, &T{K: "Not", F: fields(one("expr", &T{K: "Not", F: fields(one("expr", t))}))}
	case 5:
		return "!-" + s, &T{K: "Not", F: fields(one("expr", &T{K: "Minus", F: fields(one("expr", t))}))}
	case 6:
		return s + "[1]", &T{K: "Access", F: fields(one("operand", t), many("keys", []*T{{K: "Integer", A: attrs(num("value", 1), num("radix", 10))}}))}
	default:
		return "(" + s + ")", &T{K: "Paren", F: fields(one("expr", t))}
	}
}

// opContext embeds an expression. Returns the source and a function that extracts the expression from the AST of the program
type opContext struct {
	name     string
	pre, suf string
	level    int // lowest level permitted in the context
	get      func(p *T) *T
}

func stmt(p *T, i int) *T { return p.One("body").Many("statements")[i] }

var opContexts = []opContext{
	{"statement", "", "", lvRel, func(p *T) *T { return stmt(p, 0) }},
	{"parenthesis", "$q + (", ")", lvRel, func(p *T) *T { return stmt(p, 0).One("rhs").One("expr") }},
	{"argument", "f(1, ", ", 2)", lvRel, func(p *T) *T { return stmt(p, 0).Many("args")[1] }},
	{"method argument", "$q.m(", ")", lvRel, func(p *T) *T { return stmt(p, 0).Many("args")[0] }},
	{"statement call", "notice ", "", lvRel, func(p *T) *T { return stmt(p, 0).Many("args")[0] }},
	{"list", "[1, ", "]", lvRel, func(p *T) *T { return stmt(p, 0).Many("elements")[1] }},
	{"hash value", "$q = {a => ", ", b => 1}", lvRel, func(p *T) *T { return stmt(p, 0).One("rhs").Many("entries")[0].One("value") }},
	{"hash key", "$q = {", " => 3}", lvRel, func(p *T) *T { return stmt(p, 0).One("rhs").Many("entries")[0].One("key") }},
	{"access key", "$q[", "]", lvRel, func(p *T) *T { return stmt(p, 0).Many("keys")[0] }},
	{"interpolation", `"a${`, `}b"`, lvRel, func(p *T) *T { return stmt(p, 0).Many("segments")[1].One("expr") }},
	{"block of if", "if 1 { ", " }", lvRel, func(p *T) *T { return stmt(p, 0).One("then").Many("statements")[0] }},
	{"lambda body", "f() |$x| { ", " }", lvRel, func(p *T) *T { return stmt(p, 0).One("lambda").One("body").Many("statements")[0] }},
	{"if condition", "if ", " { 1 }", lvOr, func(p *T) *T { return stmt(p, 0).One("test") }},
	{"unless condition", "unless ", " { 1 }", lvOr, func(p *T) *T { return stmt(p, 0).One("test") }},
	{"second statement", "$z; ", "\n$y", lvRel, func(p *T) *T { return stmt(p, 1) }},
	{"title", "file { ", ": }", lvOr, func(p *T) *T { return stmt(p, 0).Many("bodies")[0].One("title") }},
	{"attribute value", "file { 'x': a => ", ", }", lvOr, func(p *T) *T { return stmt(p, 0).Many("bodies")[0].Many("ops")[0].One("value") }},
	{"parameter default", "class a($p = ", ") {}", lvOr, func(p *T) *T { return stmt(p, 0).Many("params")[0].One("value") }},
	{"case test", "case ", " { 1: {} }", lvOr, func(p *T) *T { return stmt(p, 0).One("test") }},
	{"selector value", "$q ? { 1 => ", " }", lvOr, func(p *T) *T { return stmt(p, 0).Many("selectors")[0].One("value") }},
}

func (c *Case) checkOps(ops []binop, unaries []int, ctx opContext, sep string) {
	names := []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"}
	var operands []*T
	b := &strings.Builder{}
	for i := 0; i <= len(ops); i++ {
		s, t := opOperand(c.R, names[i%len(names)], unaries[i])
		operands = append(operands, t)
		b.WriteString(s)
		if i < len(ops) {
			b.WriteString(sep + ops[i].s + sep)
		}
	}
	exp := precedence(operands, ops)
	src := ctx.pre + b.String() + ctx.suf
	c.Src = src
	c.Info = []string{ctx.name}
	e, err := parser.CreateParser().Parse("f.pp", src, false)
	if err != nil {
		c.Fail("valid expression is rejected: %s", err)
	}
	var act *T
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Fail("%s isn't parsed into the expected form:\n%s", ctx.name, Dump(e))
			}
		}()
		act = ctx.get(Dump(e))
	}()
	if d := Diff(exp, act); d != "" {
		c.Fail("wrong tree: %s\nexpected\n%sactual\n%s", d, exp, act)
	}
	c.Seen(src)
	c.Count("context " + ctx.name)
	c.Max("operators", len(ops))
}

// The sequences of up to three operators are enumerated, in chunks
const opChunk = 64

func opSeqCount(tier string) int {
	n := len(binops)
	cnt := n + n*n + n*n*n
	if tier == "thorough" {
		cnt += n * n * n * n
	}
	return cnt
}

func opSeq(i int) []binop {
	n := len(binops)
	l := 1
	for c := n; i >= c; c *= n {
		i -= c
		l++
	}
	ops := make([]binop, l)
	for k := range ops {
		ops[k] = binops[i%n]
		i /= n
	}
	return ops
}

func runC04(c *Case) {
	total := opSeqCount(c.Tier)
	if chunks := (total + opChunk - 1) / opChunk; c.Idx < chunks {
		for i := c.Idx * opChunk; i < (c.Idx+1)*opChunk && i < total; i++ {
			ops := opSeq(i)
			c.checkOps(ops, make([]int, len(ops)+1), opContexts[0], " ")
			un := make([]int, len(ops)+1)
			for k := range un {
				un[k] = c.R.N(8)
			}
			un[0] = []int{0, 1, 2, 6, 7, 5}[un[0]%6]
			c.checkOps(ops, un, opContexts[0], " ")
			c.Count("enumerated operator sequences")
		}
		return
	}
	if c.R.P(50) {
		for i := 0; i < 4; i++ {
			ctx := opContexts[c.R.N(len(opContexts))]
			n := 1 + c.R.N(6)
			if c.R.P(3) {
				n = 1 + c.R.N(60)
			}
			var ops []binop
			var un []int
			for k := 0; k <= n; k++ {
				o := binops[c.R.N(len(binops))]
				for o.level < ctx.level {
					o = binops[c.R.N(len(binops))]
				}
				if k < n {
					ops = append(ops, o)
				}
				u := 0
				if c.R.P(30) {
					u = c.R.N(8)
				}
				if k == 0 && (u == 3 || u == 7 || u == 2 && ctx.name == "statement call") {
					u = 1 // otherwise the name and the operator would be a binary expression
				}
				un = append(un, u)
			}
			sep := " "
			if c.R.P(20) {
				sep = "\n  "
			}
			c.checkOps(ops, un, ctx, sep)
		}
		return
	}
	structuralC04(c)
}

var structuralC04 = structural("ops", hasKind("Arithmetic", "Comparison", "Match", "And", "Or", "In", "Relationship", "Assignment", "Selector", "Not", "Minus", "Unfold"))

// --- C05. Literals ---

// randomNumber returns the source of a number, its expected node, or nil if it must be rejected
func randomNumber(r *Rng) (string, *T) {
	neg := ""
	switch r.N(6) {
	case 0, 1:
		neg = "-"
	case 2:
		neg = "+"
	}
	integer := func(digits string, radix int) *T {
		v, ok := new(big.Int).SetString(digits, radix)
		if !ok {
			panic("bad number " + digits)
		}
		if neg == "-" {
			v.Neg(v)
		}
		if !v.IsInt64() {
			return nil
		}
		return &T{K: "Integer", A: attrs(num("value", v.Int64()), num("radix", int64(radix)))}
	}
	digs := func(alphabet string, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[r.N(len(alphabet))]
		}
		return string(b)
	}
	near := func() *big.Int {
		v := new(big.Int).Lsh(big.NewInt(1), uint([]int{63, 63, 63, 64, 62, 32, 31, 53, 65, 100}[r.N(10)]))
		return v.Add(v, big.NewInt(int64(r.N(5)-2)))
	}
	switch r.N(9) {
	case 0:
		d := near().Text(10)
		return neg + d, integer(d, 10)
	case 1:
		d := near().Text(16)
		if r.P(50) {
			d = strings.ToUpper(d)
		}
		d = strings.Repeat("0", r.N(3)) + d
		return neg + r.Pick([]string{"0x", "0X"}) + d, integer(d, 16)
	case 2:
		d := strings.Repeat("0", r.N(3)) + near().Text(8)
		return neg + "0" + d, integer(d, 8)
	case 3:
		d := digs("123456789", 1) + digs("0123456789", r.N(18))
		return neg + d, integer(d, 10)
	case 4:
		d := digs("0123456789abcdefABCDEF", 1+r.N(17))
		return neg + r.Pick([]string{"0x", "0X"}) + d, integer(d, 16)
	case 5:
		d := digs("01234567", 1+r.N(22))
		return neg + "0" + d, integer(d, 8)
	case 6:
		return neg + "0", integer("0", 10)
	default:
		ip := digs("123456789", 1) + digs("0123456789", r.N(20))
		if r.P(30) {
			ip = "0"
		}
		s := ip
		if r.P(70) {
			s += "." + digs("0123456789", 1+r.N(22))
		}
		if s == ip || r.P(40) {
			s += r.Pick([]string{"e", "E"}) + r.Pick([]string{"", "+", "-"})
			switch r.N(4) {
			case 0:
				s += digs("0123456789", 1)
			case 1:
				s += fmt.Sprint(300 + r.N(30))
			default:
				s += fmt.Sprint(r.N(400))
			}
		}
		rat, ok := new(big.Rat).SetString(s)
		if !ok {
			panic("bad float " + s)
		}
		f, _ := rat.Float64()
		if math.IsInf(f, 0) {
			return neg + s, nil
		}
		if neg == "-" {
			f = -f
		}
		return neg + s, &T{K: "Float", A: attrs(Attr{"value", f})}
	}
}

// Text that looks like a number but isn't
var badNumbers = []string{"08", "09", "0x", "0xg", "0X", "0xG1", "1a", "1_000", "12abc", "1e", "1e+", "1.e1", "1.5e", "1.5e-", "0b101", "1.x", "0xABx", "01e5",
	"1.5x", "1.5_", "0x1_", "017_", "018", "1..2", "1é", "0é", "0.é", "0xé", "1.5é", "5_", "1.", "0.", "1.5e+x", "0x1g", "00x1", "9223372036854775808", "-9223372036854775809",
	"0x8000000000000000", "01000000000000000000000", "1e309", "-1e309", "1.8e308", "99999999999999999999", "0xffffffffffffffff", "-0x8000000000000001", "+9223372036854775808"}

type litContext struct {
	pre, suf string
	get      func(p *T) *T
	noSign   bool
}

var litContexts = []litContext{
	{"$x = ", "", func(p *T) *T { return stmt(p, 0).One("rhs") }, false},
	{"$x=", "", func(p *T) *T { return stmt(p, 0).One("rhs") }, false},
	{"[", "]", func(p *T) *T { return stmt(p, 0).Many("elements")[0] }, false},
	{"f(", ",1)", func(p *T) *T { return stmt(p, 0).Many("args")[0] }, false},
	{"$x=(", ")", func(p *T) *T { return stmt(p, 0).One("rhs").One("expr") }, false},
	{"$y = {a=>", "}", func(p *T) *T { return stmt(p, 0).One("rhs").Many("entries")[0].One("value") }, false},
	{"$y = {", "=>1}", func(p *T) *T { return stmt(p, 0).One("rhs").Many("entries")[0].One("key") }, false},
	{"case ", "{1:{}}", func(p *T) *T { return stmt(p, 0).One("test") }, false},
	{"$x * ", "", func(p *T) *T { return stmt(p, 0).One("rhs") }, false},
	{"$x == ", "+1", func(p *T) *T { return stmt(p, 0).One("rhs").One("lhs") }, false},
	{"$x == ", " - 1", func(p *T) *T { return stmt(p, 0).One("rhs").One("lhs") }, false},
	{"$x -", "", func(p *T) *T { return stmt(p, 0).One("rhs") }, true},
	{"$x+", "", func(p *T) *T { return stmt(p, 0).One("rhs") }, true},
	{"$x = [1,", "\n]", func(p *T) *T { return stmt(p, 0).One("rhs").Many("elements")[1] }, false},
	{"$x = ", "/*c*/", func(p *T) *T { return stmt(p, 0).One("rhs") }, false},
	{"$x = ", "#c", func(p *T) *T { return stmt(p, 0).One("rhs") }, false},
	{"\"${[", "]}\"", func(p *T) *T { return stmt(p, 0).Many("segments")[0].One("expr").Many("elements")[0] }, false},
	{"file{x:a=>", "}", func(p *T) *T { return stmt(p, 0).Many("bodies")[0].Many("ops")[0].One("value") }, false},
}

func (c *Case) checkLiteral(ctx litContext, s string, exp *T) {
	src := ctx.pre + s + ctx.suf
	c.Src = src
	e, err := parser.CreateParser().Parse("f.pp", src, false)
	if exp == nil {
		if err == nil {
			c.Fail("%s is not a valid number, or a number out of range, but it is accepted as\n%s", s, Dump(e))
		}
		c.Count("rejected number")
		c.Seen(src)
		return
	}
	if err != nil {
		c.Fail("valid literal %s is rejected: %s", s, err)
	}
	var act *T
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Fail("not parsed into the expected form:\n%s", Dump(e))
			}
		}()
		act = ctx.get(Dump(e))
	}()
	if d := Diff(exp, act); d != "" {
		c.Fail("wrong value of %s: %s\n", s, d)
	}
	c.Count("literal " + exp.K)
	c.Seen(src)
}

func runC05(c *Case) {
	r := c.R
	if c.Idx < len(badNumbers)*len(litContexts) {
		ctx := litContexts[c.Idx%len(litContexts)]
		s := badNumbers[c.Idx/len(litContexts)]
		if ctx.noSign && (s[0] == '-' || s[0] == '+') {
			return
		}
		if strings.HasSuffix(s, ".") || strings.HasSuffix(s, "e") || strings.HasSuffix(s, "-") || strings.HasSuffix(s, "+") {
			// what follows could complete it
			ctx = litContexts[0]
		}
		c.checkLiteral(ctx, s, nil)
		return
	}
	if r.P(60) {
		for i := 0; i < 6; i++ {
			ctx := litContexts[r.N(len(litContexts))]
			s, t := randomNumber(r)
			if ctx.noSign && (s[0] == '-' || s[0] == '+') {
				s, t = "17", &T{K: "Integer", A: attrs(num("value", 17), num("radix", 10))}
			}
			c.checkLiteral(ctx, s, t)
		}
		return
	}
	structuralC05(c)
}

var structuralC05 = structural("literals", hasKind("Integer", "Float", "Boolean", "Undef", "Default", "Name", "TypeName", "Variable", "Regexp"))

func init() {
	register(&Prop{ID: "C04", Quick: 120000, Thorough: 3000000, Run: runC04,
		Rule: "all sequences of one to three binary operators (thorough: four) between variables, with and without unary operators; random longer sequences in 20 contexts; " +
			"the expected tree is computed from the operator table by reducing the hardest binding operator first. Also generated programs with many operators (" + genRule + "). Non-trivial: a distinct source with an operator",
		Assumptions: genAssumptions})
	register(&Prop{ID: "C05", Quick: 150000, Thorough: 6000000, Run: runC05,
		Rule:        "random numbers of each radix, concentrated at the limits of the ranges, in 18 contexts, compared with values computed by arbitrary precision arithmetic, or that must be rejected; " + genRule + "Non-trivial: a distinct source with a literal, name, variable or regular expression",
		Assumptions: genAssumptions})
}
