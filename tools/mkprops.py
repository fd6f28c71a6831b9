#!/usr/bin/env python3
"""Writes properties.jsonl. One call of P() per property."""
import json, os
out = []
def P(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

LEX, PAR, EXP, PNF, VAL = "parser/lexer.go", "parser/parser.go", "parser/expression.go", "pn/pn.go", "validator/checker.go"
API = "parser.CreateParser(options...).Parse(file, source, singleExpression)"

P("C01", "Parsing is total: an AST or a located issue, never a crash",
  "For every byte sequence of up to one megabyte given as source and every combination of parser options, parsing returns: either an AST and no error, or a reported issue and no AST. "
  "It never panics, exits, or recurses or loops without end, also when the source is truncated, mutated, random, deeply nested, or not valid UTF-8 (constructs that nest deeper than 10,000 levels are reported as an issue). "
  "A reported issue has a non-empty code and a completely formatted message, and its file is the given file, its line a line of the source and its column a column of that line (or one past its end); only source that cannot be read as UTF-8 may be reported without line and column.",
  ["inputs", "configurations"], "every source text of up to one megabyte (valid, malformed, truncated anywhere, mutated anywhere, arbitrary bytes) under every combination of the five parser options and both parse modes",
  "The tests parse about 250 hand written snippets, nearly all of them short, valid UTF-8, and either correct or wrong in one anticipated way; none of them is truncated, mutated or hostile.",
  [PAR, LEX, "parser/reader.go", "validator/validator.go"],
  [("recover of issue.Reported in Parse", "parser/parser.go Parse/parse"), ("panic of ParseError with a location", "parser/parser.go parseIssue, context.fail"), ("end of text handled as a zero rune", "parser/reader.go Next/Peek")],
  [API, "validator.ParserValidator.Parse"])
P("C02", "Parsing does a bounded amount of work",
  "The amount of work that the parser does, counted as executed basic blocks and allocated memory and not as time, is bounded by a fixed polynomial of low degree in the length of the source: nearly linear for ordinary manifests, and never exponential in nesting depth, in the number of interpolations, or in the number of heredocs. "
  "The bound holds for correct and for malformed source alike.",
  ["inputs"], "every source text; in particular families that repeat or nest one construct n times for growing n, closed and unclosed",
  "No test measures work, and the sources are too small for repeated or speculative parsing to be noticed.",
  [LEX, PAR, "parser/reader.go"],
  [("speculative parsing of a resource body", "parser/parser.go resource/resourceExpression"), ("look ahead for heredoc end and statement hash", "parser/lexer.go heredoc"), ("sub lexer for interpolation", "parser/lexer.go consumeDoubleQuotedString")],
  [API, "counters of the executed basic blocks, inserted by the build of the harness (go tool cover and an overlay)"])
P("C03", "Every consumer of a parsed AST is total and every message complete",
  "For every source of up to one megabyte that parses, each thing that the library offers to do with the AST completes without a panic: representing it as PN, as text and as data, asking each node for its label, source text and location, iterating it, converting it to a literal, and validating it with every validator at every strictness. "
  "Every reported issue has a message in which all arguments are filled in and no formatting artefact remains, at a location in the source.",
  ["inputs", "configurations"], "every AST that the parser can produce, every validator, every strictness",
  "The tests validate and print a few hundred small ASTs that each contain one feature; panics hide in unusual combinations (a numeric name, a list as hash key, a qualified parameter name) that no test contains.",
  [EXP, PNF, VAL, "validator/issues.go", "parser/label.go", "literal/literal.go"],
  [("ToPN of each node type", "parser/expression.go"), ("issue message templates with named arguments", "validator/issues.go, parser/issues.go"), ("Check type switch", "validator/checker.go")],
  ["Expression.ToPN/Label/String/Location", "validator.ValidatePuppet/ValidateTasks/ValidateWorkflow", "literal.ToLiteral"])
P("C04", "Operator precedence and associativity",
  "An expression made of operators and operands is parsed into the tree that Puppet's operator table prescribes: unary operators, 'in', match, multiplicative, additive, shift, equality, relational, 'and', 'or', selector '?', assignment and relationship arrows in their order of precedence, each with its associativity, and with parentheses overriding it. "
  "All operands and operators of the source occur in the tree, exactly once and in source order.",
  ["inputs"], "every operand and operator sequence of any length and nesting, in every context where an expression can occur",
  "There are some 60 binary operators pairs per nesting level and the tests combine only a few adjacent precedence levels.",
  [PAR], [("one method per precedence level", "parser/parser.go assignment..unfold")], [API])
P("C05", "Literals, names and variables denote exactly what is written",
  "Each integer (decimal, octal, hexadecimal, with sign), float, boolean, undef, default, name, type name, variable (named, qualified, numeric) and regular expression in the source gives a node of the corresponding kind that carries precisely the value, radix and text written. "
  "A number is either represented exactly (or, for a float, as the nearest double) or the source is rejected; it is never wrapped, clamped or truncated.",
  ["inputs"], "every lexically valid literal, name and variable, including extreme values, adjacent to any legal neighbour",
  "The tests use about 30 literals, and none at the limits of the number range or glued to an operator.",
  [LEX, PAR], [("nextToken and consumeNumber", "parser/lexer.go"), ("factory calls in atomExpression", "parser/parser.go")], [API])
P("C06", "String escapes decode exactly",
  "The value of a single quoted, double quoted or (when enabled) backtick quoted string is the sequence of characters between its quotes with exactly the escapes of that kind of string decoded: all other characters, including multibyte characters, line breaks, and backslashes in front of characters that are not escapable, are retained as they are. "
  "Hexadecimal escapes are decoded only when that option is enabled, and a unicode or hexadecimal escape with wrong digits is rejected (the value of an escape for a code point that doesn't exist is unspecified).",
  ["inputs", "configurations"], "every string content in each kind of quotes, with each combination of the backtick and hex escape options",
  "The tests try each escape once, alone in an ASCII string; not the sequences of escapes, quotes and backslashes that interact.",
  [LEX], [("consumeSingleQuotedString, consumeDoubleQuotedString, consumeBacktickedString", "parser/lexer.go")], [API])
P("C07", "Interpolation embeds exactly the written expressions",
  "A double quoted string (or escaped heredoc) with interpolations becomes the sequence of its literal text parts and its embedded expressions in the order written, where '${...}' embeds the same AST that its content would give when parsed as an expression on its own, with a leading name taken as a variable (also when it is accessed or receives a method call), and '$name' embeds the variable with the longest valid name. "
  "An escaped '$' is literal text, a '$' that starts no interpolation and isn't escaped is rejected, and quotes and braces inside an embedded expression don't end it.",
  ["inputs"], "every sequence of text parts, escapes and embedded expressions of any nesting",
  "The tests embed about 20 expressions, none with nested strings, braces, and interpolations combined, or in the middle of multibyte text.",
  [LEX, PAR], [("sub parse of interpolation and transformation of names to variables", "parser/lexer.go consumeDQText, consumeInterpolation; parser/parser.go")], [API])
P("C08", "Heredoc text is extracted exactly",
  "The text of a heredoc is exactly the lines between the line of its tag and its end marker, with the margin, the last line break, and the escapes enabled by its flags treated as the heredoc declaration says (no flags: no escapes), and interpolated only when the tag is quoted; its syntax is retained. "
  "The source that follows the tag on its line, also when it holds more heredocs, and the source that follows the end marker, is parsed as if the heredoc lines weren't there.",
  ["inputs"], "every heredoc declaration (tag, syntax, flags, quoting, margin, suppression of line break), every body, any number of heredocs on one line, any source around it",
  "The tests have about 25 heredocs, at most two on a line, with ASCII bodies of a few lines that all have the same indent.",
  [LEX], [("heredoc and consumeHeredocText", "parser/lexer.go")], [API],
  state=[("nextLineStart", "position where the source continues after pending heredoc text", "parser/lexer.go")])
P("C09", "Calls, lambdas, access and blocks nest as written",
  "Function calls with parentheses, statement calls without parentheses (for the known statement functions), method calls, chained calls and accesses, lambdas with their parameters, return type and body, lists, hashes and sequences of statements are parsed into the nodes written, with all arguments, elements and statements once and in order. "
  "A call records that its value is required exactly when it isn't a statement of a block.",
  ["inputs"], "every nesting of calls, lambdas, accesses, collections and statement sequences",
  "The tests have each form by itself with one or two arguments; long sequences, optional trailing commas and forms that follow each other aren't combined.",
  [PAR], [("transformCalls, atomExpression, arguments, lambda, syntacticStatements", "parser/parser.go")], [API])
P("C10", "Control flow parses into the branches written",
  "Each if (with any number of elsif and an optional else), unless, case and selector is parsed into its condition and its branches in the order written, each branch with exactly its statements; 'elsif' nests as an if in the else branch, and an absent branch is empty. "
  "Options of a case and entries of a selector retain all of their values, default included, in order.",
  ["inputs"], "every nesting and length of conditional expressions, used as statements and as values",
  "The tests have each form with at most two branches.",
  [PAR], [("ifExpression, unlessExpression, caseExpression, selector expressions", "parser/parser.go")], [API])
P("C11", "Resources, collectors and relationships parse as written",
  "A resource expression (regular, virtual or exported), resource defaults, a resource override and a collector (with virtual or exported query and optional overrides) is parsed into the form, type, titles, attribute operations ('=>', '+>', '* =>') and queries written, each exactly once and in order, and capability mappings and relationship chains likewise. "
  "Keywords are accepted as attribute names, and the form isn't lost by any nesting.",
  ["inputs"], "every resource-like expression with any number of bodies and attributes, in any context",
  "The tests have one or two bodies and attributes for each form and nearly no combination of forms.",
  [PAR], [("resource, resourceBodies, attributeOperations, collect, capabilityMapping", "parser/parser.go")], [API])
P("C12", "Definitions: structure, qualified names, and a complete list",
  "Each class, define, function, plan, node, site, application, type alias, type definition and type mapping is parsed into a node with the name, parameters (type, default, captures-rest), parent, return type and body written, where the name of a class, plan or workflow is qualified by the definitions that enclose it. "
  "The program's list of definitions contains every definition that is in the AST exactly once and nothing else (the activities directly in the body of a workflow belong to that workflow and aren't listed separately).",
  ["inputs"], "every combination and nesting of definitions that the grammar allows",
  "The tests define one thing at a time; nested classes and the list of definitions are covered by a handful of cases.",
  [PAR, EXP], [("name stack and addDefinition", "parser/parser.go"), ("Program.Definitions", "parser/expression.go")], [API, "Program.Definitions()"],
  state=[("nameStack", "names of enclosing classes", "parser/parser.go context"), ("definitions", "definitions found so far", "parser/parser.go context")])
P("C13", "Workflow steps parse as written",
  "With workflows enabled, each workflow, action, resource and state handler step, nested to any depth, is parsed into a step with its qualified name, style, properties (parameters, returns, type, state, iteration over each, times, range) and definition as written, and with the variables, calls and interpolations of a resource state turned into deferred references to the same variables and calls with the same arguments. "
  "A step that isn't an activity directly in the body of a workflow is listed as a definition.",
  ["inputs"], "every nesting and order of steps and step properties",
  "The tests contain less than ten workflows, with one order of properties.",
  [PAR, "parser/workflow.go"], [("stepExpression and friends", "parser/parser.go"), ("convertToDeferred", "parser/parser.go")], [API])
P("C14", "EPP templates render exactly their text",
  "A template is parsed into the sequence of its text parts and tags in order: text reaches the AST character by character except for what the template language removes ('<%-' and '-%>' trimming, '<%#' comments, '<%%' and '%%>' escapes), '<%=' renders its expression, and '<%' executes its statements, also when a statement spans several tags. "
  "Parameters are taken from a leading '| |' and the template records whether they were specified.",
  ["inputs"], "every sequence of text and tags, with any whitespace around the tags",
  "The tests contain some 20 templates of at most three tags.",
  [LEX, PAR], [("consumeEPP", "parser/lexer.go"), ("parseEpp", "parser/parser.go")], [API + " with PARSER_EPP_MODE"])
P("C15", "Whitespace, line breaks and comments don't change the AST",
  "Replacing the space between two tokens by any other non-empty space (spaces, tabs, LF or CRLF line breaks, '#' and '/* */' comments) that doesn't join or split tokens, and doesn't change whether there is a line break where Puppet's grammar depends on one, gives the same AST except for locations. "
  "Neither leading or trailing space nor a comment at the end without a line break matters.",
  ["inputs"], "every source and every choice of space between its tokens",
  "Nearly all tests use single spaces and LF, and few have a comment; the choices multiply with the number of tokens.",
  [LEX], [("skipWhite", "parser/lexer.go")], [API])
P("C16", "Options only affect what they enable",
  "A source that doesn't use the feature enabled by an option (backtick strings, hex escapes, tasks, workflows) gives the same AST, or the same issue at the same location, with and without that option; and without the option the words and characters of the feature keep the meaning they have in plain Puppet. "
  "A single expression parses to the same AST as it does when it's the only statement of a program. The order and repetition of options don't matter, and the parser for specs is one with backtick strings and hex escapes.",
  ["inputs", "configurations"], "every source under every pair of option sets",
  "The tests choose one set of options per test and never compare two.",
  [PAR, LEX], [("option flags of the context", "parser/parser.go CreateParser"), ("keywords per option", "parser/lexer.go")], [API])
P("C17", "Locations point at the construct",
  "The offset, line and column of each node (and of each definition) are those of the first character of the construct that it represents, in characters for the column and in bytes for the offset, also after multibyte characters, CRLF, heredocs, comments, interpolations and EPP text. "
  "A node's source text starts with the construct, covers it, and lies within the source.",
  ["inputs"], "every node of every AST, for every layout of the source",
  "The tests check the location of a handful of error messages, all in short ASCII sources.",
  [EXP, LEX, PAR], [("Locator and line index", "parser/expression.go"), ("offsets given to the factory", "parser/parser.go")], ["Expression.ByteOffset/ByteLength/Line/Pos/String"])
P("C18", "Malformed source is rejected with the right issue at the right line",
  "A source that violates the grammar is rejected: no token is skipped, ignored or invented in order to accept it. "
  "The issue that is reported is the one that describes the violation, with the arguments that identify it, and on the line of the offending token, irrespective of what valid source precedes, follows and encloses it. "
  "A NUL or invalid UTF-8 anywhere is rejected, with exactly its place.",
  ["inputs"], "every kind of grammar violation, placed at any position in any otherwise valid source",
  "The tests have about 50 rejected snippets, each alone, and most compare the column of a one line source.",
  [PAR, LEX, "parser/issues.go"], [("parseIssue calls", "parser/parser.go"), ("lexer fail calls", "parser/lexer.go")], [API])
P("C19", "Visitors reach every node exactly once with its ancestors",
  "Iterating all contents of an AST visits every node that it contains exactly once, ancestors before descendants, and iterating the contents of a node visits precisely its direct children. Siblings are visited in the order they are written (the return type of a lambda follows its body, and the parent of a node definition comes first), each with all that it contains before the next. "
  "The path given to the visitor consists of precisely the node's ancestors starting with the root, followed by nothing else.",
  ["inputs"], "every AST that the parser can produce, every node as root",
  "No test iterates an AST and compares the visits; a forgotten child or a shared path array shows only in the node types or depth where it happens.",
  [EXP, "parser/workflow.go"], [("DeepVisit, ShallowVisit, AllContents, Contents", "parser/expression.go")], ["Expression.AllContents", "Expression.Contents"])
P("C20", "Parsers are reusable and deterministic",
  "A parser that is used for any sequence of sources, of which any may be rejected at any point, gives for each of them the same AST, locations and issue as a new parser does. "
  "Parsing, printing and validating the same source repeatedly gives the same result, and leaves results returned earlier unchanged.",
  ["histories"], "every sequence of parse calls on one parser, with failures at every position of the source",
  "Every test creates a new parser for each source.",
  [PAR, LEX], [("reset of context state in Parse", "parser/parser.go Parse")], [API],
  state=[("context", "lexer position, pending heredocs, name stack, definitions, mode flags", "parser/parser.go")])
P("C21", "Separate parsers and shared ASTs are safe to use concurrently",
  "Parsers used by different goroutines at the same time, and any number of goroutines that read, print, validate, locate and iterate the same AST, give the results that they give sequentially, without data races. ",
  ["schedules"], "every interleaving of goroutines that each have their own parser, and of goroutines that only read a shared AST",
  "No test uses more than one goroutine, and the tests aren't run with the race detector.",
  [EXP, PAR, VAL, PNF], [("lazy line index of the Locator", "parser/expression.go"), ("package level tables and buffers", "parser/lexer.go, pn/pn.go, validator/issues.go")], [API, "Expression methods", "validator"],
  state=[("Locator.lineIndex", "lazily created index of line offsets", "parser/expression.go")])
P("C22", "PN text, data and JSON are faithful and agree",
  "Every PN tree (calls, lists, maps, strings, integers, floats with up to 16 significant digits, booleans, nil), whether built through the API or obtained from an AST, is formatted as text that, read back by the rules of the notation, gives the same tree; its data form obeys the documented mapping and holds the same tree, and the JSON written for it is valid and denotes that data. "
  "Different trees never have the same text. A failure to write JSON isn't hidden.",
  ["inputs"], "every PN tree, with all names, characters, number ranges and nesting",
  "The tests print PN but never read it back, and only contain a few strings with special characters.",
  ["pn/pn.go", "pn/quote.go", "json/json.go", "json/json_1.6.go"], [("Format", "pn/pn.go"), ("ToData", "pn/pn.go"), ("DoubleQuote", "pn/quote.go")], ["PN.Format", "PN.ToData", "PN.String", "json.ToJson"])
P("C23", "The PN of an AST represents all of it",
  "The PN of each node follows the documented form for its kind, with each attribute and child of the node under its documented name or position, in source order, and with absent optional parts left out. "
  "Nothing that the source says is missing from it, and nothing else is in it.",
  ["inputs"], "every AST that the parser can produce",
  "The tests compare PN for small sources only; node types with optional parts are covered for one combination of those parts.",
  [EXP, "parser/workflow.go"], [("ToPN of each node type", "parser/expression.go")], ["Expression.ToPN"])
P("C24", "The Puppet validator reports exactly the violations that exist",
  "Validating an AST reports each violation of Puppet's semantic rules (invalid assignments, duplicate parameters and keys, idem expressions, misplaced definitions, illegal names and reserved words, illegal queries, invalid resource forms, misused unfold, numeric names, illegal parameters and so on) with its issue code, arguments, and location, as often as it occurs and in any context, and reports nothing for an AST without violations.",
  ["inputs"], "every AST, with any number of violations at any depth",
  "The tests have one snippet per rule, with the violation at top level and alone.",
  [VAL, "validator/issues.go"], [("check_X methods", "validator/checker.go")], ["validator.ValidatePuppet"])
P("C25", "Strictness only changes severity; validation is pure",
  "The strictness given to a validation changes the severity of precisely the issues that are subject to it (off removes them, warning and error set their severity) and no other issue. "
  "The names of the strictnesses (off, warning, error), in any letter case, denote them, and no other name is accepted. "
  "Validation neither changes the AST nor depends on earlier validations, and the combined parse-and-validate entry point returns the AST with all of its issues, or no AST and the parse issue.",
  ["inputs", "configurations", "histories"], "every AST, every strictness, every order of validations",
  "The tests validate each snippet once with one strictness.",
  [VAL, "validator/validator.go"], [("severities set per issue code", "validator/checker.go initialize"), ("ParserValidator", "validator/validator.go")], ["validator.ValidatePuppet", "validator.ParserValidator.Parse"])
P("C26", "Tasks and workflow validators admit exactly their language",
  "The tasks validator and the workflow validator report each catalog construct (resource, resource defaults, override, collector, relationship, class, define, node, site, application, capability mapping) that an AST contains, once each, at any depth, and in place of the rules of the Puppet validator for that construct. "
  "Each workflow step is reported by the tasks validator and the Puppet validator, and not by the workflow validator. All three report everything that the Puppet validator does for the other constructs, with severity error for what is subject to strictness, and nothing for conforming source.",
  ["inputs"], "every AST, with allowed and disallowed constructs at any depth",
  "There is one test for each of these validators.",
  ["validator/tasks_checker.go", "validator/workflow_checker.go", "validator/validator.go"], [("methods that replace those of the embedded checker", "validator/tasks_checker.go, validator/workflow_checker.go")], ["validator.ValidateTasks", "validator.ValidateWorkflow"])
P("C27", "Literal conversion returns the value or refuses",
  "Converting an expression to a literal succeeds exactly when it consists only of literals, lists, hashes and strings whose segments are literal, and then gives the value written, with element order, key/value association and nesting retained. "
  "It never gives a partial value, and an expression that isn't literal is refused at any depth.",
  ["inputs"], "every expression",
  "The literal package has no tests.",
  ["literal/literal.go"], [("ToLiteral", "literal/literal.go")], ["literal.ToLiteral"])
P("C28", "The command line tool reports faithfully",
  "The parse command exits with success exactly when the file parses and validates without errors at the chosen strictness, and prints the PN of its AST (text or JSON) or all of its issues, one per issue with message and location (in JSON also with code and severity), on the stream meant for it; JSON output is a single valid document also for failures. "
  "The flags select the parser mode, strictness and output, and nothing else is written. An output that can't be written is a failure, and a command line that isn't understood gives the list of flags.",
  ["inputs", "configurations"], "every file and every combination of flags",
  "The command has no tests.",
  ["parse/parser.go", "json/json.go"], [("main", "parse/parser.go")], ["exit code, stdout and stderr of the parse command"])
P("C29", "Exactly the programs of the language are accepted, with their AST",
  "A text is accepted exactly when it is a program of the Puppet language (or an EPP template, or a single expression, under the options that are given), and the AST of each accepted text is the one that the language defines for it: "
  "every token of the text takes part in the AST, with its value, in its place, also where the text is unusual, differs from a valid program in one token or character, or combines constructs that are rarely combined. The definitions that are reported are those that the text contains, in order. None of this depends on how long the text is.",
  ["inputs", "configurations"], "every text, accepted or not, under every set of options",
  "The tests have some hundred accepted snippets and some eighty rejected ones; nothing tells which of the neighbours of a snippet are programs.",
  [PAR, LEX], [("the grammar", "parser/parser.go"), ("the tokens", "parser/lexer.go")], [API, "acceptance or rejection"])
P("C30", "Nodes describe themselves consistently with their source",
  "Each node of an AST has the label of its construct, is an instance of exactly the abstract kinds (binary, unary, boolean, query, call, definition, literal, number, named, resource form) that its construct has, and what it returns through those is the same as through its own accessors. "
  "Literals return the value written; a hash literal finds the entry of a key exactly when it has that key; variables know if they are indexed or named; copies with another name or functor differ in nothing else and leave the original as it was. A locator gives the line, column and text of every offset.",
  ["inputs"], "every node of every AST, every key, every offset",
  "The tests compare the AST through its PN, which uses few of these methods.",
  [EXP], [("interfaces and node types", "parser/expression.go"), ("Locator", "parser/expression.go")], ["methods of the nodes", "parser.Locator"])
P("C31", "The stand-alone lexer gives the tokens of the source",
  "The stand-alone lexer divides a source into the same tokens as the parser does: each token of the source is given once, in order, as the number of its kind, until the end, which then is repeated; only keywords are keywords; a string is one token, also when it has interpolations, and so is a heredoc, whose text is skipped where its line ends; text that isn't a token gives a lexical issue located in the source. "
  "Asserting the current token succeeds exactly when it has that number, and otherwise gives an issue that names the expected and the actual token at its line. After its position is set, it continues from there.",
  ["inputs"], "every source",
  "No test uses the stand-alone lexer.",
  [LEX], [("nextToken", "parser/lexer.go"), ("NewSimpleLexer", "parser/parser.go")], ["parser.NewSimpleLexer", "parser.Lexer"])
P("C32", "Using an AST takes work in proportion to its size",
  "Converting an AST to PN text, data or JSON, visiting its nodes with their paths, validating it, converting it to a literal value, and asking its nodes for label, line, column and source text, takes a number of executed basic blocks and an amount of allocated memory that is bounded by a small constant for each byte of the source, node of the AST and byte of the output. "
  "In particular it doesn't multiply with the depth of nesting, with the number of siblings, or with the number of lines, and repeated use costs no more than the first. The exceptions are that validation compares the keys of a hash by their PN, thus reading what is nested in each key, looks into a conditional statement for effects from each level that encloses it, and into the default value of a parameter for assignments from each default value that encloses it.",
  ["inputs"], "every AST, in particular those of long and deeply nested programs, and every use of it",
  "No test measures work, and the ASTs of the tests are too small for it to be noticed.",
  [EXP, "pn/pn.go", "json/json.go", "validator/checker.go", "literal/literal.go"], [("DeepVisit, ToPN, Locator", "parser/expression.go"), ("Format and ToData", "pn/pn.go"), ("Validate", "validator/validator.go")], ["counters of the executed basic blocks, and of allocated bytes", "the methods of the nodes", "validator.Validate*", "pn.PN", "literal.ToLiteral"])
P("C33", "Own validators can be built on the validation framework",
  "A validator that embeds AbstractValidator is given the validated expression and then each expression in it, once, in the order of visits; meanwhile, Container gives the expression that directly contains the given one (nothing for the validated expression), and ContainerOf that of each expression around it. "
  "Each issue that it accepts is reported, in that order, with the code, arguments and location that were given, and with the severity that the code was demoted to, else error; issues demoted to ignore aren't reported. Issues that can't be demoted and severities that don't exist are refused. "
  "A validation starts without issues, and leaves those that were returned before alone. A validator that delegates to one of the checkers reports what the checker does, and demoting an issue of a checker changes the severity of precisely that issue.",
  ["inputs", "configurations", "histories"], "every AST, every history of demotions and validations",
  "The tests only use the existing validators, and demote nothing.",
  ["validator/validator.go", VAL], [("AbstractValidator", "validator/validator.go"), ("Validate", "validator/validator.go"), ("Check", "validator/checker.go")], ["validator.Validate", "validator.AbstractValidator", "validator.Check"])
P("C34", "Own front ends: factory, own nodes, and reader give what they are given",
  "An AST that is built with the expression factory from given parts consists of exactly those: each node is of the kind asked for, with the given attributes and children in their order, at the given place of the given locator. It has, therefore, the PN, labels, source text, line, column, visits, definitions, and issues of all validators that the AST of a parsed source with the same parts has, and the parts remain as they were. "
  "A node of one's own type that embeds Positioned and visits its children with DeepVisit and ShallowVisit has the place it was initialised with, and takes part in visits and in validation, with its children in the given order and with paths that lead to it. "
  "The string reader gives the characters of any text one by one with their positions, and nothing at its end, however often it is asked; peeking doesn't move it, it continues from wherever it is set, and bytes that aren't UTF-8 are refused with an error that tells their position.",
  ["inputs", "histories"], "every AST, every text, every history of operations on a reader",
  "No test uses the factory, the reader, or a node type other than those of the parser.",
  ["parser/factory.go", EXP, "parser/reader.go"], [("ExpressionFactory", "parser/factory.go"), ("Positioned, DeepVisit, ShallowVisit", "parser/expression.go"), ("StringReader", "parser/reader.go")], ["parser.DefaultFactory", "parser.NewLocator", "parser.NewStringReader", "parser.Positioned"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in out:
        assert len(p["title"]) <= 80, p["id"]
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(out))
