MON = "runtime monitoring: differential monitor of the AST of generated programs against their constructed AST"
for i in "C08 C09 C10 C11 C12 C13 C14".split():
    c(i, MON, GEN)
c("C04", "runtime monitoring: differential monitor of the AST of enumerated and random operator sequences against a precedence oracle, and of generated programs", GEN)
c("C05", "runtime monitoring: differential monitor of literal values against arbitrary precision arithmetic, and of generated programs", GEN)
c("C06", "runtime monitoring: differential monitor of string values against an independent decoder, and of generated programs", GEN)
c("C07", "runtime monitoring: metamorphic monitor (an interpolated expression against the same expression by itself), and of generated programs", GEN)
for i in "C15 C16".split():
    c(i, "runtime monitoring: metamorphic monitor (the same program written differently, or parsed with other options, must give the same AST or issue)", "Generated and mutated programs; see DESIGN.md")
c("C01", "runtime monitoring: crash, hang and result oracle over generated, mutated, truncated, random and deeply nested sources", "Sampling; see DESIGN.md")
c("C02", "runtime monitoring: counters of executed basic blocks and allocated bytes against a bound, over growing constructs, pumped programs and hostile sources", "Sampling; the bound has a margin of about three over what is measured")
c("C03", "runtime monitoring: all consumers run over the ASTs of accepted hostile and generated sources, with an oracle for locations and messages", "Sampling; see DESIGN.md")
for i in "C17 C19".split():
    c(i, "runtime monitoring: monitor of the nodes of generated programs against independently calculated locations and visits", GEN)
c("C20", "runtime monitoring: differential monitor of a reused parser against new parsers over histories of valid and invalid sources", "Sampling; see DESIGN.md")
c("C27", "runtime monitoring: differential monitor against a reference conversion of the constructed AST", GEN)
c("C22", "runtime monitoring: differential monitor of PN text, JSON and data against an independent model of PN, and its readers", "Sampling; see DESIGN.md")
c("C23", "runtime monitoring: differential monitor of the PN of each AST against a reference conversion", GEN)
c("C24", "runtime monitoring: differential monitor of the reported issues against a reference validator", "Sources that are generated for the rules of the validator, generated programs, and accepted hostile sources")
c("C25", "runtime monitoring: the same AST is validated with each strictness, in varying order and by reused validators, and monitored for changes", "Sampling; see DESIGN.md")
c("C26", "runtime monitoring: differential monitor of the issues of all three validators against a reference validator", "Sources that are generated for the rules of the validator, generated programs, and accepted hostile sources")
c("C21", "runtime monitoring: race detector, and a differential monitor of concurrent results against sequential ones, with varied schedules", "Interleavings are sampled; the race detector reports every unsynchronised pair of accesses that it observes, also when the results are right")
c("C28", "runtime monitoring: differential monitor of exit code, output streams and files of the real program against the library", "Sources are generated, validation-violating, or hostile; flags in every combination, order and form")
c("C18", "runtime monitoring: oracle for the issue of malformed sources (a table of malformed constructs in generated contexts, invalid tokens and brackets in generated programs), and accounting of the tokens of accepted sources", "Sampling; columns are only checked to be in range")
c("C29", "runtime monitoring: differential monitor of acceptance and AST against an independently written reference parser, over randomly changed programs", "Sampling; texts nested deeper than 4000 levels are unspecified")
c("C30", "runtime monitoring: monitor of the methods of each node against the expected AST", GEN)
c("C31", "runtime monitoring: differential monitor of the stand-alone lexer against an independently written reference lexer", "Sampling; see DESIGN.md")
c("C32", "runtime monitoring: counters of executed basic blocks and allocated bytes against a bound, while the ASTs of growing constructs and of generated, pumped and hostile programs are used", "Sampling; the bound has a margin of at least four over what is measured")
c("C33", "runtime monitoring: validators of the harness monitor what they are given (expression, container, path) against the AST, and their reports against the issues they accepted", GEN)
c("C34", "runtime monitoring: differential monitor of ASTs built by the expression factory against the parsed ASTs whose parts were used, and of histories of reader operations against a model", GEN)
