package main

import "strings"

// The table of malformed constructs of C18. Each line consists of the places where the construct can be, the code of the issue,
// its arguments, and the source. '§' is in front of the offending token. '↵' stands for any white space.
//
// Places: s: where a statement can be, e: where an expression can be, t: at the top of the file only, z: like s, but the file ends
// there, x: like e, but the file ends there, E: the source is a template. w: needs workflows. p: needs plans. h: needs hex escapes,
// b: needs backtick strings.
const malformedTable = `
e¦LEX_UNEXPECTED_TOKEN¦token=,¦[1,↵§,2]
e¦LEX_UNEXPECTED_TOKEN¦token=,¦[↵§,]
e¦LEX_UNEXPECTED_TOKEN¦token=,¦[1,↵2,↵§,]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=integer literal¦[1↵§2]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=string literal¦[1,↵$x↵§'2']
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=}¦[1,↵2↵§}]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=)¦[[1],↵2↵§)
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=;¦[1↵§;2]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '}';actual=identifier¦{a => 1↵§b => 2}
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '}';actual=string literal¦{'a' => 1, b => 2↵§'c' => 2}
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '}';actual=]¦{'a' => 1↵§]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '}';actual=;¦{'a' => 1↵§; b => 2}
e¦PARSE_EXPECTED_FARROW_AFTER_KEY¦¦{a↵§1}
e¦PARSE_EXPECTED_FARROW_AFTER_KEY¦¦{a => 1, b↵§}
e¦PARSE_EXPECTED_FARROW_AFTER_KEY¦¦{'a'↵§,}
e¦PARSE_EXPECTED_FARROW_AFTER_KEY¦¦{1 => 2, 'a'↵§+> 1}
e¦PARSE_EXPECTED_FARROW_AFTER_KEY¦¦{[1]↵§= 1}
e¦LEX_UNEXPECTED_TOKEN¦token=}¦{a =>↵§}
e¦LEX_UNEXPECTED_TOKEN¦token=,¦{a =>↵§, b => 1}
e¦LEX_UNEXPECTED_TOKEN¦token=,¦{a => 1,↵§, b => 2}
e¦LEX_UNEXPECTED_TOKEN¦token==>¦{↵§=> 1}
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=integer literal¦f(1↵§2)
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=variable¦f($x↵§$y)
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=]¦f(1↵§]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=}¦f(1,↵2↵§}
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=;¦f(1,↵2↵§;)
e¦LEX_UNEXPECTED_TOKEN¦token=,¦f(1,↵§,)
e¦LEX_UNEXPECTED_TOKEN¦token=,¦f(↵§,1)
e¦LEX_UNEXPECTED_TOKEN¦token=,¦$x.f(↵§,1)
e¦LEX_UNEXPECTED_TOKEN¦token=]¦$x.f(↵§]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=integer literal¦$x.f(1,2↵§3)
e¦PARSE_EXPECTED_TOKEN¦expected=);actual=]¦(1↵§]
e¦PARSE_EXPECTED_TOKEN¦expected=);actual=integer literal¦(1↵§2)
e¦PARSE_EXPECTED_TOKEN¦expected=);actual=,¦(1↵§, 2)
e¦PARSE_EXPECTED_TOKEN¦expected=);actual=;¦($x = 1↵§; 2)
e¦LEX_UNEXPECTED_TOKEN¦token=)¦(↵§)
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=)¦$x[1↵§)
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=integer literal¦$x[1↵§2]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=identifier¦Foo[$a↵§b]
e¦LEX_UNEXPECTED_TOKEN¦token=,¦$x[↵§,]
e¦LEX_UNEXPECTED_TOKEN¦token=,¦Foo[1,↵§,2]
e¦LEX_UNEXPECTED_TOKEN¦token=)¦[$x =↵§)]
e¦LEX_UNEXPECTED_TOKEN¦token=%¦[1 +↵§% 2]
e¦LEX_UNEXPECTED_TOKEN¦token=}¦[1 *↵§}
e¦LEX_UNEXPECTED_TOKEN¦token===¦[$y ==↵§== 1]
e¦LEX_UNEXPECTED_TOKEN¦token=and¦[$y and↵§and 1]
e¦LEX_UNEXPECTED_TOKEN¦token=or¦[1,↵§or 1]
e¦LEX_UNEXPECTED_TOKEN¦token=in¦[1 in↵§in 1]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[1 in↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[!↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[-↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[*↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[$x =~↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[$x !~↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[$x <<↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[$x >=↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[$x.↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[$x ->↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=<-¦[$x ->↵§<- 1]
e¦LEX_UNEXPECTED_TOKEN¦token=?¦[↵§? 1]
e¦LEX_UNEXPECTED_TOKEN¦token=.¦[↵§.a]
e¦LEX_UNEXPECTED_TOKEN¦token=<¦[↵§< 1]
e¦LEX_UNEXPECTED_TOKEN¦token==¦[↵§= 1]
e¦LEX_UNEXPECTED_TOKEN¦token=;¦[↵§;]
e¦LEX_UNEXPECTED_TOKEN¦token=:¦[↵§: 1]
e¦LEX_UNEXPECTED_TOKEN¦token==>¦[↵§=> 1]
e¦LEX_UNEXPECTED_TOKEN¦token=->¦[↵§-> 1]
e¦LEX_UNEXPECTED_TOKEN¦token=+¦[1,↵§+ 5]
e¦LEX_UNEXPECTED_TOKEN¦token=else¦[1,↵§else {}]
e¦LEX_UNEXPECTED_TOKEN¦token=elsif¦[1,↵§elsif {}]
e¦LEX_UNEXPECTED_TOKEN¦token=inherits¦[1,↵§inherits]
e¦LEX_UNEXPECTED_TOKEN¦token=|>¦[1,↵§|>]
e¦LEX_UNEXPECTED_TOKEN¦token=^¦[1,↵§^]
e¦LEX_UNEXPECTED_TOKEN¦token=&¦[1,↵§&]
e¦LEX_UNEXPECTED_TOKEN¦token=~¦[1↵§~ 2]
e¦LEX_UNEXPECTED_TOKEN¦token=\¦[1,↵§\]
e¦LEX_UNEXPECTED_TOKEN¦token=é¦[1,↵§é]
e¦LEX_UNEXPECTED_TOKEN¦token=日¦[1↵§日]
e¦LEX_UNEXPECTED_TOKEN¦token=` + "`" + `¦[1↵§` + "`" + `a` + "`" + `]
e¦LEX_OCTALDIGIT_EXPECTED¦¦[1,↵§08]
e¦LEX_OCTALDIGIT_EXPECTED¦¦[1,↵§0178]
e¦LEX_OCTALDIGIT_EXPECTED¦¦[1,↵§0b1]
e¦LEX_HEXDIGIT_EXPECTED¦¦[1,↵§0x]
e¦LEX_HEXDIGIT_EXPECTED¦¦[1,↵§0xg]
e¦LEX_HEXDIGIT_EXPECTED¦¦[1,↵§0x1g]
e¦LEX_DIGIT_EXPECTED¦¦[1,↵§1.a]
e¦LEX_DIGIT_EXPECTED¦¦[1,↵§1e]
e¦LEX_DIGIT_EXPECTED¦¦[1,↵§1e+]
e¦LEX_DIGIT_EXPECTED¦¦[1,↵§1.5E-]
e¦LEX_DIGIT_EXPECTED¦¦[1,↵§1a]
e¦LEX_UNEXPECTED_TOKEN¦token=_¦[1,↵12§_0]
e¦LEX_NUMBER_OUT_OF_RANGE¦number=9223372036854775808¦[1,↵§9223372036854775808]
e¦LEX_NUMBER_OUT_OF_RANGE¦number=99999999999999999999¦[1,↵§99999999999999999999]
e¦LEX_NUMBER_OUT_OF_RANGE¦number=1e999¦[1,↵§1e999]
e¦LEX_NUMBER_OUT_OF_RANGE¦number=0xFFFFFFFFFFFFFFFFFF¦[1,↵§0xFFFFFFFFFFFFFFFFFF]
e¦LEX_NUMBER_OUT_OF_RANGE¦number=07777777777777777777777¦[1,↵§07777777777777777777777]
e¦LEX_DOUBLE_COLON_NOT_FOLLOWED_BY_NAME¦¦[1,↵§::]
e¦LEX_DOUBLE_COLON_NOT_FOLLOWED_BY_NAME¦¦[1,↵§::1]
e¦LEX_DOUBLE_COLON_NOT_FOLLOWED_BY_NAME¦¦[1,↵§:: a]
e¦LEX_INVALID_NAME¦¦[1,↵§a::]
e¦LEX_INVALID_NAME¦¦[1,↵§a::B]
e¦LEX_INVALID_NAME¦¦[1,↵§a::1]
e¦LEX_INVALID_TYPE_NAME¦¦[1,↵§A::]
e¦LEX_INVALID_TYPE_NAME¦¦[1,↵§A::b]
e¦LEX_INVALID_TYPE_NAME¦¦[1,↵§::A::1]
e¦LEX_INVALID_VARIABLE_NAME¦¦[1,↵§$::]
e¦LEX_INVALID_VARIABLE_NAME¦¦[1,↵§$:a]
e¦LEX_INVALID_VARIABLE_NAME¦¦[1,↵§$a::]
e¦LEX_INVALID_VARIABLE_NAME¦¦[1,↵§$A]
e¦LEX_INVALID_VARIABLE_NAME¦¦[1,↵§$a::B]
e¦LEX_INVALID_VARIABLE_NAME¦¦[1,↵§$::A]
x¦LEX_UNTERMINATED_STRING¦string_type=single¦[1,↵§'abc]⏎ def
x¦LEX_UNTERMINATED_STRING¦string_type=single¦[1,↵§'abc\']⏎ def
x¦LEX_UNTERMINATED_STRING¦string_type=double¦[1,↵§"abc]⏎ def
x¦LEX_UNTERMINATED_STRING¦string_type=double¦[1,↵§"abc\"]⏎ def
xb¦LEX_UNTERMINATED_STRING¦string_type=backtick¦[1,↵§` + "`" + `abc]⏎ def
x¦LEX_UNTERMINATED_COMMENT¦¦[1,↵§/* abc]⏎ * / def
x¦LEX_UNTERMINATED_COMMENT¦¦[1,↵§/*/]⏎ * / def
e¦LEX_MALFORMED_UNICODE_ESCAPE¦¦["a⏎§\u12"]
e¦LEX_MALFORMED_UNICODE_ESCAPE¦¦["a⏎⏎§\u{}"]
e¦LEX_MALFORMED_UNICODE_ESCAPE¦¦["a⏎§\u{1234567}"]
e¦LEX_MALFORMED_UNICODE_ESCAPE¦¦["a ${b} ⏎§\u{zz}"]
e¦LEX_MALFORMED_UNICODE_ESCAPE¦¦["a⏎§\uzzzz"]
eh¦LEX_MALFORMED_HEX_ESCAPE¦¦["a⏎§\xz0"]
eh¦LEX_MALFORMED_HEX_ESCAPE¦¦["a⏎§\x1"]
e¦LEX_UNEXPECTED_TOKEN¦token=)¦["a⏎${↵§)}"]
e¦PARSE_EXPECTED_TOKEN¦expected=};actual=integer literal¦["a⏎${1↵§2}"]
e¦PARSE_EXPECTED_TOKEN¦expected=};actual=integer literal¦["a⏎${a↵§1}"]
e¦PARSE_EXPECTED_TOKEN¦expected=};actual=,¦["a⏎${$a↵§,1}"]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=}¦["a⏎${ [1↵§} "]
x¦LEX_HEREDOC_DECL_UNTERMINATED¦¦[1,↵§@(
x¦LEX_HEREDOC_DECL_UNTERMINATED¦¦[1,↵§@(END
x¦LEX_HEREDOC_DECL_UNTERMINATED¦¦[1,↵§@(⏎)]
x¦LEX_HEREDOC_DECL_UNTERMINATED¦¦[1,↵§@(END⏎)]
x¦LEX_HEREDOC_DECL_UNTERMINATED¦¦[1,↵§@("END⏎")]
x¦LEX_HEREDOC_EMPTY_TAG¦¦[1,↵§@()]⏎⏎
x¦LEX_HEREDOC_EMPTY_TAG¦¦[1,↵§@("")]⏎⏎
x¦LEX_HEREDOC_EMPTY_TAG¦¦[1,↵§@(:json)]⏎⏎
x¦LEX_HEREDOC_MULTIPLE_SYNTAX¦¦[1,↵@(a:b§:c)]⏎a⏎
x¦LEX_HEREDOC_MULTIPLE_ESCAPE¦¦[1,↵@(a/t§/n)]⏎a⏎
x¦LEX_HEREDOC_ILLEGAL_ESCAPE¦flag=q¦[1,↵@(a/§q)]⏎a⏎
x¦LEX_HEREDOC_ILLEGAL_ESCAPE¦flag=q¦[1,↵@(a/t§q)]⏎a⏎
x¦LEX_HEREDOC_MULTIPLE_TAG¦¦[1,↵@("a"§"b")]⏎a⏎
x¦LEX_HEREDOC_UNTERMINATED¦¦[1,↵§@(a)]
x¦LEX_HEREDOC_UNTERMINATED¦¦[1,↵§@(a)]⏎foo⏎
x¦LEX_HEREDOC_UNTERMINATED¦¦[1,↵§@(a)]⏎foo⏎ab⏎
x¦LEX_HEREDOC_UNTERMINATED¦¦[1,↵§@(a)]⏎foo⏎ba⏎
x¦LEX_HEREDOC_UNTERMINATED¦¦[1,↵§@("a")]⏎foo⏎|- A⏎
x¦LEX_MALFORMED_INTERPOLATION¦¦[1,↵@("E")]⏎a⏎b §${c + 'x⏎| E⏎3'}⏎
x¦LEX_MALFORMED_INTERPOLATION¦¦[1,↵@("E"/tn)]⏎a\n §${c( /*⏎  |- E⏎*/)}⏎
x¦LEX_MALFORMED_INTERPOLATION¦¦[1,↵@("E"/n)]⏎a\§${c( "⏎E⏎")} b⏎
x¦LEX_MALFORMED_INTERPOLATION¦¦[1,↵@("E")]⏎§${@(X)⏎E⏎|X⏎}⏎
x¦LEX_UNEXPECTED_TOKEN¦token=|¦[1,↵@("E")]⏎a ${[$b, # }⏎§| E⏎3]}⏎
x¦LEX_UNTERMINATED_STRING¦string_type=single¦[1,↵@("E")]⏎a ${§'b⏎| E⏎}"⏎
t¦LEX_UNEXPECTED_TOKEN¦token=)¦1↵§)
t¦LEX_UNEXPECTED_TOKEN¦token=]¦1↵§]
t¦LEX_UNEXPECTED_TOKEN¦token=}¦1↵§}
t¦LEX_UNEXPECTED_TOKEN¦token=}¦class a { }↵§}
s¦LEX_UNEXPECTED_TOKEN¦token==>¦1↵§=> 2
s¦LEX_UNEXPECTED_TOKEN¦token==>¦'a'↵§=> 1
s¦LEX_UNEXPECTED_TOKEN¦token=:¦$x↵§: 1
s¦LEX_UNEXPECTED_TOKEN¦token=)¦$x = 1↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=]¦include a↵§]
s¦LEX_UNEXPECTED_TOKEN¦token=)¦notice↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=)¦notice 1,↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=)¦$a = $b =↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=)¦$a +=↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=]¦$a -=↵§]
s¦LEX_UNEXPECTED_TOKEN¦token=|>¦$x↵§|>
s¦LEX_UNEXPECTED_TOKEN¦token=}¦if $x {↵notice 1,↵§}
s¦LEX_UNEXPECTED_TOKEN¦token=}¦class b {↵$y = 1;↵include a,↵b,↵§}
s¦LEX_UNEXPECTED_TOKEN¦token=}¦f() |$x| { fail 'a', $y,↵§}
s¦LEX_UNEXPECTED_TOKEN¦token=;¦notice 1,↵§;
s¦LEX_UNEXPECTED_TOKEN¦token=;¦notice 1, 2,↵§;↵1
s¦LEX_UNEXPECTED_TOKEN¦token=;¦1;↵§;
s¦LEX_UNEXPECTED_TOKEN¦token=;¦notice(1);↵§;↵2
s¦LEX_UNEXPECTED_TOKEN¦token=;¦if $x {↵§; }
s¦LEX_UNEXPECTED_TOKEN¦token=;¦if $x { 1;↵§; }
s¦LEX_UNEXPECTED_TOKEN¦token=;¦class a {↵2↵;↵§;↵3 }
s¦PARSE_EXTRANEOUS_COMMA¦¦§1, 2
s¦PARSE_EXTRANEOUS_COMMA¦¦§$x, $y
s¦PARSE_EXTRANEOUS_COMMA¦¦§$x = 1, 2
s¦PARSE_EXTRANEOUS_COMMA¦¦§foo($x), 2
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦if $x↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=variable¦if $x↵§$x {}
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=:¦if $x↵§: {}
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦if $x {} else↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=if¦if $x {} else↵§if $y {}
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦if $x {} elsif $y↵§1
s¦LEX_UNEXPECTED_TOKEN¦token=else¦if $x {} else {}↵§else {}
s¦LEX_UNEXPECTED_TOKEN¦token=elsif¦if $x {} else {}↵§elsif $y {}
s¦LEX_UNEXPECTED_TOKEN¦token=else¦1↵§else {}
s¦LEX_UNEXPECTED_TOKEN¦token=)¦if $x {↵1↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=)¦if↵§) {}
s¦LEX_UNEXPECTED_TOKEN¦token=)¦if $x {} elsif↵§) {}
s¦PARSE_ELSIF_IN_UNLESS¦¦unless $x {}↵§elsif $y {}
s¦PARSE_ELSIF_IN_UNLESS¦¦unless $x { 1 }↵§elsif $y {} else {}
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦unless $x↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦unless $x {} else↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=if¦unless $x {} else↵§if $x {}
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦case $x↵§1
s¦LEX_UNEXPECTED_TOKEN¦token=}¦case $x {↵§}
s¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ':';actual=integer literal¦case $x { 1↵§2: {} }
s¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ':';actual={¦case $x { default↵§{ } }
s¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ':';actual==>¦case $x { default↵§=> { } }
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦case $x { 1:↵§2 }
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=}¦case $x { 1:↵§} 
s¦LEX_UNEXPECTED_TOKEN¦token=,¦case $x { 1: {}↵§, 2: {} }
s¦LEX_UNEXPECTED_TOKEN¦token=)¦case $x { 1: {}↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=,¦case $x { 1,↵§, 2: {} }
e¦PARSE_EXPECTED_TOKEN¦expected==>;actual=integer literal¦[$x ? { 1↵§2 }]
e¦PARSE_EXPECTED_TOKEN¦expected==>;actual=,¦[$x ? { 1↵§, 2 => 1 }]
e¦PARSE_EXPECTED_TOKEN¦expected==>;actual=:¦[$x ? { 1↵§: {} }]
e¦LEX_UNEXPECTED_TOKEN¦token=}¦[$x ? { 1 =>↵§}]
e¦LEX_UNEXPECTED_TOKEN¦token=,¦[$x ? { 1 =>↵§, 2 => 3}]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '}';actual=integer literal¦[$x ? { 1 => 2↵§3 => 4 }]
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '}';actual=default¦[$x ? { 1 => 2↵§default => 4 }]
e¦LEX_UNEXPECTED_TOKEN¦token=,¦[$x ? {1 => 2,↵§, }]
e¦LEX_UNEXPECTED_TOKEN¦token=,¦[$x ? {↵§, 1 => 2 }]
e¦PARSE_EXPECTED_TOKEN¦expected==>;actual=integer literal¦[$x ? 2↵§3]
e¦PARSE_EXPECTED_TOKEN¦expected==>;actual=]¦[$x ? default↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[$x ? 2 =>↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=]¦[$x ?↵§]
s¦PARSE_QUOTED_NOT_VALID_NAME¦¦class↵§'a' { }
s¦PARSE_QUOTED_NOT_VALID_NAME¦¦class↵§"a" { }
s¦PARSE_QUOTED_NOT_VALID_NAME¦¦class↵§"a${b}" { }
s¦PARSE_QUOTED_NOT_VALID_NAME¦¦class a inherits↵§'b' { }
s¦PARSE_QUOTED_NOT_VALID_NAME¦¦define↵§'a' { }
s¦PARSE_QUOTED_NOT_VALID_NAME¦¦application↵§'a' { }
s¦PARSE_EXPECTED_CLASS_NAME¦¦class↵§1 { }
s¦PARSE_EXPECTED_CLASS_NAME¦¦class↵§$x { }
s¦PARSE_EXPECTED_CLASS_NAME¦¦class↵§if { }
s¦PARSE_EXPECTED_CLASS_NAME¦¦class↵§default { }
s¦PARSE_EXPECTED_CLASS_NAME¦¦class↵§( ) { }
s¦PARSE_EXPECTED_CLASS_NAME¦¦class a inherits↵§{ }
s¦PARSE_EXPECTED_CLASS_NAME¦¦class a inherits↵§1 { }
s¦PARSE_EXPECTED_CLASS_NAME¦¦class a inherits↵§$x { }
s¦PARSE_EXPECTED_CLASS_NAME¦¦define↵§{ }
s¦PARSE_EXPECTED_CLASS_NAME¦¦define↵§1 { }
s¦PARSE_EXPECTED_CLASS_NAME¦¦define↵§$x { }
s¦PARSE_EXPECTED_CLASS_NAME¦¦application↵§{ }
s¦PARSE_EXPECTED_CLASS_NAME¦¦Foo produces↵§{ }
s¦PARSE_EXPECTED_CLASS_NAME¦¦Foo produces↵§1 {}
s¦PARSE_EXPECTED_CLASS_NAME¦¦Foo consumes↵§{ }
s¦PARSE_CLASS_NOT_VALID_HERE¦¦class↵§class { }
s¦PARSE_CLASS_NOT_VALID_HERE¦¦class a inherits↵§class { }
s¦PARSE_CLASS_NOT_VALID_HERE¦¦define↵§class { }
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦class a↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=variable¦class a($x)↵§$y {}
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=identifier¦class a inherits b↵§c { }
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=(¦class a inherits b↵§($x) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a(↵§1) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a(↵§b) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a($x,↵§b) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a($x,↵§,) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a(↵§'x') { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a(Integer↵§) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a(Integer↵§b) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a(Integer[1]↵§Integer $b) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a(*↵§b) { }
s¦PARSE_EXPECTED_VARIABLE¦¦define a(Foo *↵§Foo $b) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a(§**↵$b) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a(↵§$) { }
s¦PARSE_EXPECTED_VARIABLE¦¦class a($b,↵§$4) { }
s¦PARSE_EXPECTED_VARIABLE¦¦define a(*↵§$) { }
s¦PARSE_EXPECTED_VARIABLE¦¦function a(Integer↵§$) { }
s¦PARSE_EXPECTED_VARIABLE¦¦f() |↵§$| { }
s¦PARSE_EXPECTED_VARIABLE¦¦f() |$b,↵§$0| { }
s¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=variable¦class a($b↵§$c) { }
s¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=identifier¦class a($b = 1↵§c) { }
s¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=}¦class a($b↵§} { }
s¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual==>¦define a($b↵§=> 1) { }
s¦LEX_UNEXPECTED_TOKEN¦token=)¦class a($b =↵§) { }
s¦LEX_UNEXPECTED_TOKEN¦token=,¦class a($b =↵§, $c) { }
s¦LEX_UNEXPECTED_TOKEN¦token=)¦class a {↵1↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=]¦define a {↵1↵§]
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦define a↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=inherits¦define a↵§inherits b { }
s¦PARSE_EXPECTED_NAME_AFTER_FUNCTION¦¦function↵§{ }
s¦PARSE_EXPECTED_NAME_AFTER_FUNCTION¦¦function↵§1 { }
s¦PARSE_EXPECTED_NAME_AFTER_FUNCTION¦¦function↵§(1) { }
s¦PARSE_EXPECTED_NAME_AFTER_FUNCTION¦¦function↵§'a'() { }
s¦PARSE_EXPECTED_NAME_AFTER_FUNCTION¦¦function↵§$x() { }
sp¦PARSE_EXPECTED_NAME_AFTER_PLAN¦¦plan↵§1
sp¦PARSE_EXPECTED_NAME_AFTER_PLAN¦¦plan↵§'a'() {}
sp¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦plan a↵§1
sp¦PARSE_EXPECTED_VARIABLE¦¦plan a(↵§1) {}
sp¦PARSE_EXPECTED_TYPE_NAME¦¦plan a() >>↵§{}
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦function a↵§1
s¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=]¦function a($x↵§] { }
s¦PARSE_EXPECTED_TYPE_NAME¦¦function a() >>↵§{ }
s¦PARSE_EXPECTED_TYPE_NAME¦¦function a() >>↵§1 { }
s¦PARSE_EXPECTED_TYPE_NAME¦¦function a() >>↵§a { }
s¦PARSE_EXPECTED_TYPE_NAME¦¦function a() >>↵§$a { }
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=type name¦function a() >> Foo↵§Foo { }
s¦PARSE_EXPECTED_HOSTNAME¦¦node↵§{ }
s¦PARSE_EXPECTED_HOSTNAME¦¦node a,↵§, { }
s¦PARSE_EXPECTED_HOSTNAME¦¦node §$x↵{ }
s¦PARSE_EXPECTED_HOSTNAME¦¦node §(↵1) { }
s¦PARSE_EXPECTED_HOSTNAME¦¦node a inherits↵§{ }
s¦PARSE_EXPECTED_HOSTNAME¦¦node 'a', default,↵§[1] { }
s¦PARSE_EXPECTED_NAME_OR_NUMBER_AFTER_DOT¦¦node a.↵§{ }
s¦PARSE_EXPECTED_NAME_OR_NUMBER_AFTER_DOT¦¦node a.b.↵§, c { }
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=identifier¦node a↵§b { }
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦node 'a'↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=,¦node 'a' inherits b↵§, c { }
s¦LEX_UNEXPECTED_TOKEN¦token=)¦type A =↵§)
s¦LEX_UNEXPECTED_TOKEN¦token==¦type A =↵§= C
s¦LEX_UNEXPECTED_TOKEN¦token=integer literal¦type A↵§1
s¦LEX_UNEXPECTED_TOKEN¦token=)¦type A[b] =↵§)
s¦PARSE_INHERITS_MUST_BE_TYPE_NAME¦¦type A inherits↵§1 { }
s¦PARSE_INHERITS_MUST_BE_TYPE_NAME¦¦type A inherits↵§b { }
s¦PARSE_INHERITS_MUST_BE_TYPE_NAME¦¦type A inherits↵§{ }
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦type A inherits B↵§1
s¦PARSE_EXPECTED_TYPE_NAME_AFTER_TYPE¦¦type A[1]↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦site↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦application a↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦Foo produces Bar↵§1
s¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦Foo produces Bar {↵§1 }
s¦PARSE_INVALID_ATTRIBUTE¦¦Foo produces Bar { a↵§1 }
s¦LEX_UNEXPECTED_TOKEN¦token=}¦Foo produces Bar { a =>↵§}
s¦PARSE_EXPECTED_TOKEN¦expected=};actual=integer literal¦Foo produces Bar { a => 1↵§1 }
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=class¦§class↵{ }
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=class¦§class↵{ a => 1 }
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=file¦§file↵{↵}
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=file¦§file↵{↵a => 1 }
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=foo::bar¦§foo::bar↵{↵'a' => 1,↵b => 2 }
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=file¦§file {↵'a'↵}
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=file¦§file {↵'a'↵b => 1 }
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=file¦§@file {↵a => 1 }
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=file¦§@@file {↵a => 1 }
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=notice¦§@notice {↵}
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=include¦§@@include {↵a => 1 }
s¦PARSE_RESOURCE_WITHOUT_TITLE¦name=fail¦§@@fail {↵'a' }
s¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦file { 'a':↵§1 => 2 }
s¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦file { 'a':↵§'b' => 2 }
s¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦file { 'a':↵§, }
s¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦file { 'a': b => 1,↵§, }
s¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦file { 'a': b => 1,↵§$x => 2 }
s¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦file { 'a': §(b)↵=> 1 }
s¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦File {↵§1 }
s¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦File { a => 1,↵§, }
s¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦File <| |> {↵§1 }
s¦PARSE_INVALID_ATTRIBUTE¦¦file { 'a': b↵§c }
s¦PARSE_INVALID_ATTRIBUTE¦¦file { 'a': b↵§1 }
s¦PARSE_INVALID_ATTRIBUTE¦¦file { 'a': b↵§= 1 }
s¦PARSE_INVALID_ATTRIBUTE¦¦file { 'a': b↵§}
s¦PARSE_INVALID_ATTRIBUTE¦¦file { 'a': b↵§, c => 1 }
s¦PARSE_INVALID_ATTRIBUTE¦¦File { a↵§1 }
s¦PARSE_INVALID_ATTRIBUTE¦¦File['a'] { a↵§1 }
s¦PARSE_INVALID_ATTRIBUTE¦¦File <| |> { a↵§1 }
s¦PARSE_INVALID_ATTRIBUTE¦¦class { 'a': b↵§1 }
s¦LEX_UNEXPECTED_TOKEN¦token=}¦file { 'a': b =>↵§}
s¦LEX_UNEXPECTED_TOKEN¦token=}¦file { 'a': * =>↵§}
s¦LEX_UNEXPECTED_TOKEN¦token=}¦file { 'a': b +>↵§}
s¦LEX_UNEXPECTED_TOKEN¦token=,¦file { 'a': b =>↵§, c => 1 }
s¦LEX_UNEXPECTED_TOKEN¦token=}¦File['a'] { a =>↵§}
s¦LEX_UNEXPECTED_TOKEN¦token=;¦file { 'a': b => 1;↵§; }
s¦LEX_UNEXPECTED_TOKEN¦token=:¦file {↵§: b => 1 }
s¦LEX_UNEXPECTED_TOKEN¦token=:¦file { 'a': b => 1;↵§: c => 2}
s¦PARSE_EXPECTED_TOKEN¦expected==>;actual=integer literal¦file { 'a': *↵§1 }
s¦PARSE_EXPECTED_TOKEN¦expected==>;actual=+>¦file { 'a': *↵§+> 1 }
s¦PARSE_EXPECTED_TOKEN¦expected=};actual=identifier¦file { 'a': b => 1↵§c => 2 }
s¦PARSE_EXPECTED_TOKEN¦expected=};actual=)¦file { 'a': b => 1↵§)
s¦PARSE_EXPECTED_TOKEN¦expected=};actual=string literal¦file { 'a': b => 1↵§'c': }
s¦PARSE_EXPECTED_TOKEN¦expected=};actual=identifier¦File { a => 1↵§b => 2 }
s¦PARSE_EXPECTED_TOKEN¦expected=};actual=integer literal¦File['a'] { a => 1↵§1 }
s¦PARSE_EXPECTED_TITLE¦¦file { 'a': b => 1 ;↵§b => 1}
s¦PARSE_EXPECTED_TITLE¦¦file { 'a': b => 1 ;↵§'b'}
s¦PARSE_INVALID_RESOURCE¦¦§$x { a↵=> 1 }
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦@foo↵§1
s¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦@@foo↵§1
s¦LEX_UNEXPECTED_TOKEN¦token=}¦@↵§}
s¦LEX_UNEXPECTED_TOKEN¦token=)¦@@↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=)¦File <|↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=|>¦File <| a ==↵§|>
s¦LEX_UNEXPECTED_TOKEN¦token=|>>¦File <<| a == 1 and↵§|>>
s¦PARSE_EXPECTED_TOKEN¦expected=|>;actual=}¦File <| a == 1↵§}
s¦PARSE_EXPECTED_TOKEN¦expected=|>>;actual=|>¦File <<| a == 1↵§|>
s¦PARSE_EXPECTED_TOKEN¦expected=|>;actual=|>>¦File <| a == 1↵§|>>
s¦PARSE_EXPECTED_TOKEN¦expected=|>;actual=integer literal¦File <| a↵§1 |>
s¦LEX_UNEXPECTED_TOKEN¦token=|>>¦File <|↵§|>>
s¦LEX_UNEXPECTED_TOKEN¦token=|>¦File <<|↵§|>
s¦PARSE_EXPECTED_TOKEN¦expected=};actual=integer literal¦File <| |> { a => 1↵§2 }
s¦PARSE_EXPECTED_TOKEN¦expected=};actual=;¦File <<| |>> { a => 1↵§; }
s¦PARSE_EXPECTED_TOKEN¦expected=};actual=variable¦File <| a == 1 |> { a => 1, b +> 3↵§$x }
s¦PARSE_EXPECTED_TOKEN¦expected=};actual=)¦File <| a == 1 |> { a => 1↵§)
s¦PARSE_EXPECTED_TOKEN¦expected=|>;actual==>¦File <| a↵§=> 1 |>
s¦PARSE_EXPECTED_TOKEN¦expected=|>;actual=,¦File <| a == 1↵§, b == 2 |>
s¦LEX_UNEXPECTED_TOKEN¦token=)¦File['a'] ->↵§)
s¦LEX_UNEXPECTED_TOKEN¦token=->¦File['a'] ->↵§-> File['b']
s¦LEX_UNEXPECTED_TOKEN¦token=~>¦File['a'] <-↵§~> File['b']
e¦PARSE_EXPECTED_VARIABLE¦¦f() |↵§1| { }
e¦PARSE_EXPECTED_VARIABLE¦¦f(1) |$x,↵§y| { }
e¦PARSE_EXPECTED_VARIABLE¦¦$x.each |$x,↵§1| { }
e¦PARSE_EXPECTED_VARIABLE¦¦$x.each |Foo↵§1| { }
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '|';actual={¦f() |$x↵§{ }
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '|';actual=variable¦$x.f |$y↵§$z| {}
e¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '|';actual=integer literal¦$x.f |$y↵§1| {}
e¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦f() |$x|↵§1
e¦PARSE_EXPECTED_TOKEN¦expected={;actual=variable¦$x.each |$x|↵§$x {}
e¦PARSE_EXPECTED_TYPE_NAME¦¦f() |$x| >>↵§{ }
e¦LEX_UNEXPECTED_TOKEN¦token=)¦f() |$x| {↵1↵§)
e¦LEX_UNEXPECTED_TOKEN¦token=]¦$x.each |$x| {↵$x↵§]
e¦LEX_UNEXPECTED_TOKEN¦token=|¦f() |$x| { 1 +↵§| }
z¦LEX_UNEXPECTED_TOKEN¦token=EOF¦if $x {↵1↵§
z¦LEX_UNEXPECTED_TOKEN¦token=EOF¦class a {↵§
z¦LEX_UNEXPECTED_TOKEN¦token=EOF¦case $x { 1: {}↵§
z¦LEX_UNEXPECTED_TOKEN¦token=EOF¦$x =↵§
z¦LEX_UNEXPECTED_TOKEN¦token=EOF¦notice 1,↵§
z¦LEX_UNEXPECTED_TOKEN¦token=EOF¦include a, b,↵§
t¦LEX_UNEXPECTED_TOKEN¦token=;¦§;
t¦LEX_UNEXPECTED_TOKEN¦token=;¦1;↵§;
z¦PARSE_EXPECTED_TOKEN¦expected={;actual=EOF¦class a↵§
z¦PARSE_EXPECTED_TOKEN¦expected={;actual=EOF¦if $x↵§
z¦PARSE_EXPECTED_CLASS_NAME¦¦class↵§
z¦PARSE_EXPECTED_CLASS_NAME¦¦class a inherits↵§
z¦PARSE_EXPECTED_NAME_AFTER_FUNCTION¦¦function↵§
z¦PARSE_EXPECTED_HOSTNAME¦¦node a,↵§
z¦PARSE_EXPECTED_TOKEN¦expected=};actual=EOF¦file { 'a': b => 1↵§
z¦PARSE_EXPECTED_TOKEN¦expected=|>;actual=EOF¦File <| a == 1↵§
z¦LEX_UNEXPECTED_TOKEN¦token=EOF¦File['a'] ->↵§
z¦PARSE_EXPECTED_TOKEN¦expected={;actual=EOF¦@foo↵§
x¦LEX_UNEXPECTED_TOKEN¦token=EOF¦f(↵§
x¦LEX_UNEXPECTED_TOKEN¦token=EOF¦[1,↵§
x¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=EOF¦f(1↵§
x¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=EOF¦[1↵§
x¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=EOF¦$x[1↵§
x¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '}';actual=EOF¦{a => 1↵§
x¦PARSE_EXPECTED_FARROW_AFTER_KEY¦¦{a↵§
x¦PARSE_EXPECTED_TOKEN¦expected=);actual=EOF¦(1↵§
x¦PARSE_EXPECTED_TOKEN¦expected=};actual=EOF¦"a ${b↵§
x¦LEX_UNTERMINATED_STRING¦string_type=double¦§"a ${b} c⏎d
x¦PARSE_EXPECTED_VARIABLE¦¦f() |↵§
x¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '|';actual=EOF¦f() |$x↵§
x¦PARSE_EXPECTED_TOKEN¦expected={;actual=EOF¦f() |$x|↵§
x¦LEX_UNEXPECTED_TOKEN¦token=EOF¦f() |$x| {↵§
sw¦PARSE_EXPECTED_STEP_STYLE¦¦workflow a { } {↵§1 }
sw¦PARSE_EXPECTED_STEP_STYLE¦¦workflow a { } {↵§foo↵b {} }
sw¦PARSE_EXPECTED_STEP_STYLE¦¦workflow a { } {↵action b {} {}↵§notice(1) }
sw¦PARSE_EXPECTED_STEP_STYLE¦¦workflow a { } {↵action b { } { } §)
sw¦PARSE_EXPECTED_STEP_NAME¦step=workflow¦workflow a { } {↵workflow↵§{} }
sw¦PARSE_EXPECTED_STEP_NAME¦step=action¦workflow a { } {↵action↵§1 {} {} }
sw¦PARSE_EXPECTED_STEP_NAME¦step=resource¦workflow a { } {↵resource↵§'a' {} {} }
sw¦PARSE_EXPECTED_STEP_NAME¦step=stateHandler¦workflow a { } {↵stateHandler↵§$x {} {} }
sw¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦workflow a {↵§1 }
sw¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦workflow a {↵b => 1,↵§'c' => 1 }
sw¦PARSE_EXPECTED_FARROW_AFTER_KEY¦¦workflow a {↵b↵§1 }
sw¦PARSE_EXPECTED_FARROW_AFTER_KEY¦¦workflow a {↵b↵§}
sw¦PARSE_EXPECTED_TOKEN¦expected=(;actual=integer literal¦workflow a {↵parameters =>↵§1 }
sw¦PARSE_EXPECTED_TOKEN¦expected=(;actual=[¦action a {↵returns =>↵§[$a] } {}
sw¦PARSE_EXPECTED_VARIABLE¦¦workflow a {↵parameters => (↵§1) }
sw¦PARSE_EXPECTED_VARIABLE¦¦workflow a {↵returns => (↵§1) }
sw¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=variable¦resource a { parameters => ($a↵§$b) }
sw¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '}';actual=identifier¦workflow a { foo => 1↵§bar => 2 } {}
sw¦LEX_UNEXPECTED_TOKEN¦token=}¦workflow a {↵foo =>↵§} {}
sw¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦workflow a↵§1
sw¦PARSE_EXPECTED_TOKEN¦expected={;actual=integer literal¦action a { }↵§1
sw¦PARSE_EXPECTED_ITERATOR_STYLE¦style=foo¦resource a {} $x =↵§foo(1) {} 
sw¦PARSE_EXPECTED_ITERATOR_STYLE¦style=foo¦workflow a {} {↵resource a {} $x =↵§foo(1) {} }
sw¦PARSE_EXPECTED_TOKEN¦expected==;actual={¦resource a {} $x↵§{}
sw¦PARSE_EXPECTED_TOKEN¦expected=identifier;actual=integer literal¦resource a {} $x =↵§1
sw¦PARSE_EXPECTED_TOKEN¦expected=(;actual=|¦resource a {} $x = times↵§|$i| { }
sw¦PARSE_EXPECTED_TOKEN¦expected=|;actual={¦resource a {} $x = times($n)↵§{ }
sw¦PARSE_EXPECTED_VARIABLE¦¦resource a {} $x = each($n) |↵§1| { }
sw¦PARSE_EXPECTED_VARIABLE¦¦resource a {} $x = each($n) |↵§$| { }
sw¦PARSE_EXPECTED_VARIABLE¦¦resource a {} $x = each($n) |↵§$7| { }
sw¦PARSE_EXPECTED_VARIABLE¦¦resource a {} ⏎§$ = times(3) |$b| { }
sw¦PARSE_EXPECTED_VARIABLE¦¦resource a {} ⏎§$3 = times(3) |$b| { }
sw¦PARSE_EXPECTED_VARIABLE¦¦workflow a {↵parameters => (↵§$) }
sw¦PARSE_EXPECTED_VARIABLE¦¦workflow a {↵returns => ($b,↵§$2) }
sw¦PARSE_EXPECTED_ATTRIBUTE_NAME¦¦resource x { } {↵§1 }
sw¦PARSE_INVALID_ATTRIBUTE¦¦resource x { } {↵a↵§1 }
sw¦LEX_UNEXPECTED_TOKEN¦token=}¦resource x { } {↵a =>↵§}
sw¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '}';actual=identifier¦resource x { } {↵a => 1↵§b => 2 }
sw¦LEX_UNEXPECTED_TOKEN¦token=]¦action x { } {↵1↵§]
E¦LEX_UNBALANCED_EPP_TAG¦¦a⏎<% $x⏎ §
E¦LEX_UNBALANCED_EPP_TAG¦¦a⏎<%= $x⏎ §
E¦LEX_UNEXPECTED_TOKEN¦token=EOF¦a⏎<% if $x {⏎ %>§
E¦LEX_UNEXPECTED_TOKEN¦token=EOF¦a⏎<% if $x { %>⏎text⏎§
E¦LEX_UNEXPECTED_TOKEN¦token=)¦a⏎<% if $x { %>⏎b⏎<% §) %>⏎
E¦LEX_UNEXPECTED_TOKEN¦token=}¦a⏎<% if $x { -%>⏎b⏎<%- } %> x <% §} %>⏎
E¦LEX_INVALID_OPERATOR¦op=-%¦a⏎<% 1⏎§-% %>
E¦LEX_UNBALANCED_EPP_COMMENT¦¦a⏎§<%# b
E¦LEX_UNBALANCED_EPP_COMMENT¦¦a⏎§<%# b⏎⏎ c %
E¦LEX_UNBALANCED_EPP_COMMENT¦¦a⏎<% $x %>⏎§<%# b⏎⏎ c %
E¦PARSE_ILLEGAL_EPP_PARAMETERS¦¦a⏎<% §|$x| %>
E¦PARSE_ILLEGAL_EPP_PARAMETERS¦¦a⏎<%- §|$x, $y = 1| -%>⏎ text
E¦LEX_UNEXPECTED_TOKEN¦token=)¦a⏎<%= §) %>
E¦LEX_UNEXPECTED_TOKEN¦token=^¦a⏎<% x⏎§^ %>
E¦PARSE_EXPECTED_TOKEN¦expected=);actual=epp text¦a⏎<% $z = (1 §%>b
E¦PARSE_EXPECTED_TOKEN¦expected=);actual=epp text¦a⏎<% $z = (1 §-%> b
E¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ')';actual=epp text¦a⏎<% f(1 §%>b
E¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or ']';actual=epp text¦a⏎<% [1 §%>b
E¦LEX_UNTERMINATED_STRING¦string_type=single¦a⏎<%⏎ §'x %> y
E¦LEX_UNTERMINATED_STRING¦string_type=double¦a⏎<%⏎ §"x %> y
E¦PARSE_EXPECTED_VARIABLE¦¦<%- |$x, §1| -%>
E¦PARSE_EXPECTED_VARIABLE¦¦<%- | §x | -%>
E¦PARSE_EXPECTED_ONE_OF_TOKENS¦expected=',' or '|';actual=integer literal¦<%- |$x⏎§1| -%>
E¦PARSE_EXPECTED_TOKEN¦expected={;actual=epp text¦<% if $x §%> x
E¦PARSE_EXPECTED_TOKEN¦expected={;actual=epp text¦<% if $x { %> x <% } else §%> x
`

type malformed struct {
	where string
	code  string
	args  map[string]string
	src   string
}

var malformedTemplates, malformedEpp []malformed

func init() {
	for _, l := range strings.Split(malformedTable, "\n") {
		if l == "" {
			continue
		}
		p := strings.Split(l, "¦")
		m := malformed{p[0], p[1], map[string]string{}, strings.Join(p[3:], "¦")}
		if p[2] != "" {
			for _, a := range splitArgs(p[2]) {
				i := strings.IndexByte(a, '=')
				m.args[a[:i]] = a[i+1:]
			}
		}
		if !strings.Contains(m.src, "§") {
			panic(l)
		}
		switch {
		case strings.ContainsRune(m.where, 'E'):
			malformedEpp = append(malformedEpp, m)
		default:
			malformedTemplates = append(malformedTemplates, m)
		}
	}
}

// splitArgs splits at the semicolons that are followed by the name of an argument
func splitArgs(s string) []string {
	if i := strings.Index(s, ";actual="); i >= 0 {
		return []string{s[:i], s[i+1:]}
	}
	return []string{s}
}
