package main

// wrongForms are statements that no program can contain, with places for expressions
var wrongForms = []string{
	"@include { a => E }",
	"@@notice { a => E }",
	"@file { a => E }",
	"@File { 'x' }",
	"@file",
	"@@ file",
	"@ 1",
	"@@@file { 'x': }",
	"@ @file { 'x': }",
	"file { 'x' }",
	"file { 'x': a }",
	"file { 'x': a => }",
	"file { 'x': a => E b => 2 }",
	"file { 'x': a E }",
	"file { 'x': a = E }",
	"file { 'x': a == E }",
	"file { 'x': => E }",
	"file { 'x': 1 => E }",
	"file { 'x': $y => E }",
	"file { 'x': A => E }",
	"file { 'x': a => E, , b => E }",
	"file { 'x': , a => E }",
	"file { 'x': a => E; , }",
	"file { 'x': * E }",
	"file { 'x': * +> E }",
	"file { 'x': ** => E }",
	"file { : a => E }",
	"file { 'x': a => E; b => E }",
	"file { 'x': a => E 'y': a => 1 }",
	"file { 'x' a => E }",
	"file { 'x', a => E }",
	"file { ; }",
	"file { 'x': ; : }",
	"file { 'x':: }",
	"file { a => E }",
	"file { a +> E }",
	"file { * => E }",
	"foo { 'x' => E }",
	"foo { E => 1, }",
	"foo { }",
	"foo { 'x' ; }",
	"foo::bar { }",
	"File { a => }",
	"File { a }",
	"File { 1 => E }",
	"File { a => E b => 1 }",
	"File { a => E; b => 1 }",
	"File['x'] { a => }",
	"File['x'] { a b }",
	"File['x'] { 'x' }",
	"File['x'] { a => E ; }",
	"File <| a == 1",
	"File <| a == 1 |>>",
	"File <<| a == 1 |>",
	"File <| == 1 |>",
	"File <| a == |>",
	"File <| a == 1 b == 2 |>",
	"File <| a = 1, b |>",
	"File <| |> { a => }",
	"File <| |> { a b }",
	"File <| |> { 'x': a => 1 }",
	"if { }",
	"if E",
	"if $x { } elsif { }",
	"if $x { } elsif $y",
	"if $x { } else",
	"if $x { } else $y",
	"if $x { } else { } else { }",
	"if $x { } else { } elsif $y { }",
	"if $x { } else if $y { }",
	"if $x 1 { }",
	"if $x { , }",
	"if ($x { }",
	"if $x) { }",
	"else { }",
	"elsif $x { }",
	"unless { }",
	"unless $x",
	"unless $x { } elsif $y { }",
	"unless $x { } else",
	"unless $x { } else { } else { }",
	"case E { }",
	"case { 1: { } }",
	"case $x",
	"case $x { 1 }",
	"case $x { 1: }",
	"case $x { 1: 2 }",
	"case $x { : { } }",
	"case $x { 1: { } 2 }",
	"case $x { 1, , 2: { } }",
	"case $x { , 1: { } }",
	"case $x { 1 2: { } }",
	"case $x { 1 => { } }",
	"case $x { 1: { } , 2: { } }",
	"case $x { 1: { }; 2: { } }",
	"case $x { 1: { } default }",
	"case $x 1: { }",
	"$x ? ",
	"$x ? { 1 }",
	"$x ? { 1 => }",
	"$x ? { => E }",
	"$x ? { 1 => 2 3 => 4 }",
	"$x ? { 1 => 2; 3 => 4 }",
	"$x ? { 1: 2 }",
	"$x ? { 1 => 2, , }",
	"$x ? { , 1 => 2 }",
	"$x ? 1",
	"$x ? (1 => 2)",
	"class { }",
	"class x",
	"class 1 { }",
	"class 'x' { }",
	"class $x { }",
	"class x y { }",
	"class x inherits { }",
	"class x inherits 1 { }",
	"class x inherits 'y' { }",
	"class x inherits $y { }",
	"class x inherits y inherits z { }",
	"class x inherits y($a) { }",
	"class x(1) { }",
	"class x(a) { }",
	"class x($a $b) { }",
	"class x($a, , $b) { }",
	"class x(, $a) { }",
	"class x($a = ) { }",
	"class x($a => 1) { }",
	"class x(String) { }",
	"class x(String $a = ) { }",
	"class x(String, $a) { }",
	"class x(*) { }",
	"class x(String * ) { }",
	"class x(* String $a) { }",
	"class x($a[1]) { }",
	"class x($a.b) { }",
	"class x($a { }",
	"class x $a { }",
	"class x |$a| { }",
	"class x() { } { }",
	"class x() >> Any { }",
	"class x() inherits { }",
	"class x( { }",
	"class x) { }",
	"define { }",
	"define x",
	"define 1 { }",
	"define 'x' { }",
	"define x inherits y { }",
	"define x($a $b) { }",
	"define x(a) { }",
	"define x() >> Any { }",
	"node { }",
	"node x",
	"node 'x', { 1",
	"node inherits x { }",
	"node 'x' inherits { }",
	"node 'x' inherits 'y', 'z' { }",
	"node 'x' inherits 'y' inherits 'z' { }",
	"node $x { }",
	"node [x] { }",
	"node 'x' 'y' { }",
	"node , 'x' { }",
	"node 'x', , 'y' { }",
	"node x. { }",
	"node .x { }",
	"node x..y { }",
	"node default default { }",
	"node 'x'() { }",
	"function { }",
	"function f",
	"function f()",
	"function 1() { }",
	"function 'f'() { }",
	"function f() > Any { }",
	"function f() >> { }",
	"function f() >> any { }",
	"function f() >> 1 { }",
	"function f() >> 'x' { }",
	"function f($a $b) { }",
	"function f() >> Any Any { }",
	"function f() inherits x { }",
	"function $f() { }",
	"site",
	"site x { }",
	"site ( ) { }",
	"site { } { }",
	"application { }",
	"application x",
	"application x $a { }",
	"application x inherits y { }",
	"A produces { }",
	"A produces B",
	"A produces B { 1 }",
	"A produces B { a = 1 }",
	"A produces 1 { }",
	"A produces 'x' { }",
	"A produces $x { }",
	"A consumes B { a => }",
	"A consumes { a => 1 }",
	"A consumes B C { }",
	"1 produces B { }",
	"$x produces B { }",
	"type X",
	"type X =",
	"type = = 1",
	"type X == Y",
	"type X inherits = Y",
	"type X inherits y { }",
	"type X[Y] Z",
	"type X => Y",
	"type x inherits Y { }",
	"type X inherits Y",
	"foo(",
	"foo(1 2)",
	"foo(1,,2)",
	"foo(,)",
	"foo(, 1)",
	"foo(1;2)",
	"foo(1]",
	"foo(a => )",
	"foo(=> 1)",
	"foo(a => 1 b => 2)",
	"foo(a => 1 => 2)",
	"foo(a : 1)",
	"foo(1)(",
	"foo()) ",
	"foo() |x| { }",
	"foo() |$x|",
	"foo() |$x { }",
	"foo() |$x",
	"foo() |$x $y| { }",
	"foo() |$x, , $y| { }",
	"foo() |, $y| { }",
	"foo() |*| { }",
	"foo() |String| { }",
	"foo() |1| { }",
	"foo() |$x = | { }",
	"foo() |$x| >> { }",
	"foo() |$x| >> 1 { }",
	"foo() |$x| > Any { }",
	"foo() |$x|| { }",
	"foo() |$x| 1",
	"foo() |$x| ( )",
	"[1 2]",
	"[,]",
	"[1,,2]",
	"[, 1]",
	"[1;2]",
	"[1",
	"[1)",
	"[1}",
	"[a => ]",
	"[=> 1]",
	"[a => 1 => 2]",
	"[1: 2]",
	"$y = {1}",
	"$y = {1 => }",
	"$y = {1 => 2 3 => 4}",
	"$y = {,}",
	"$y = {1 => 2,,}",
	"$y = {, 1 => 2}",
	"$y = {1 => 2; 3 => 4}",
	"$y = {1 => 2",
	"$y = {1 => 2]",
	"$y = {1, 2}",
	"$y = {1 : 2}",
	"$y = {=> 2}",
	"$y = {1 => 2 => 3}",
	"$y = {1 +> 2}",
	"()",
	"(1, 2)",
	"(1",
	"(1 2)",
	"(1; 2)",
	"(1]",
	"(a => 1)",
	"( , )",
	"(1,)",
	"$x[1",
	"$x[1)",
	"$x[1 2]",
	"$x[,]",
	"$x[1,,2]",
	"$x[1;2]",
	"$x[a =>]",
	"$x.",
	"$x..y",
	"$x.foo(",
	"$x.foo(1 2)",
	"$x.foo(,)",
	"$x.foo |x| { }",
	"$x.foo() |$x|",
	"$x.foo() { }",
	".foo",
	"!",
	"-",
	"$y = !",
	"$y = -",
	"$y = *",
	"$y = +",
	"! !",
	"1 +",
	"1 -",
	"1 *",
	"1 /",
	"1 %",
	"1 <<",
	"1 >>",
	"1 <",
	"1 >",
	"1 <=",
	"1 >=",
	"1 ==",
	"1 !=",
	"1 =~",
	"1 !~",
	"1 in",
	"1 and",
	"1 or",
	"1 ->",
	"1 ~>",
	"1 <-",
	"1 <~",
	"$x =",
	"$x +=",
	"$x -=",
	"1 * / 2",
	"1 == == 2",
	"1 and and 2",
	"1 or and 2",
	"1 in in 2",
	"1 <- -> 2",
	"1 = = 2",
	"1 !",
	"= 1",
	"+= 1",
	"== 1",
	"=> 1",
	"+> 1",
	"and 1",
	"or 1",
	"in [1]",
	"in",
	", 1",
	"1,",
	"1,, 2",
	"1, ; 2",
	"$x, , $y",
	": 1",
	"1 : 2",
	"; ;",
	";; 1",
	"|",
	"|$x|",
	"|$x| { }",
	"|> ",
	"<| |>",
	"<<| |>>",
	")",
	"]",
	"}",
	"? 1",
	". x",
	"~> 1",
	"-> 1",
	"a => 1",
	"1 => 2",
	"'a' => 'b'",
	"{ a => 1 } => 2",
	"$x => 1",
	"include a => ",
	"include , a",
	"include a,",
	"include a,, b",
	"include(a b)",
	"include(a,,b)",
	"include a; , b",
	"notice =",
	"notice =>",
	"notice +",
	"require ->",
	"1 2 => 3",
	"default: 1",
	"default => 1",
	"default { }",
	"undef { }",
	"undef { 'x': a }",
	"true { 'x' => 1 }",
	"if",
	"unless",
	"case",
	"class",
	"define",
	"node",
	"function",
	"application",
	"else",
	"elsif",
	"inherits x",
	"inherits",
	"$x-",
	"$x::",
	"$X",
	"x::",
	"::",
	"X::",
	"x:::y",
	"X::y",
	"x::Y",
	"0x",
	"0xg",
	"08",
	"0b1",
	"1e",
	"1e+",
	"1.",
	"1.e1",
	"1x",
	"0x1x",
	"1.5x",
	"1_000",
	"'",
	"\"",
	"'a",
	"\"a",
	"\"${",
	"\"${1",
	"\"$(1)\" \"",
	"\"${1 2}\"",
	"\"${,}\"",
	"\"${1,2}\"",
	"\"${if}\"",
	"\"${1;2}\"",
	"\"${)}\"",
	"\"${[}\"",
	"\"${foo(}\"",
	"/a",
	"/* ",
	"@(",
	"@()",
	"@(A",
	"&",
	"^ 1",
	"\\",
	"`",
	"~",
	"~ 1",
	"1 ~ 2",
	"1 ^ 2",
	"1 & 2",
	"1 && 2",
	"1 || 2",
	"1 === 2",
	"1 <> 2",
	"1 ++ 2",
	"1++",
	"$x++",
	"$x += = 1",
	"$x ?? 1",
	"$x ? : 1",
	"1 ... 2",
	"1 .. 2",
	"E E2 + ",
	"E )",
	"E ]",
	"E }",
	"E =>",
	"E => 1",
	"E :",
	"E : 1",
	"( E",
	"[ E",
	"{ E",
	"{ E => ",
	"{ E }",
	"{ E , 1 }",
	"( E , 1 )",
	"( E => 1 )",
	"[ E => ]",
	"[ E => 1 => 2]",
	"foo( E",
	"foo( E => )",
	"if E { } else (E)",
	"case E { E2 }",
	"case E { E2: }",
	"case E { E2: (E2) }",
	"case E { E2: { } E }",
	"( E ) ? { E2 }",
	"( E ) ? { E2 => }",
	"( E ) ? { E2 => E2 E2 => 1 }",
	"( E ) ? ",
	"( E ) +",
	"( E ) =",
	"( E ) ->",
	"( E ) .",
	"! ",
	"class x($a = E $b) { }",
	"class x($a = E, , ) { }",
	"define x($a = ) { E }",
	"function f($a = E) >> { E }",
	"function f($a = E) > Any { E }",
	"foo() |$a = E, , $b| { }",
	"foo() |$a = E { }",
	"file { 'x': a => E; 'y' }",
	"file { 'x': ; E }",
	"file { 'x': ; ; 'y': }",
	"notice { 'a' => E; }",
	"file { E }",
	"file { 'x': a => E, b }",
	"file { 'x': E }",
	"file { 'x': a => E b => E }",
	"file { 'x', 'y': a => E ] }",
	"File { a => E, b }",
	"File { a => E b => E }",
	"File <| a == E",
	"File <| (a == E |>",
	"File <| a == 1 |> { a => E, E }",
	"\"x ${ (E) + } y\"",
	"\"x ${ [E } y\"",
	"\"x ${ foo(E } y\"",
	"\"x ${ (E) , (E) } y\"",
}

// wrongSteps are the same for programs with steps
var wrongSteps = []string{
	"workflow x",
	"workflow x { a }",
	"workflow x { a => }",
	"workflow x { a => E b => 2 } { }",
	"workflow x { a = E } { }",
	"workflow x { 1 => E } { }",
	"workflow x { 'a' => E } { }",
	"workflow x { $a => E } { }",
	"workflow x { a => E; b => 1 } { }",
	"workflow x { , a => E } { }",
	"workflow x { a => E, , b => 1 } { }",
	"workflow x { a +> E } { }",
	"workflow x { * => E } { }",
	"workflow { }",
	"workflow x { } foo { }",
	"workflow x { } foo($a) |$b| { }",
	"workflow x { } timesx($a) |$b| { }",
	"workflow x { } times { }",
	"workflow x { } times() { }",
	"workflow x { } times |$b| { }",
	"workflow x { } times($a) |b| { }",
	"workflow x { } times($a) |1| { }",
	"workflow x { } times($a) { }",
	"workflow x { } times($a |$b| { }",
	"workflow x { } times($a $c) |$b| { }",
	"workflow x { } each(1 2) |$b| { }",
	"workflow x { } each($a) |$b { }",
	"workflow x { } each($a) |$b $c| { }",
	"workflow x { } $v { }",
	"workflow x { } $1 = times($a) |$b| { }",
	"workflow x { } $0 = each($a) |$b| { }",
	"workflow x { } $v = each($a) |$0| { }",
	"workflow x { } range($a) |$b, $12| { }",
	"workflow x { } $v = { }",
	"workflow x { } $v = foo($a) |$b| { }",
	"workflow x { } $v = $w { }",
	"workflow x { } $v = 1 { }",
	"workflow x { } $v == times($a) |$b| { }",
	"workflow x { } $v += times($a) |$b| { }",
	"workflow x { } times($a) |$b| { } }",
	"workflow x { } { } }",
	"workflow x { parameters => ($a $b) } { }",
	"workflow x { parameters => (a) } { }",
	"workflow x { parameters => (1) } { }",
	"workflow x { parameters => ($a, , $b) } { }",
	"workflow x { parameters => ($a } { }",
	"workflow x { parameters => $a) } { }",
	"workflow x { parameters => ($a = ) } { }",
	"workflow x { parameters => (String) } { }",
	"workflow x { parameters => } { }",
	"workflow x { returns => ($a $b) } { }",
	"workflow x { returns => (a) } { }",
	"workflow x { returns => (1) } { }",
	"workflow x { returns => ($a => ) } { }",
	"workflow x { returns => ( => $a) } { }",
	"workflow x { returns => ($a = ) } { }",
	"workflow x { returns => ($a } { }",
	"workflow x { parameters ($a) } { }",
	"workflow x { parameters = ($a) } { }",
	"workflow x y { }",
	"workflow 1 { }",
	"workflow 'x' { }",
	"workflow $x { }",
	"workflow x ( ) { }",
	"workflow x { } { a => 1",
	"workflow x { } { action }",
	"workflow x { } { resource y }",
	"resource x",
	"resource x { a }",
	"resource x { } { a }",
	"resource x { } { a => }",
	"resource x { } { a => E b => 2 }",
	"resource x { } { 'a' => E }",
	"resource x { } { $a => E }",
	"resource x { } { a => E; b => 1 }",
	"resource x { } foo { }",
	"resource x { } times($a) { }",
	"action x",
	"action x { } times { }",
	"action x { } times($a) { }",
	"action x { } foo($a) |$b| { }",
	"action x { } { function }",
	"action x { } { function f }",
	"action x { a } ",
	"stateHandler x",
	"stateHandler x { a => }",
	"stateHandler x { } times($a) { }",
	"stateHandler x { } foo { }",
}
