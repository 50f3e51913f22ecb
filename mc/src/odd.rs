//! Spellings that other tools treat specially, and places to put them. No dependencies: the crate
//! of the feature comparison includes this file.
/// Pieces that other notations, editors and encodings give a meaning, and which here mean only
/// themselves (or white space, where Unicode says so).
pub const ODD: [&str; 44] = [
    "\u{feff}", "\0", "\t", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{3000}", "\\", "\\n", "\\'", "\\\"", "\\\n", "%x41", "%d10",
    "&lt;", "#", "#c\n", "//", "//c\n", "/*c*/", "(*c*)", "--", "{", "}", "{'x'}", "*", "+", "?", "'x'*", "1*'x'", "'a'..'b'", ".", ",", "::", ":=", "ε", "_", "-", "0", "@", "```",
];

/// Where in a text a character or piece is put.
pub fn placements(c: &str) -> Vec<String> {
    vec![
        c.to_string(),
        format!("{c}<a> ::= 'x'"),
        format!("<a> ::= 'x'{c}"),
        format!("<a> ::= '{c}'"),
        format!("<a> ::= \"{c}\" '{c}q' \"q{c}\""),
        format!("<{c}> ::= 'x' <{c}a> <a{c}>"),
        format!("<a>{c}::= 'x'"),
        format!("<a> ::={c}'x'"),
        format!("<a> ::= 'x'{c}'y' | {c}'z'"),
        format!("<a> ::= 'x' | <b>{c}\n<b> ::= 'y'"),
        format!("<a> ::= ({c}'x') [ 'y'{c}]"),
        format!("<a> ::= 'x' ;{c}'q'\n<b> ::= 'y'"),
        format!(";{c}\n<a> ::= 'x'"),
        format!("a = 'x'{c}"),
        format!("{c}a = 'x'"),
        format!("{c} = 'x'"),
        format!("a{c} = 'x' / b{c}b"),
        format!("a = '{c}' / b{c}"),
        format!("a ={c}'x' {c} / b"),
        format!("a = (b{c}) [b ;{c}\n]"),
    ]
}

/// Where in a term, expression or production a character or piece is put.
pub fn part_placements(c: &str) -> Vec<String> {
    vec![
        c.to_string(),
        format!("{c}'x'"),
        format!("'x'{c}"),
        format!("'{c}'"),
        format!("\"{c}\""),
        format!("'q{c}' \"{c}q\""),
        format!("<{c}>"),
        format!("<a{c}>"),
        format!("<{c}a>"),
        format!("{c}<a>"),
        format!("<a>{c}"),
        format!("'x'{c}<a>"),
        format!("'x' {c} <a>"),
        format!("{c}<a> ::= 'x'"),
        format!("<a>{c}::= 'x'"),
        format!("<a> ::={c}'x'"),
        format!("<{c}> ::= '{c}'"),
        format!("<a> ::= 'x'{c}| <b>"),
        format!("<a> ::= 'x' |{c}<b>"),
        format!("<a> ::= 'x' | <b>{c}"),
        format!("<a> ::= 'x' ;{c}"),
        format!("'x' ;{c}"),
        format!("'x' ;{c}\n<a>"),
    ]
}

/// Different strings that look, fold, normalise, trim or unescape to one another.
pub fn confusable() -> Vec<String> {
    let mut v: Vec<&str> = vec![
        "", "a", "A", "hello", "Hello", "HELLO", "hELLO", "hello ", " hello", "hello\n", "\nhello", "hello\r\n", "\r\nhello",
        "hello\r", "hello\t", "\thello", "hello\0", "\0hello", "hello\u{feff}", "\u{feff}hello", "hello\u{200b}", "hello\u{a0}",
        "hello\u{85}", "hello\u{2028}", "hello;", "hello,", "hello\\", "hel lo", "hel  lo", "hel\tlo", "hel-lo", "hel_lo", "hellohello",
        "'hello'", "\"hello\"", "<hello>", "hello world", "HELLO WORLD", "Hello World", "hello_world", " ", "  ", "\n", "\r", "\r\n",
        "\n\n", "\t", "\0", "\u{feff}", "\u{200b}", "\u{a0}", "\u{85}", "\\n", "\\r\\n", "\\t", "\\0", "\\", "\\\\", "'", "\"", "\\'", "\\\"",
        "''", "&", "&amp;", "<", ">", "<>", "&lt;", "%x41", "%41", "\\x41", "\\u0041", "#", "0", "00", "01", "1", "１", "١", "é", "e\u{301}", "É",
        "E\u{301}", "e", "E", "ß", "ss", "SS", "ẞ", "ı", "i", "I", "İ", "k", "K", "\u{212a}", "ﬁ", "fi", "FI", "…", "...", "–", "-", "“", "”",
        "😀", "👨‍👩‍👧", "ά", "\u{1f71}", "å", "\u{212b}", "ſ", "s", "S", "σ", "ς", "Σ", "1e3", "1000", "+1", "-1", "true", "TRUE", "null", "ε", "()",
    ];
    v.dedup();
    v.into_iter().map(String::from).collect()
}

/// Spellings that some notation reads as an escape, a reference or a placeholder: every
/// introducer, body and end.
pub fn escapes() -> Vec<String> {
    let mut v = vec![];
    for pre in ["\\", "\\x", "\\u", "\\u{", "\\U", "\\N{", "&", "&#", "&#x", "#", "##", "#x", "%", "%%", "%x", "%d", "%u", "$", "${", "$(", "{", "{{", "0x", "U+", "=", "^", "@", "~", "<", "</", "<!--", "?", "\u{1b}["] {
        for body in ["", "n", "0", "0a", "0A", "41", "65", "34", "8364", "20AC", "000041", "101", "10ffff", "quot", "amp", "lt", "nbsp", "br", "name", "s", "x y"] {
            for end in ["", ";", "}", "}}", "\\", ")", "m", "/", "-"] {
                v.push(format!("{pre}{body}{end}"));
            }
        }
    }
    v.extend(RESERVED.iter().map(|s| s.to_string()));
    for pre in ["__anon", "_anon", "anon", "__opt", "__group", "__", "_", "$", "S"] {
        v.extend((0..13).map(|k| format!("{pre}{k}")));
        v.push(pre.to_string());
    }
    v
}

/// Names that other notations, tools or languages reserve.
pub const RESERVED: [&str; 64] = [
    "ALPHA", "BIT", "CHAR", "CR", "CRLF", "CTL", "DIGIT", "DQUOTE", "HEXDIG", "HTAB", "LF", "LWSP", "OCTET", "SP", "VCHAR", "WSP", "alpha", "digit", "letter", "space", "any", "EOF", "EOI", "SOI", "eof",
    "end", "EMPTY", "empty", "epsilon", "Epsilon", "lambda", "λ", "ϵ", "nil", "null", "none", "None", "void", "error", "undefined", "start", "START", "goal", "root", "S'", "s'", "__start", "__root", "main",
    "self", "Self", "super", "crate", "fn", "ignore", "skip", "WHITESPACE", "COMMENT", "include", "import", "$accept", "%empty", "?", "...",
];
