T = "libshpool/src/template.rs"
E = "libshpool/src/daemon/etc_environment.rs"
def tt(src, vars_, want):
    return '''
    #[test]
    fn t() {
        let vars: HashMap<String, String> = [%s].into_iter().map(|(k, v): (&str, &str)| (k.to_string(), v.to_string())).collect();
        let got = Template::new("%s").ok().map(|t| t.apply(&vars));
        assert_eq!(got.as_deref(), %s);
    }
''' % (vars_, src, want)
def et(text, want):
    return '''
    #[test]
    fn t() {
        let got = parse_compat(std::io::Cursor::new(%s)).unwrap();
        let want: Vec<(String, String)> = vec![%s].into_iter().map(|(k, v): (&str, &str)| (k.to_string(), v.to_string())).collect();
        assert_eq!(got, want);
    }
''' % (text, want)
SEEDS = [
    dict(id="P07-unicode-digit-name", property="P07", module=T,
         edits=[(T, "is_some_and(|c| !c.is_numeric())", "is_some_and(|c| !c.is_ascii_digit())")],
         test=tt("{\\u{663}x}", '', 'None'),
         needs="a variable name starting with a non-ASCII digit",
         what="a name starting with a digit is accepted"),
    dict(id="P07-stale-closer", property="P07", module=T,
         edits=[(T, "let end = rest.find('}').ok_or_else(|| anyhow!(\"unclosed var substitution\"))?;",
                    "let end = rest\n                .find('}')\n                .or_else(|| if chunks.is_empty() { None } else { Some(rest.len()) })\n                .ok_or_else(|| anyhow!(\"unclosed var substitution\"))?;"),
                (T, "            rest = &rest[end + 1..];", "            rest = rest.get(end + 1..).unwrap_or(\"\");")],
         test=tt("x{a", '("a", "1")', 'None'),
         needs="an unclosed substitution that is not the first thing in the template",
         what="an unclosed substitution is accepted when something precedes it"),
    dict(id="P08-quote-order", property="P08", module=E,
         edits=[(E, "                    val = val.strip_suffix('\\'').unwrap_or(val);\n                    val = val.strip_suffix('\"').unwrap_or(val);",
                    "                    val = val.strip_suffix('\"').unwrap_or(val);\n                    val = val.strip_suffix('\\'').unwrap_or(val);")],
         test=et('"A=\\"it\'\\"\\n"', '("A", "it\'")'),
         needs="a double-quoted value whose last character is a single quote",
         what="one character too many is stripped from the value"),
    dict(id="P08-unicode-key", property="P08", module=E,
         edits=[(E, "all(|c| c.is_ascii_alphanumeric() || c == '_')", "all(|c| c.is_alphanumeric() || c == '_')")],
         test=et('"\\u{e9}t\\u{e9}=1\\nB=2\\n"', '("B", "2")'),
         needs="a key with a non-ASCII letter", what="a variable with a key pam_env refuses is set"),
]
