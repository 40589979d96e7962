
T = "libshpool/src/template.rs"
E = "libshpool/src/daemon/etc_environment.rs"
C = "libshpool/src/config.rs"
g = {}
exec(open("/verif/tools/seedspecs/s3.py").read(), g)
tt, et = g["tt"], g["et"]
def ct(body):
    return """
    #[test]
    fn t() {
        let d = std::env::temp_dir().join(format!("seedcfg{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        let f = |n: &str, t: &str| { let p = d.join(n); std::fs::write(&p, t).unwrap(); p };
        %s
        let _ = std::fs::remove_dir_all(&d);
    }
""" % body
SEEDS = [
    dict(id="P07-blank-gap", property="P07", module=T,
         edits=[(T, "            if start > 0 {\n", "            if !rest[..start].trim().is_empty() {\n")],
         test=tt("{a} {b}", '("a", "x"), ("b", "y")', 'Some("x y")'),
         needs="a template whose text between two substitutions is only blanks",
         what="the blank is dropped, so a command such as `{cmd} {arg}` becomes one word"),
    dict(id="P08-quoted-equals", property="P08", module=E,
         edits=[(E, "let parts: Vec<_> = line.splitn(2, '=').collect();", "let line = line.trim_end_matches('=');\n                let parts: Vec<_> = line.splitn(2, '=').collect();")],
         test=et('"A=b==\\n"', '("A", "b==")'),
         needs="a value that ends in an equals sign (base64 padding, say)",
         what="the trailing equals signs of the value are lost"),
    dict(id="P09-option-mixup", property="P09", module=C,
         edits=[(C, "output_spool_lines: self.output_spool_lines.or(another.output_spool_lines),", "output_spool_lines: another.output_spool_lines.or(self.output_spool_lines),")],
         test=ct("""let (a, b) = (f("a.toml", "output_spool_lines = 1\\n"), f("b.toml", "output_spool_lines = 2\\n"));
        let c = Manager::load(&[a, b]).unwrap();
        assert_eq!(c.output_spool_lines, Some(2));"""),
         needs="two configuration files that both set output_spool_lines",
         what="the weaker file decides one option"),
    dict(id="P09-empty-list-unset", property="P09", module=C,
         edits=[(C, "forward_env: self.forward_env.or(another.forward_env),", "forward_env: self.forward_env.filter(|v| !v.is_empty()).or(another.forward_env),")],
         test=ct("""let (a, b) = (f("a.toml", "forward_env = ['X']\\n"), f("b.toml", "forward_env = []\\n"));
        let c = Manager::load(&[a, b]).unwrap();
        assert_eq!(c.forward_env, Some(vec![]));"""),
         needs="a user configuration that sets an option to an empty list to override the system's",
         what="the override is ignored"),
]
