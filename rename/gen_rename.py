"""Writes gen/main.rs and gen/reject.rs: types with random identifiers under every rename_all rule, with the
names expected by the documented case rules worked out here, from words, not from the code."""
import random, sys, os

RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
KEYWORDS = """as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return
self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv
typeof unsized virtual yield try gen union""".split()
RAW = ["type", "match", "fn", "move", "loop", "async", "dyn", "mod", "ref", "use"]

def cap(w): return w[:1].upper() + w[1:]

def field_name(words, rule):
    # words: of a snake_case identifier
    return {
        None: "_".join(words), "lowercase": "_".join(words), "snake_case": "_".join(words),
        "UPPERCASE": "_".join(words).upper(), "SCREAMING_SNAKE_CASE": "_".join(words).upper(),
        "PascalCase": "".join(map(cap, words)),
        "camelCase": words[0] + "".join(map(cap, words[1:])),
        "kebab-case": "-".join(words), "SCREAMING-KEBAB-CASE": "-".join(words).upper(),
    }[rule]

def variant_name(words, rule):
    # words: capitalised words of an UpperCamelCase identifier
    low = [w.lower() for w in words]
    return {
        None: "".join(words), "PascalCase": "".join(words),
        "lowercase": "".join(low), "UPPERCASE": "".join(words).upper(),
        "camelCase": words[0].lower()[:1] + words[0][1:] + "".join(words[1:]),
        "snake_case": "_".join(low), "SCREAMING_SNAKE_CASE": "_".join(low).upper(),
        "kebab-case": "-".join(low), "SCREAMING-KEBAB-CASE": "-".join(low).upper(),
    }[rule]

def word(r, first):
    n = r.choice([1, 1, 2, 3, 5, 9])
    al = "abcdefghijklmnopqrstuvwxyz"
    s = r.choice(al if first or r.random() < .85 else "0123456789")
    return s + "".join(r.choice(al + "0123456789" if r.random() < .4 else al) for _ in range(n - 1))

def main():
    seed, out = int(sys.argv[1]), sys.argv[2]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 5
    r = random.Random(f"ixrename {seed}")
    o = ["// generated by gen_rename.py, seed %d" % seed,
         "use instant_xml::{from_str, to_string, FromXml, ToXml};",
         "fn same<T: PartialEq + std::fmt::Debug>(what: &str, doc: &str, v: &T, back: Result<T, instant_xml::Error>, written: Result<String, instant_xml::Error>) {",
         "    if written.as_deref() != Ok(doc) { println!(\"FAIL {what}: writes {written:?} instead of {doc}\"); }",
         "    if back.as_ref() != Ok(v) { println!(\"FAIL {what}: {doc} is read as {back:?} instead of {v:?}\"); }",
         "}"]
    body, total = [], 0
    for k in range(n * 9):
        rule = ([None] + RULES)[k % 9]
        ra = f'#[xml(rename_all = "{rule}")]' if rule else ""
        fields, seen, idents = [], set(), set()
        for _ in range(r.randint(2, 8)):
            words = [word(r, i == 0) for i in range(r.choice([1, 1, 2, 2, 3, 4]))]
            raw = False
            if r.random() < .12:
                words, raw = [r.choice(RAW)], True
            ident = "_".join(words)
            if (ident in KEYWORDS and not raw) or ident in idents:
                continue
            ren = None
            if r.random() < .15:
                ren = r.choice(["Kept_As-is", "x", "UPPER", "a.b", "tWo_words-3"]) + str(len(fields))
            name = ren or field_name(words, rule)
            if name in seen:
                continue
            idents.add(ident); seen.add(name)
            fields.append((("r#" if raw else "") + ident, name, ren, r.choice(["attr", "el", "el", "vec", "opt"])))
        fields.sort(key=lambda f: 0)
        o.append("#[derive(Debug, PartialEq, FromXml, ToXml)]\n%s\nstruct S%d {" % (ra, k))
        attrs, els, vals = "", "", []
        for i, (ident, name, ren, kind) in enumerate(fields):
            at = [a for a in ["attribute" if kind == "attr" else None, f'rename = "{ren}"' if ren else None] if a]
            ty = {"attr": "u8", "el": "u8", "vec": "Vec<u8>", "opt": "Option<u8>"}[kind]
            o.append("    %s %s: %s," % (f"#[xml({', '.join(at)})]" if at else "", ident, ty))
            vals.append("%s: %s" % (ident, {"attr": f"{i}", "el": f"{i}", "vec": f"vec![{i}, 1]", "opt": f"Some({i})"}[kind]))
            if kind == "attr": attrs += f' {name}="{i}"'
            elif kind == "vec": els += f"<{name}>{i}</{name}><{name}>1</{name}>"
            else: els += f"<{name}>{i}</{name}>"
        o.append("}")
        doc = f"<S{k}{attrs}>{els}</S{k}>" if els else f"<S{k}{attrs} />"
        body.append('    { let v = S%d { %s }; let doc = r###"%s"###; same("struct S%d rename_all %s", doc, &v, from_str(doc), to_string(&v)); }' % (k, ", ".join(vals), doc, k, rule))
        total += 2 * len(fields)
        # enum
        vs, seen, idents = [], set(), set()
        for _ in range(r.randint(2, 8)):
            words = [cap(word(r, True)) for i in range(r.choice([1, 1, 2, 2, 3, 4]))]
            words = [w for w in words if w[0].isalpha()]
            ident = "".join(words)
            ren = r.choice(["Kept_As-is", "x", "UPPER", "two words", "tWo_words-3"]) + str(len(vs)) if r.random() < .15 else None
            # the words of the identifier are split at its capitals
            name = ren or variant_name(words, rule)
            if ident in idents or name in seen or ident == "Self":
                continue
            idents.add(ident); seen.add(name)
            vs.append((ident, name, ren))
        era = f'#[xml(scalar, rename_all = "{rule}")]' if rule else "#[xml(scalar)]"
        o.append("#[derive(Debug, PartialEq, FromXml, ToXml)]\n%s\nenum E%d { %s }" % (era, k, ", ".join((f'#[xml(rename = "{ren}")] ' if ren else "") + ident for ident, _, ren in vs)))
        o.append("#[derive(Debug, PartialEq, FromXml, ToXml)]\nstruct W%d { #[xml(attribute)] a: E%d, e: E%d }" % (k, k, k))
        for i, (ident, name, _) in enumerate(vs):
            i2, n2, _ = vs[(i + 1) % len(vs)]
            doc = f'<W{k} a="{name}"><e>{n2}</e></W{k}>'
            body.append('    { let v = W%d { a: E%d::%s, e: E%d::%s }; let doc = r###"%s"###; same("enum E%d::%s rename_all %s", doc, &v, from_str(doc), to_string(&v)); }' % (k, k, ident, k, i2, doc, k, ident, rule))
            total += 2
    o.append("fn main() {")
    o += body
    o.append('    println!("CHECKED %d names");\n}' % total)
    os.makedirs(out, exist_ok=True)
    open(out + "/main.rs", "w").write("\n".join(o) + "\n")
    bad = ["lower", "Lowercase", "UPPER_CASE", "pascalcase", "camel-case", "snake-case", "SCREAMING_KEBAB_CASE", "kebab_case", "", " lowercase", "lowercase ", "SCREAMING-SNAKE-CASE", "Title Case", "none"]
    bad += ["".join(r.choice("abcXYZ_- ") for _ in range(r.randint(1, 8))) for _ in range(4)]
    rej = []
    for i, b in enumerate(bad):
        rej.append(f'#[derive(instant_xml::{"ToXml" if i % 2 else "FromXml"})] #[xml(rename_all = "{b}")] pub struct B{i} {{ pub a: u8 }}')
    open(out + "/reject.rs", "w").write("\n".join(rej) + "\n")

main()
