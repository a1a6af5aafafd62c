#!/usr/bin/env python3
"""Authoring-time tool (not run by any check): writes adapter/src/pieces/<version>.rs, which takes one part of a message through
every public way the generated types offer to build, wrap and name it: constructors, conversions into unions, constant accessors,
Display. The result is committed; it calls only the public API and contains no expectation."""
import os, re
SRC = "/repo/src/generated_schema"
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "adapter", "src", "pieces")
STD = [(r"::std::option::Option", "Option"), (r"::std::vec::Vec", "Vec"), (r"::std::string::String", "String"), (r"::std::collections::", "std::collections::")]
def norm(t):
    for a, b in STD:
        t = re.sub(a, b, t)
    return t.strip()
for v in ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]:
    text = open(f"{SRC}/{v}/mcp_schema.rs").read()
    code = "\n".join(l for l in text.split("\n") if not l.strip().startswith("//"))
    code = re.sub(r"/\*\*.*?\*/", "", code, flags=re.S)
    structs, enums = {}, {}
    for m in re.finditer(r"^pub (struct|enum) (\w+)([^{;]*)\{(.*?)^\}", code, re.M | re.S):
        kind, name, _, body = m.groups()
        if kind == "struct":
            structs[name] = re.findall(r"^    pub (\w+): (.*?),$(?=\s*(?:#|pub|[a-z_]+:|\Z))", body, re.M | re.S)
        else:
            enums[name] = [(a, norm(b or "")) for a, b in re.findall(r"^    (\w+)(?:\((.*)\))?,$", body, re.M)]
    for m in re.finditer(r"^pub struct (\w+)(?: \{\}|\()", code, re.M):
        structs.setdefault(m.group(1), [])
    news, consts, meths = {}, {}, {}
    for m in re.finditer(r"^impl (\w+) \{(.*?)^\}", code, re.M | re.S):
        name, body = m.groups()
        k = re.search(r"pub fn new\((.*?)\) -> Self", body, re.S)
        if k:
            news[name] = [(a, "") for a in re.findall(r"(?:^|,)\s*(\w+):(?!:)", k.group(1))]
        cs = []
        for f, sig in re.findall(r"pub fn (\w+)\(([^)]*)\) -> &'static str", body):
            cs.append(("static", f))
        for f, ret in re.findall(r"pub fn (\w+)\(&self\) -> (&[^{]*?) \{", body):
            if ret.strip() in ("&::std::string::String", "&str"):
                cs.append(("self", f))
            elif ret.strip() == "&RequestId":
                cs.append(("id", f))
            elif ret.strip() == "&::std::option::Option<::std::string::String>":
                cs.append(("opt", f))
        consts[name] = cs
    froms, prims = {}, {}
    utils = open(f"{SRC}/{v}/schema_utils.rs").read()
    for m in re.finditer(r"^impl (?:::std::convert::)?From<(.*)> for (\w+) \{", code + "\n" + utils, re.M):
        a, u = norm(m.group(1)), m.group(2)
        if u not in structs and u not in enums and u != "GenericResult" or a == "CallToolError" or u in froms.get(a, []) or "&" in a or "'" in a:
            continue
        if a in structs or a in enums:
            froms.setdefault(a, []).append(u)
        else:
            prims.setdefault(u, []).append(a)
    disp = re.findall(r"^impl ::std::fmt::Display for (\w+) ", code, re.M)
    o = ["// Written by tools/gen_pieces.py.", "use super::{put, word, form};", f"use rust_mcp_schema::mcp_{v} as mcp;", "use serde_json::{json, Map, Value};", ""]
    names = sorted(set(structs) | set(enums))
    o.append("#[allow(deprecated)]\npub fn piece(ty: &str, body: &Value) -> Value {\n    match ty {")
    for n in names:
        o.append(f'        "{n}" => p_{n}(body),')
    o.append("        _ => json!({\"none\": true}),\n    }\n}")
    for n in sorted(enums):
        if any(t for _, t in enums[n]):
            arms = []
            for a, t in enums[n]:
                arms.append(f'        mcp::{n}::{a}{"(_)" if t else ""} => "{t}",')
            o.append(f"#[allow(non_snake_case)]\nfn v_{n}(u: &mcp::{n}) -> &'static str {{\n    match u {{\n" + "\n".join(arms) + "\n    }\n}")
    for n in names:
        o.append(f"#[allow(non_snake_case, deprecated)]\nfn p_{n}(body: &Value) -> Value {{")
        o.append(f"    let t: mcp::{n} = match serde_json::from_value(body.clone()) {{\n        Ok(x) => x,\n        Err(e) => return json!({{\"unread\": e.to_string()}}),\n    }};")
        o.append("    let mut o = Map::new();\n    put(&mut o, \"enc\", &t);")
        if n in news:
            fs = dict(structs[n])
            if all(a in fs for a, _ in news[n]):
                o.append(f'    put(&mut o, "new", &mcp::{n}::new(' + ", ".join(f"t.{a}.clone()" for a, _ in news[n]) + "));")
            else:
                print(v, n, "constructor without matching members", news[n], list(fs))
        for kind, f in consts.get(n, []):
            if kind == "static":
                o.append(f'    word(&mut o, "{f}", mcp::{n}::{f}());')
            elif kind == "self":
                o.append(f'    word(&mut o, "{f}", t.{f}());')
            elif kind == "opt":
                o.append(f'    if let Some(x) = t.{f}() {{ word(&mut o, "{f}", x); }}')
            else:
                o.append(f'    put(&mut o, "={f}", t.{f}());')
        if n in disp:
            o.append('    word(&mut o, "display", &t.to_string());')
        if n in enums and any(t for _, t in enums[n]):
            o.append(f'    word(&mut o, "variant", v_{n}(&t));')
        for a in prims.get(n, []):
            o.append(f'    if let Ok(x) = serde_json::from_value::<{a if not re.match(r"Vec<[A-Z]", a) or a == "Vec<String>" else a.replace("Vec<", "Vec<mcp::")}>(body.clone()) {{ put(&mut o, "from {a}", &mcp::{n}::from(x)); }}')
        for u in froms.get(n, []):
            o.append(f'    put(&mut o, "into {u}", &mcp::{u}::from(t.clone()));')
            if u in enums:
                o.append(f'    word(&mut o, "kind {u}", v_{u}(&mcp::{u}::from(t.clone())));')
                o.append(f'    form::<mcp::{u}>(&mut o, "{u}", body, v_{u});')
        o.append("    Value::Object(o)\n}")
    open(f"{OUT}/v{v}.rs", "w").write("\n".join(o) + "\n")
    print(v, len(names), "types", len(news), "constructors", sum(map(len, froms.values())), "conversions")
