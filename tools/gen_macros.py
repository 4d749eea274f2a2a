#!/usr/bin/env python3
"""gen_macros.py SEED CLASSES SCENES OUT: writes random class! declarations and scene! literals, and what they have to come to.

What is expected is worked out here from the declaration alone, as literals; the program compares instances with it."""
import random, sys

# type: [(expression, literal it is equal to)], default literal or None, exportable
TYPES = {
    "u8":             ([("7", "7"), ("3 + 4", "7"), ("{ let q = 2; q * 3 }", "6"), ("Self_::three()", "3"), ("u8::MAX", "255")], "0", True),
    "i64":            ([("-5", "-5"), ("1 - 9", "-8"), ("-(2 + 3) * 2", "-10"), ("if true { -1 } else { 1 }", "-1")], "0", True),
    "u64":            ([("1 << 40", "1099511627776"), ("helper(20)", "21"), ("{ 10u64.pow(3) }", "1000")], "0", True),
    "f32":            ([("1.5", "1.5"), ("-0.25", "-0.25"), ("3.0 / 2.0", "1.5")], "0.0", True),
    "f64":            ([("2.5e10", "2.5e10"), ("-1.0 * 3.0", "-3.0")], "0.0", True),
    "bool":           ([("!false", "true"), ("1 > 2", "false"), ("true && !false", "true")], "false", True),
    "char":           ([("'x'", "'x'"), ("'é'", "'é'"), ("(b'a' + 1) as char", "'b'")], "'\\0'", True),
    "String":         ([('"a".to_string() + "b"', '"ab".to_string()'), ('format!("{}-{}", 1, 2)', '"1-2".to_string()'), ("String::new()", '"".to_string()'),
                        ('match 3 { 3 => "three", _ => "other" }.to_string()', '"three".to_string()')], '"".to_string()', True),
    "Option<u8>":     ([("Some(3)", "Some(3u8)"), ("None", "None::<u8>"), ("Some(3).filter(|x| *x > 5)", "None::<u8>")], "None::<u8>", True),
    "Vec<i32>":       ([("vec![1, 2, 3]", "vec![1, 2, 3]"), ("(0..4).collect()", "vec![0, 1, 2, 3]"), ("Vec::new()", "Vec::<i32>::new()")], "Vec::<i32>::new()", True),
    "(u8, String)":   ([('(1, "b".into())', '(1u8, "b".to_string())')], '(0u8, "".to_string())', True),
    "[u16; 3]":       ([("[1, 2, 3]", "[1u16, 2, 3]"), ("[9; 3]", "[9u16, 9, 9]")], "[0u16, 0, 0]", True),
    "Option<Vec<(u8, bool)>>": ([("Some(vec![(1, true)])", "Some(vec![(1u8, true)])"), ("None", "None::<Vec<(u8, bool)>>")], "None::<Vec<(u8, bool)>>", True),
    "std::collections::BTreeMap<String, i64>": ([('[("k".to_string(), 4)].into_iter().collect()', 'std::collections::BTreeMap::from([("k".to_string(), 4i64)])')],
                        "std::collections::BTreeMap::<String, i64>::new()", True),
    "&'static str":   ([('"s"', '"s"'), ('"a b"', '"a b"')], '""', False),
    "Box<Option<Kind>>": ([("Box::new(Some(Kind::Two(2)))", "Box::new(Some(Kind::Two(2)))")], "Box::new(None::<Kind>)", False),
    "Kind":           ([("Kind::One", "Kind::One"), ("Kind::Three { x: 1 + 1 }", "Kind::Three { x: 2 }")], "Kind::One", False),
    "std::rc::Rc<std::cell::Cell<u8>>": ([("std::rc::Rc::new(std::cell::Cell::new(3))", "std::rc::Rc::new(std::cell::Cell::new(3u8))")], "std::rc::Rc::new(std::cell::Cell::new(0u8))", False),
    "Unique0":        ([("Unique0(3)", "Unique0(3)"), ("Unique0(1 + 1)", "Unique0(2)")], "Unique0(0)", False),
    "Roll":           ([("Roll(3)", "Roll(3)"), ("{ let r = Roll(2); r }", "Roll(2)")], "Roll(0)", False),
    "Unique1":        ([("Unique1(3)", "Unique1(3)")], "Unique1(0)", False),
    "*const u8":      ([("std::ptr::null()", "std::ptr::null::<u8>()"), ("8 as *const u8", "8usize as *const u8")], None, False),
    "[[i8; 2]; 2]":   ([("[[1, -2]; 2]", "[[1i8, -2], [1, -2]]")], "[[0i8, 0], [0, 0]]", False),
    "std::collections::HashMap<u8, Vec<String>>": ([("Default::default()", "std::collections::HashMap::<u8, Vec<String>>::new()")], "std::collections::HashMap::<u8, Vec<String>>::new()", False),
}
WRAP = {"plain": "Field", "export": "ExportableField", "export default": "ExportableField", "unique": "UniqueField", "default": "DefaultField"}
FIELD_NAMES = ["alpha", "beta", "node", "scene", "value", "_under", "x1", "r#type", "camelCase", "name_", "tree", "args", "item", "owner_", "self_", "result", "data", "signal", "default_value", "extends", "declare", "hk"]
SIGNALS = [([], "()", "()", None), (["u8"], "u8", "5u8", None), (["Vec<String>"], "Vec<String>", 'vec!["q".to_string()]', None), (["(u8, i64)"], "(u8, i64)", "(1u8, -3i64)", None),
           (["u8", "String"], "(u8, String)", '(4u8, "s".to_string())', None), (["bool", "char", "i64"], "(bool, char, i64)", "(true, 'z', -1i64)", None),
           (["Option<Kind>"], "Option<Kind>", "Some(Kind::Two(9))", None)]
TRAITS = ["Alpha", "Beta", "Gamma"]
# Names of the standard library that a class, or something else next to it, may have as well.
SHADOWED = ["Box", "String", "Result", "Option", "Vec", "Debug", "Clone", "Node", "Exportable", "NodeBase", "Registered", "Instanceable", "Default", "HashMap", "Ok", "Err", "Unique2", "AsElement", "NodeTreeBase", "NodePath", "TreeOption", "Abstract", "Register", "RID", "FieldMap", "Self_"]
BESIDE = ["pub type Result<T> = std::result::Result<T, ()>;", "pub struct Box;", "pub type String = u8;", "pub trait Exportable { fn from_value(); }", "pub type Result = std::fmt::Result;", "pub trait Voidable {}", "pub enum Unique2 { A }"]
PLAIN_TYPES = ["u8", "i64", "u64", "f32", "bool", "char", "[u16; 3]", "Kind", "Unique0", "*const u8"]
MODES = [None, "Inherit", "Always", "Pausable", "Inverse"]


class Field:
    pass


class Class:
    pass


def gen_class(r, i):
    c = Class()
    c.i = i
    c.name = r.choice([f"C{i}", f"Thing{i}", f"snake_case_{i}", f"SHOUT{i}", f"Ünï{i}"])
    c.pub = r.random() < 0.7
    # One whose name, or something beside it, hides a name that is used by most programs: nothing of it names those.
    c.apart = c.pub and r.random() < 0.2
    c.beside = []
    if c.apart:
        if r.random() < 0.5:
            c.name = r.choice(SHADOWED)
        c.beside = [b for b in r.sample(BESIDE, r.choice([0, 1, 2])) if f" {c.name}" not in b.split("=")[0].split("{")[0]]
        if sum("Result" in b.split("=")[0] for b in c.beside) > 1:
            c.beside = []
    c.extends = r.sample(TRAITS, r.choice([0, 0, 1, 1, 2, 3]))
    if c.name == "Box" or any("Box" in b for b in c.beside):
        c.extends = []    # What a cast is made from (of another library) names it.
    c.trailing = r.random() < 0.5
    names = r.sample(FIELD_NAMES, r.choice([0, 1, 2, 3, 4, 6, 9, 14]))
    c.fields, c.args, body = [], [], []
    for n in names:
        f = Field()
        f.name = n
        f.pub = r.random() < 0.5
        f.kind = r.choice(list(WRAP))
        while True:
            f.ty = r.choice(PLAIN_TYPES if c.apart else list(TYPES))
            values, default, exportable = TYPES[f.ty]
            if f.kind.startswith("export") and not exportable or f.kind in ("default", "export default") and default is None:
                continue
            break
        f.default = default
        f.init = None
        expr, lit = r.choice(values)
        if f.kind == "default":
            f.expected = default
        elif f.kind == "export default":
            if r.random() < 0.5:
                f.init, f.expected = expr, lit
            else:
                f.expected = default
        elif r.random() < 0.5:
            f.init, f.expected = expr, lit
        else:
            # From the constructor.
            how = r.randrange(4)
            if how == 0:
                c.args.append((n, f.ty, lit))
            elif how == 1:
                c.args.append((f"{n.replace('r#', '')}_given", f.ty, lit))
                body.append(f"let {n}: {f.ty} = {c.args[-1][0]};")
            elif how == 2:
                body.append(f"let {n} = {{ let inner: {f.ty} = {expr}; inner }};")
            else:
                c.args.append((f"flag{len(c.args)}", "bool", "true"))
                body.append(f"let {n}: {f.ty};\n        if {c.args[-1][0]} {{ {n} = {expr}; }} else {{ unreachable!(); }}")
            f.expected = lit
        c.fields.append(f)
    for _ in range(r.choice([0, 0, 0, 1])):
        c.args.append((f"unused{len(c.args)}", "u8", "0"))
    r.shuffle(c.args)
    if r.random() < 0.3:
        body.append("note(\"made\");")
        c.notes_new = True
    else:
        c.notes_new = False
    c.has_init = bool(c.args or body) or r.random() < 0.3
    c.body = body
    c.consts = [(f"K{k}", t, e, l) for k, (t, e, l) in enumerate(r.sample(
        [("u64", "5", "5"), ("&'static str", '"const"', '"const"'), ("[u8; 2]", "[1, 2]", "[1u8, 2]"), ("i32", "-(3 * 4)", "-12"), ("std::option::Option<Kind>", "None", "None::<Kind>"), ("usize", "\"four\".len()", "4")],
        r.choice([0, 0, 1, 2, 3])))]
    c.signals = [(f"on_{'abcd'[k]}", s, r.random() < 0.5) for k, s in enumerate(r.choices([SIGNALS[k] for k in (0, 1, 3)] if c.apart else SIGNALS, k=r.choice([0, 0, 1, 2, 3])))]
    c.hooks = [h for h in ["loaded", "ready", "process", "terminal"] if r.random() < 0.5]
    c.mode = r.choice(MODES)
    c.align = r.choice([16, 64, 128]) if r.random() < 0.3 else None
    c.traced = r.random() < 0.3
    if c.traced:
        body.append("let made_at: u32 = std::panic::Location::caller().line();")
        c.has_init = True
    c.old = {n for n in [f.name for f in c.fields] + [n for n, _, _ in c.signals] if r.random() < 0.15}    # Marked as deprecated.
    c.funcs = r.sample(["plain", "assoc", "generic", "mutable", "consume", "whole", "calls", "line"], r.choice([0, 1, 2, 4, 8]))
    if c.apart and c.name == "Clone":
        c.funcs = [f for f in c.funcs if f != "generic"]
    if "calls" in c.funcs and "assoc" not in c.funcs:
        c.funcs.append("assoc")
    # The source.
    doc = lambda text: r.choice(["", "", f"/// {text}\n    ", f"#[allow(dead_code)]\n    ", f"/// {text}\n    #[allow(unused)] ", f"#[doc = \"{text}\"] "])
    vis = lambda p: "pub " if p else ""
    old = lambda n: r.choice(["#[deprecated] ", "#[deprecated = \"old\"]\n    ", "#[deprecated(note = \"old\")]\n    "]) if n in c.old else ""
    c.shown = {}
    items = []
    for f in c.fields:
        init = f" = {f.init.replace('Self_', c.name)}" if f.init is not None else ""
        kind = "" if f.kind == "plain" else f.kind + r.choice([" ", "  "])
        items.append(f"{old(f.name)}{doc('field')}{vis(f.pub)}{kind}let {f.name}: {f.ty}{init};")
    for n, t, e, _ in c.consts:
        c.shown[n] = r.random() < 0.5
        items.append(f"{doc('const')}{vis(c.shown[n])}const {n}: {t} = {e};")
        if r.random() < 0.2:
            items.append(f"#[cfg(any())]\n    {vis(r.random() < 0.5)}const {n}: {t} = never();")
    for n, (args, _, _, _), p in c.signals:
        items.append(f"{old(n)}{doc('signal')}{vis(p)}signal {n}({', '.join(f'p{k}: {t}' for k, t in enumerate(args))}{',' if args and r.random() < 0.3 else ''});")
    if c.has_init:
        args = ", ".join(f"{n}: {t}" for n, t, _ in c.args) + ("," if c.args and r.random() < 0.3 else "")
        body = "\n        ".join(b.replace("Self_", c.name) for b in c.body)
        items.append(f"#[allow(unused)]{' #[track_caller]' if c.traced else ''}\n    hk _init({args}) {{\n        {body}\n    }}")
    for h in c.hooks:
        arg = {"loaded": "&mut self", "ready": "&mut self", "process": r.choice(["&mut self, delta: f32", "&mut self, _: f32", "&mut self, _delta: f32,"]), "terminal": r.choice(["&mut self, reason: TerminationReason", "&mut self, _r: TerminationReason"])}[h]
        extra = {"terminal": " if reason == TerminationReason::Freed { note(\"freed\"); }" if "reason" in arg else "", "process": " assert!(delta >= 0.0);" if " delta" in arg else ""}.get(h, "")
        items.append(f"{doc('hook')}hk {h}({arg}) {{ note(\"{h}\");{extra}{r.choice(['', ' if self.name().is_empty() { return; }'])} }}")
        if r.random() < 0.2:
            items.append(f"#[cfg(any())]\n    hk {h}({arg}) {{ note(\"never\"); }}")
    if c.traced:
        items.append("let made_at: u32;")
    if c.mode:
        items.append(f"{doc('mode')}hk process_mode(&self) -> ProcessMode {{ {r.choice(['', 'return '])}ProcessMode::{c.mode} }}")
    src = {
        "plain":    "fn plain(&self, a: u64) -> u64 { a * 3 + self.name().len() as u64 }",
        "assoc":    "fn three() -> u8 { 3 }",
        "generic":  "fn twice<T: Clone>(x: T) -> (T, T) where T: PartialEq { (x.clone(), x) }",
        "mutable":  "fn rename_me(&mut self, to: &str) -> &mut Self { self.set_name(to); self }",
        "consume":  "fn consume(self) -> std::string::String { self.name().to_string() }",
        "whole":    "fn whole<'a>(&'a self, other: &'a str, n: usize) -> &'a str { if n > 1 { self.name() } else { other } }",
        "calls":    "fn calls(&self) -> u8 { Self::three() + 1 }",
        "line":     "fn line() -> u32 { std::panic::Location::caller().line() }",
    }
    if any("Self_::three" in (f.init or "") for f in c.fields) or any("Self_" in b for b in c.body):
        if "assoc" not in c.funcs:
            c.funcs.append("assoc")
    for fn in c.funcs:
        c.shown[fn] = r.random() < 0.6
        items.append(f"{doc('function')}{'#[track_caller] ' if fn == 'line' else ''}{vis(c.shown[fn])}{src[fn]}")
        if r.random() < 0.15:
            items.append(f"#[cfg(any())] {vis(r.random() < 0.6)}{src[fn].split('{')[0]}{{ never() }}")
    r.shuffle(items)
    ext = f" extends {', '.join(c.extends)}" if c.extends else ""
    head = (f"#[repr(align({c.align}))]\n    " if c.align else "") + r.choice(["", "/// A class.\n    ", "#[allow(dead_code, non_camel_case_types)]\n    ", "/// A class.\n    ///\n    /// With more to it.\n    #[allow(dead_code)]\n    "])
    c.source = f"class! {{\n    {head}{vis(c.pub)}declare {c.name}{ext};\n    " + "\n    ".join(items) + "\n}\n"
    for t in TRAITS:
        c.source += f"impl {t} for {c.name} {{ fn who(&self) -> std::string::String {{ format!(\"{t} {{}}\", self.name()) }} }}\n"
    return c


def call(c):
    return f"{c.name}::new({', '.join(l for _, _, l in c.args)})"


def check_class(c):
    o = []
    o.append(f"pub fn class_{c.i}() {{")
    o.append("    notes();")
    if c.apart:
        o.append("    count(\"names_hidden\");")
    if c.align:
        o.append(f"    same(\"alignment that an attribute asks for\", std::mem::align_of::<{c.name}>(), {c.align}); count(\"attributes\");")
    if c.traced:
        o.append(f"    {{ let n = {call(c)}; same(\"line on which the constructor was called\", *n.made_at, line!()); count(\"attributes\"); notes(); }}")
    for n in sorted(c.old):
        o.append(f"    {{ #[expect(deprecated)] fn old(n: &{c.name}) {{ let _ = &n.{n}; }} count(\"attributes\"); }}")
    o.append(f"    let n = {call(c)};")
    o.append(f"    expect(\"what the constructor does\", notes(), &{'[\"made\"]' if c.notes_new else '[]'});")
    o.append(f"    same(\"name\", n.name().to_string(), \"{c.name}\".to_string());")
    o.append(f"    same(\"type\", n.name_as_type(), std::any::type_name::<{c.name}>().to_string());")
    for f in c.fields:
        o.append(f"    {{ let f: &{WRAP[f.kind]}<{f.ty}> = &n.{f.name}; same(\"field {f.name}\", &**f, &({f.expected})); }}")
    for n, _, _, l in c.consts:
        o.append(f"    same(\"constant {n}\", {c.name}::{n}, {l});")
    for n, (args, ty, val, _), _ in c.signals:
        o.append(f"    {{ let s: &Signal<{ty}> = &n.{n}; let heard = std::rc::Rc::new(std::cell::RefCell::new(std::vec::Vec::new())); let h = heard.clone();")
        o.append(f"      unsafe {{ s.connect(move |v: &{ty}| h.borrow_mut().push(v.clone())); }} let v: {ty} = {val}; s.emit(v.clone()); s.emit(v.clone());")
        o.append(f"      same(\"signal {n}\", heard.borrow().clone(), vec![v.clone(), v]); }}")
    for fn in c.funcs:
        o.append({
            "plain":    f"    same(\"function\", n.plain(5), 15 + \"{c.name}\".len() as u64);",
            "assoc":    f"    same(\"function\", {c.name}::three(), 3);",
            "generic":  f"    same(\"function\", {c.name}::twice(\"t\"), (\"t\", \"t\"));",
            "mutable":  f"    {{ let mut m = {call(c)}; same(\"function\", m.rename_me(\"else\").name().to_string(), \"else\".to_string()); }}",
            "consume":  f"    same(\"function\", {call(c)}.consume(), \"{c.name}\".to_string());",
            "whole":    f"    same(\"function\", (n.whole(\"o\", 2), n.whole(\"o\", 1)), (\"{c.name}\", \"o\"));",
            "calls":    f"    same(\"function\", n.calls(), 4);",
            "line":     f"    same(\"line on which a function was called\", {c.name}::line(), line!()); count(\"attributes\");",
        }[fn])
    # A copy.
    o.append("    let copy = n.clone();")
    for f in c.fields:
        if f.kind == "unique":
            o.append(f"    same(\"copy of unique field {f.name}\", copy.{f.name}.is_void(), true);")
        else:
            o.append(f"    same(\"copy of field {f.name}\", &*copy.{f.name}, &({f.expected}));")
    for n, (_, ty, val, _), _ in c.signals:
        o.append(f"    copy.{n}.emit({val});")
    # Saved and loaded.
    o.append(f"    let text = NodeScene::new(n).save_to_str().expect(\"a class that cannot be saved\");")
    o.append(f"    let loaded = NodeScene::load_from_str(&text).expect(\"a class that cannot be loaded\");")
    o.append(f"    {{ let l = peek::<{c.name}>(&loaded);")
    o.append(f"      same(\"loaded name\", l.name().to_string(), \"{c.name}\".to_string());")
    for f in c.fields:
        if f.kind.startswith("export"):
            o.append(f"      same(\"loaded field {f.name}\", &*l.{f.name}, &({f.expected}));")
        elif f.kind == "default":
            o.append(f"      same(\"loaded default field {f.name}\", &*l.{f.name}, &({f.default}));")
        else:
            o.append(f"      same(\"loaded field {f.name}\", l.{f.name}.is_void(), true);")
    o.append("      let _ = l; }")
    # In a tree.
    bits = ", ".join(str(t in c.extends).lower() for t in TRAITS)
    hooks = ", ".join(str(h in c.hooks).lower() for h in ["loaded", "ready", "process", "terminal"])
    freed = "note(\"freed\")" in c.source
    o.append("    notes();")
    o.append(f"    let fresh = NodeScene::new({call(c)}); notes();")
    o.append(f"    lives(fresh, false, [{hooks}], {str(freed).lower()}, ProcessMode::{c.mode or 'Inherit'}, [{bits}], \"{c.name}\");")
    o.append(f"    lives(loaded, true, [{hooks}], {str(freed).lower()}, ProcessMode::{c.mode or 'Inherit'}, [{bits}], \"{c.name}\");")
    o.append("}\n")
    return "\n".join(o)


def check_outside(c):
    """What is public is there for other modules too."""
    o = [f"fn outside_{c.i}() {{", "    notes();", f"    let mut n = m{c.i}::{call(c)}; let _ = &mut n;"]
    see = lambda what, is_, should: o.append(f"    same(\"{what}\", {is_}, {should}); count(\"seen_from_outside\");")
    for f in c.fields:
        if f.pub:
            see(f"public field {f.name}", f"&*n.{f.name}", f"&({f.expected})")
    for k, _, _, l in c.consts:
        if c.shown[k]:
            see(f"public constant {k}", f"m{c.i}::{c.name}::{k}", l)
    for k, (_, ty, val, _), p in c.signals:
        if p:
            see(f"public signal {k}", f"{{ let s: &Signal<{ty}> = &n.{k}; s.emit({val}); 1 }}", "1")
    for fn in c.funcs:
        if c.shown[fn]:
            what = {"plain": "n.plain(5)", "assoc": f"m{c.i}::{c.name}::three()", "generic": f"m{c.i}::{c.name}::twice(1).0", "mutable": 'n.rename_me("else").name().to_string()', "consume": f"m{c.i}::{call(c)}.consume()",
                    "whole": 'n.whole("o", 1)', "calls": "n.calls()", "line": f"m{c.i}::{c.name}::line()"}[fn]
            o.append(f"    let _ = {what}; count(\"seen_from_outside\");")
    o.append("}\n")
    return "\n".join(o)


def pick_name(r):
    return r.choice(["Root", "a b", "N1", "ünï", "x_1", "node", "scene", "42", "Same", "Same", "Same1"])


def gen_scene(r, classes, i, size, links):
    """A scene literal, how it is put together by hand, and what it has to look like."""
    nodes = 0

    def one(depth):
        nonlocal nodes
        nodes += 1
        c = r.choice(classes)
        path = r.choice([c.name, c.name, f"crate::made::{c.name}", f"super::made::{c.name}" if False else c.name, f"self::{c.name}"])
        args = ", ".join(l for _, _, l in c.args)
        if c.args and r.random() < 0.3:
            args = args + ","
        params = f"({args})" if c.args or r.random() < 0.3 else ""
        name = pick_name(r) if r.random() < 0.5 else None
        fields = [f for f in c.fields if f.pub or not c.pub]
        settings = []
        for f in (r.sample(fields, r.randint(1, min(4, len(fields)))) if fields and r.random() < 0.5 else []):
            expr, lit = r.choice(TYPES[f.ty][0])
            if any(x in expr for x in ("collect()", "new()", "null()", "Default::", "None", "filter", ".into()", "[1, 2, 3]", "[9; 3]", "Some(")) and "String::new" not in expr:
                expr = f"{{ let value: {f.ty} = {expr}; value }}"      # The type of a setting is not inferred from its field.
            if "Self_" in expr:
                expr = "u8::from(c_three())"
            settings.append((f, expr, lit))
        if settings and r.random() < 0.2:
            # The same field once more: the last setting holds.
            f, expr, lit = r.choice(settings)
            again, other = r.choice([v for v in TYPES[f.ty][0]])
            if not any(x in again for x in ("collect()", "new()", "null()", "Default::", "None", "filter", ".into()", "[1, 2, 3]", "[9; 3]", "Some(", "Self_")):
                settings.append((f, again, other))
        spoken = None
        if settings and r.random() < 0.5:
            # Every setting says when it is evaluated: once each, in the order in which they are written.
            spoken = f"{i}_{nodes}"
            settings = [(f, f"{{ note(\"set {spoken} {k}\"); {e} }}", l) for k, (f, e, l) in enumerate(settings)]
        kids = []
        if depth < 5 and nodes < size:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                if nodes >= size:
                    break
                if links and r.random() < 0.25:
                    kids.append(("link", r.choice(links)))
                else:
                    kids.append(("node", one(depth + 1)))
        return dict(c=c, path=path, params=params, name=name, settings=settings, spoken=spoken, kids=kids, comma=r.random() < 0.5, braces=r.random() < 0.3, last=r.random() < 0.5)

    root = one(0)

    def literal(n, ind):
        pad = "    " * ind
        s = n["path"] + n["params"]
        if n["name"] is not None:
            s += f": \"{n['name']}\""
        kids = ""
        if n["kids"] or n["comma"]:
            inner = f",\n".join(pad + "    " + (f"${k[1]['var']}" if k[0] == "link" else literal(k[1], ind + 1)) for k in n["kids"])
            kids = f"[\n{inner}{',' if n['last'] and n['kids'] else ''}\n{pad}]"
        if n["settings"] or n["braces"]:
            body = ", ".join(f"{f.name}: {e}" for f, e, _ in n["settings"])
            if kids and body:
                s += f" {{ {body}, {kids} }}"
            elif kids:
                s += f" {{ {kids} }}"
            else:
                s += f" {{ {body}{',' if body and n['last'] else ''} }}"
        elif kids:
            s += " " + kids
        return s

    def by_hand(n):
        c = n["c"]
        b = f"{{ let mut h_ = {call(c)}; let _ = &mut h_; "
        if n["name"] is not None:
            b += f"h_.set_name(\"{n['name']}\"); "
        for f, _, lit in n["settings"]:
            b += f"h_.{f.name} = {WRAP[f.kind]}::new({lit}); "
        b += "#[allow(unused_mut)] let mut s_ = NodeScene::new(h_); "
        for k in n["kids"]:
            b += f"s_.append({k[1]['var'] + '.clone()' if k[0] == 'link' else by_hand(k[1])}); "
        return b + "s_ }"

    def expected(n, copied):
        """Calls that compare a scene, given as `s`, with the description."""
        c = n["c"]
        name = n["name"] if n["name"] is not None else c.name
        out = f"{{ let x = peek::<{c.name}>(s); same(\"name\", x.name(), \"{name}\"); count(\"nodes_compared\"); "
        values = {f.name: lit for f, _, lit in n["settings"]}
        for f in c.fields:
            if c.pub and not f.pub:
                continue    # In a module of its own.
            if copied and f.kind == "unique":
                out += f"same(\"unique field {f.name}\", x.{f.name}.is_void(), true); "
            else:
                out += f"same(\"field {f.name}\", &*x.{f.name}, &({values.get(f.name, f.expected)})); "
        out += f"let _ = x; let kids = parts(s); same(\"number of children\", kids.len(), {len(n['kids'])}); "
        for k, kid in enumerate(n["kids"]):
            inner = expected(kid[1]["root"], True) if kid[0] == "link" else expected(kid[1], copied)
            out += f"if let Some(s) = kids.get({k}) {{ let s: &NodeScene = s; {inner} }} "
        return out + "}"

    var = r.choice(["scene", "node", "part", "s", "n", "scene_", "h"]) + str(i) if r.random() < 0.5 else r.choice(["scene", "node"])
    return dict(root=root, var=var, literal=literal, by_hand=by_hand, expected=expected, nodes=nodes)


def check_scene(r, classes, i, size):
    o = [f"fn scene_{i}() {{"]
    links = []
    for k in range(r.choice([0, 0, 1, 2])):
        s = gen_scene(r, classes, k, 4, links)
        if any(l["var"] == s["var"] for l in links):
            continue
        o.append(f"    let {s['var']}: NodeScene = scene! {{ {s['literal'](s['root'], 1)} }};")
        o.append(f"    {{ let s: &NodeScene = &{s['var']}; {s['expected'](s['root'], False)} }}")
        links.append(s)
    s = gen_scene(r, classes, i, size, links)
    o.append("    notes();")
    hidden = r.choice(["", "", "", "#[allow(unused)] struct NodeScene;", "#[allow(unused)] struct AsElement; #[allow(unused)] enum Node {}", "#[allow(unused)] mod prelude {} #[allow(unused)] fn wrap() {}"])
    o.append(f"    let whole: NodeScene = {{ {hidden} scene! {{\n        {s['literal'](s['root'], 2)}\n    }} }};")
    if hidden:
        o.append("    count(\"names_hidden\");")
    o.append("    let said = notes();")

    def spoken(n):
        if n["spoken"]:
            o.append(f"    expect(\"when the settings of a node are evaluated\", said.iter().copied().filter(|w| w.starts_with(\"set {n['spoken']} \")).collect(), &[{', '.join(chr(34) + 'set ' + n['spoken'] + ' ' + str(k) + chr(34) for k in range(len(n['settings'])))}]);")
        for kind, kid in n["kids"]:
            if kind == "node":
                spoken(kid)

    spoken(s["root"])
    o.append(f"    {{ let s: &NodeScene = &whole; {s['expected'](s['root'], False)} }}")
    o.append(f"    let hand: NodeScene = {s['by_hand'](s['root'])};")
    o.append(f"    {{ let s: &NodeScene = &hand; {s['expected'](s['root'], False)} }}")
    o.append("    same(\"structural hash\", whole.structural_hash(), hand.structural_hash());")
    o.append("    same_ownership(&whole, &hand);")
    for l in links:
        o.append(f"    {{ let s: &NodeScene = &{l['var']}; {l['expected'](l['root'], False)} }}")
    if links:
        l = r.choice(links)
        o.append(f"    let lone: NodeScene = scene! {{ ${l['var']} }};")
        o.append(f"    {{ let s: &NodeScene = &lone; {l['expected'](l['root'], True)} }}")
    o.append("}\n")
    return "\n".join(o)


def main():
    seed, n, m, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    r = random.Random(seed)
    classes = [gen_class(r, i) for i in range(n)]
    common = [c for c in classes if not c.apart]
    o = ["use super::*;\n"]
    for c in classes:
        if c.pub:
            o.append(f"pub mod m{c.i} {{\nuse super::*;\n{chr(10).join(c.beside)}\n{c.source}\n{check_class(c)}\n}}\n{'' if c.apart else f'pub use m{c.i}::{c.name};'}\nuse m{c.i}::class_{c.i};\n")
        else:
            o.append(c.source)
            o.append(check_class(c))
    seen = [c for c in classes if c.pub]
    o += [check_outside(c) for c in seen]
    bodies = [check_scene(r, common, i, r.choice([1, 3, 6, 10, 20])) for i in range(m)]
    o += bodies
    o.append("pub const CHECKS: &[(&str, fn(), &str)] = &[")
    quote = lambda t: 'r####"' + t[:1200] + '"####'
    o += [f"    (\"class {c.name}\", class_{c.i}, {quote(c.source)})," for c in classes]
    o += [f"    (\"class {c.name} from outside\", outside_{c.i}, {quote(c.source)})," for c in seen]
    o += [f"    (\"scene {i}\", scene_{i}, {quote(b)})," for i, b in enumerate(bodies)]
    o.append("];")
    with open(out, "w") as f:
        f.write("\n".join(o) + "\n")


main()
