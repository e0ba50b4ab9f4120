"""Documented ways to misuse the derive. Each entry: (class, attribute lines)."""
B = lambda x: "#[builder(%s)]" % x

# --- field level
FIELD = []


def fl(cls, *xs):
    for x in xs: FIELD.append((cls, x if isinstance(x, tuple) else (B(x),)))


def two(a, b):
    """Two options in one attribute, in either order, or in separate attributes."""
    return ["%s, %s" % (a, b), "%s, %s" % (b, a), (B(a), B(b)), (B(b), B(a))]


DEF = ["default", 'default = "x()"', "default = 3", "default = { y }"]
FTY = ['ty = "u8"', 'ty = "Vec<u8>"', "ty = \"Option<String>\""]
FBD = ['build = "z()"', "build = self.q()", "build = { 1 }"]
for d in DEF:
    for t in FTY: fl("default+field(ty)", *two(d, "field(%s)" % t))
    for t in FBD: fl("default+field(build)", *two(d, "field(%s)" % t))
    fl("default+field(ty, build)", *two(d, "field(%s, %s)" % (FTY[0], FBD[0])))
    fl("default+field(ty)", *two(d, "field(private, %s)" % FTY[1]))
VISC = [("public", "private"), ("public", 'vis = "pub(crate)"'), ("private", 'vis = "pub(crate)"'), ("private", 'vis = "pub"'), ("private", 'vis = ""'), ("public", 'vis = ""')]
for a, b in VISC:
    fl("vis conflict", *two(a, b))
    fl("field vis conflict", "field(%s, %s)" % (a, b), "field(%s, %s)" % (b, a))
fl("vis conflict", 'public, private, vis = "pub"', 'private, vis = "pub(crate)", public')
fl("field vis conflict", 'field(vis = "pub", public, private)')
fl("unknown option", "foo", "foo = 3", 'foo = "x"', "foo(bar)", "setters(into)", "defualt", 'patern = "owned"', "into", "strip_option", "skip", 'prefix = "p"', "each = \"e\"", "custom", 'ty = "u8"',
   'build = "x"', "r#type", "try_setters", "default_", "sette", "Default", "SETTER", "fields(private)")
fl("struct-level option on a field", "build_fn(skip)", 'build_fn(name = "x")', "derive(Debug)", "custom_constructor", 'create_empty = "e"', "no_std", 'crate = "x"', 'name = "n"')
fl("unknown nested option", "setter(foo)", "setter(into, foo)", 'setter(foo = "x", into)', 'setter(pattern = "owned")', "setter(try_setter)", "setter(default)", "setter(public)", 'setter(vis = "pub")', "setter(inot)",
   "field(foo)", 'field(type = "u8")', "field(into)", 'field(default = "x")', 'field(builder_type = "u8")', "field(setter)", 'field(private, nope)',
   'setter(each(name = "e0", foo))', 'setter(each(nme = "e0"))', 'setter(each(name = "e0", strip_option))', 'setter(each(name = "e0", into, skip))')
fl("ill-typed value", 'pattern = "foo"', 'pattern = "Owned"', 'pattern = ""', "pattern = 3", "pattern", "pattern = true", 'setter(into = "x")', "setter(skip = 3)", 'setter(strip_option = "yes")', "setter(custom = 1.5)",
   'setter(name = "1abc")', 'setter(name = "")', 'setter(name = "a b")', 'setter(name = "a-b")', "setter(name)", "setter(name = 3)", 'setter(name = "fn")', 'setter(prefix = "9")', "setter(prefix)", "setter(prefix = true)", 'setter(prefix(x))',
   "setter(each)", "setter(each = 3)", 'setter(each = "")', 'setter(each = "a::b")', "setter(each())", "setter(each(into))", "setter(each(name))", 'setter(each(name = "e0", into = "maybe"))', 'setter(each(name = 4))',
   "setter = 3", 'setter = "into"', "setter = true", 'vis = "pubx"', 'vis = "pub(nowhere"', "vis", "vis = 3", 'vis(pub)', 'vis = "private"', "public = 3", 'private = "x"', "public(x)", "try_setter = 3", 'try_setter = "x"', "try_setter(x)",
   "field", "field = 3", 'field = "private"', "field(ty)", "field(ty = 3)", 'field(ty = "")', 'field(ty = "Vec<")', 'field(ty = "1")', "field(build)", 'field(build = "(")', 'field(vis = "x")', "field(vis)",
   'default = "{"', 'default = "1 +"', 'default = ")"', 'default = "let"', 'default = "}"', 'default = "} {"', "default = 1 + ", "default(3)", 'default("x")', "setter(into(x))", "setter(skip, skip)")
fl("duplicate option", *two('pattern = "owned"', 'pattern = "mutable"'), *two("default", 'default = "x"'), "setter(into, into)", 'setter(name = "p0", name = "p1")', 'field(ty = "u8", ty = "u8")', 'field(build = "x", build = "x")',
   "setter(into), setter(skip)", "field(private), field(private)", "public, public", 'vis = "pub", vis = "pub"', "setter(each = \"e0\", each = \"e1\")", "try_setter, try_setter")
fl("empty expression", 'default = ""', 'default = " "', 'default = "   "', 'field(build = "")', 'field(build = " ")', 'default = "/* nothing */"')
fl("malformed pass-through", ("#[builder_field_attr]",), ("#[builder_setter_attr]",), ('#[builder_field_attr = "x"]',), ('#[builder_setter_attr = "x"]',), ("#[builder_field_attr()]",), ("#[builder_setter_attr()]",),
   ("#[builder_field_attr(3)]",), ('#[builder_setter_attr("x")]',), ("#[builder_field_attr(a, b)]",), ("#[builder_setter_attr(a b)]",), ("#[builder_field_attr(::)]",), ("#[builder_setter_attr(doc = )]",))
fl("bad builder attribute", ('#[builder = "x"]',), ("#[builder(3)]",), ('#[builder("default")]',), ("#[builder(default default)]",), ("#[builder(,)]",), ("#[builder(=)]",), ("#[builder(default,, setter)]",),
   ("#[builder(a b)]",), ("#[builder(setter(into into))]",), ("#[builder{a b}]",))

# --- struct level
STRUCT = []


def sl(cls, *xs):
    for x in xs: STRUCT.append((cls, x if isinstance(x, tuple) else (B(x),)))


for a, b in VISC:
    sl("vis conflict", *two(a, b))
    sl("field vis conflict", "field(%s, %s)" % (a, b), "field(%s, %s)" % (b, a))
    sl("build_fn vis conflict", "build_fn(%s, %s)" % (a, b), "build_fn(%s, %s)" % (b, a))
sl("vis conflict", 'public, private, vis = "pub"')
sl("validate+no validation variant", 'build_fn(validate = "v", error(validation_error = false))', 'build_fn(error(validation_error = false), validate = "Self::v")', 'build_fn(name = "x", validate = "a::v", private, error(validation_error = false))',
   'build_fn(error(validation_error = "false"), validate = "v")', 'build_fn(skip = false, error(validation_error = false), validate = "v")')
sl("unknown option", "foo", "foo = 3", 'foo = "x"', "foo(bar)", "setters(into)", "defualt", 'patern = "owned"', "into", "strip_option", "skip", 'prefix = "p"', 'buildfn(skip)', "build(skip)", "std", "derives(Debug)", "no_std_", "custom_constructors", 'error = "E"',
   'validate = "v"', 'create_empty_ = "x"', "Pattern", "each = \"e\"")
sl("field-level option on the struct", 'setter(name = "x")', 'setter(each = "x")', "setter(custom)", 'setter(each(name = "x"))', 'field(ty = "u8")', 'field(build = "x")', 'setter(into, name = "x")')
sl("unknown nested option", "setter(foo)", "setter(into, foo)", 'setter(pattern = "owned")', "setter(public)", "build_fn(foo)", 'build_fn(public, foo)', 'build_fn(pattern = "owned")', "build_fn(into)", "build_fn(default)", 'build_fn(nme = "x")', "field(foo)", "field(setter)",
   "build_fn(error(foo))", "build_fn(error(validation_error = true, foo))", "build_fn(error(validation = false))", 'build_fn(error())')
sl("ill-typed value", 'pattern = "foo"', 'pattern = "OWNED"', 'pattern = ""', "pattern = 3", "pattern", 'name = "1abc"', 'name = ""', 'name = "a b"', 'name = "a::b"', "name = 3", "name", 'name = "struct"', 'name = "Foo<T>"',
   'crate = "1"', 'crate = ""', "crate = 3", "crate", 'crate = "a b"', 'create_empty = "1"', 'create_empty = ""', "create_empty", "create_empty = 3", 'create_empty = "a b"', "no_std = 3", 'no_std = "x"', "custom_constructor = 3", 'custom_constructor = "x"', "custom_constructor(x)",
   "try_setter = 3", "try_setter(x)", "derive = 3", 'derive = "Debug"', "derive", "derive(3)", 'derive("Debug")', "derive(Debug = 3)", "derive(Debug(x))", "setter", "setter = 3", 'setter = "into"', 'setter(into = "x")', "setter(skip = 3)", "setter(prefix)", "setter(prefix = 3)", 'setter(prefix = "1")',
   'setter(strip_option = "yes")', "setter(into(x))", "build_fn", "build_fn = 3", 'build_fn = "x"', "build_fn(name)", "build_fn(name = 3)", 'build_fn(name = "1")', 'build_fn(name = "")', 'build_fn(name = "a b")', "build_fn(skip = 3)", 'build_fn(skip = "x")', "build_fn(validate)", "build_fn(validate = 3)",
   'build_fn(validate = "1")', 'build_fn(validate = "a b")', 'build_fn(validate = "")', "build_fn(error)", "build_fn(error = 3)", 'build_fn(error = "")', 'build_fn(error = "a b")', 'build_fn(error(validation_error = "maybe"))', "build_fn(error(validation_error = 3))", 'build_fn(vis = "x")', "build_fn(public = 3)",
   "field = 3", "field", 'field(vis = "x")', "field(public = 3)", 'vis = "x"', "vis", "vis = 3", "public = 3", 'private = "x"', 'default = "{"', 'default = "1 +"', "default(3)", 'default = ")"')
sl("duplicate option", *two('pattern = "owned"', 'pattern = "mutable"'), *two("default", 'default = "x"'), *two('name = "A"', 'name = "B"'), *two("setter(into)", "setter(skip)"), *two("build_fn(skip)", 'build_fn(name = "x")'), "setter(into, into)",
   'build_fn(name = "x", name = "y")', 'crate = "a", crate = "b"', *two('create_empty = "a"', 'create_empty = "b"'), *two("derive(Debug)", "derive(Clone)"), *two("field(private)", "field(public)"), "no_std, no_std", "custom_constructor, custom_constructor", "try_setter, try_setter", "public, public")
sl("empty expression", 'default = ""', 'default = " "', 'default = "   "', 'default = "/**/"')
sl("malformed pass-through", ("#[builder_struct_attr]",), ("#[builder_impl_attr]",), ('#[builder_struct_attr = "x"]',), ('#[builder_impl_attr = "x"]',), ("#[builder_struct_attr()]",), ("#[builder_impl_attr()]",), ("#[builder_struct_attr(3)]",), ('#[builder_impl_attr("x")]',), ("#[builder_struct_attr(a, b)]",), ("#[builder_impl_attr(a b)]",))
sl("bad builder attribute", ('#[builder = "x"]',), ("#[builder(3)]",), ('#[builder("default")]',), ("#[builder(,)]",), ("#[builder(a b)]",), ("#[builder(default,, setter)]",), ("#[builder(setter(into into))]",))

ITEMS = ["enum %s { A, B }", "enum %s { A { x: u8 }, B(u8) }", "enum %s {}", "union %s { a: u8, b: u32 }", "struct %s;", "struct %s(u8);", "struct %s(u8, String);", "struct %s();", "struct %s<T>(T);", "enum %s<T> { A(T) }"]

# --- valid company for a mistake: adding these never makes it right
PADS = {
    ("field", ""): ["try_setter", "setter(into)", "setter(skip)", "setter(skip = false)", "setter(custom)", "setter(strip_option)", 'pattern = "owned"', "public", "private", 'vis = "pub(crate)"', "field(private)", 'field(ty = "u16")', "default", 'setter(name = "pad", into)',
                    "setter(skip, custom)", 'default = "pad()"'],
    ("field", "setter"): ["into", "into = false", "strip_option", "skip", "skip = false", "skip = true", "custom", "custom = false", 'name = "pad"', 'prefix = "pad"', 'each = "pad"', 'each(name = "pad", into)'],
    ("field", "field"): ["public", "private", 'vis = "pub(crate)"', 'ty = "u16"', 'build = "pad()"'],
    ("field", "each"): ["into", "into = false"],
    ("struct", ""): ["try_setter", "setter(into)", "setter(skip)", 'pattern = "immutable"', "public", "private", 'vis = "pub(super)"', "field(public)", "default", 'default = "pad()"', "derive(Debug)", "custom_constructor", "no_std", 'create_empty = "pad"', 'name = "Pad"', 'crate = "pad"', "build_fn(skip)",
                     'build_fn(name = "pad", private)', 'build_fn(validate = "pad")'],
    ("struct", "setter"): ["into", "into = false", "strip_option", "skip", "skip = false", 'prefix = "pad"'],
    ("struct", "field"): ["public", "private", 'vis = "pub(crate)"'],
    ("struct", "build_fn"): ["skip", "skip = true", "skip = false", 'name = "pad"', "public", "private", 'vis = "pub(crate)"', 'validate = "pad"', "error(validation_error = true)", 'error = "Pad"'],
    ("struct", "error"): ["validation_error = true"],
}
GROUP = __import__("re").compile(r"^\s*([a-z_]+)\s*\((.*)\)\s*$", __import__("re").S)


def split(t):
    """Top-level comma separated pieces, or None when the text is not balanced."""
    out, cur, st, i = [], "", [], 0
    pair = {")": "(", "]": "[", "}": "{"}
    while i < len(t):
        c = t[i]
        if c == '"':
            j = i + 1
            while j < len(t) and t[j] != '"': j += 2 if t[j] == "\\" else 1
            if j >= len(t): return None
            cur += t[i:j + 1]
            i = j + 1
            continue
        if c in "([{": st.append(c)
        elif c in ")]}":
            if not st or st.pop() != pair[c]: return None
        if c == "," and not st:
            out.append(cur.strip())
            cur = ""
        else: cur += c
        i += 1
    if st: return None
    if cur.strip(): out.append(cur.strip())
    return out if all(out) else None


def key(x): return x.split("=")[0].split("(")[0].strip()


def pad_items(r, level, group, items, p):
    """Randomly add valid neighbours at this nesting level and below."""
    out = []
    for x in items:
        m = GROUP.match(x)
        if m and (level, m.group(1)) in PADS and m.group(2).strip():
            inner = split(m.group(2))
            if inner is not None: x = "%s(%s)" % (m.group(1), ", ".join(pad_items(r, level, m.group(1), inner, p)))
        out.append(x)
    have = {key(x) for x in items}
    if have & {"public", "private", "vis"}: have |= {"public", "private", "vis"}
    pool = [x for x in PADS.get((level, group), ()) if key(x) not in have]
    while pool and r.random() < p:
        x = r.choice(pool)
        pool = [y for y in pool if key(y) != key(x) and not {key(y), key(x)} <= {"public", "private", "vis"}]
        out.insert(r.randint(0, len(out)), x)
        p *= .6
    return out


def padded(r, level, lines, p=.7):
    """The mistake next to other, valid options."""
    out = []
    for l in lines:
        if l.startswith("#[builder(") and l.endswith(")]"):
            items = split(l[10:-2])
            if items: l = "#[builder(%s)]" % ", ".join(pad_items(r, level, "", items, p))
        out.append(l)
    if len(lines) > 1: return tuple(out)
    return tuple(out)
