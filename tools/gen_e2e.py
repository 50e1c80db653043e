"""Generate one program of random sscanf uses for a property.

Each case is a format plus types, written twice: as Rust source that uses the real macros, and as a
description (rs/e2e/oracle.rs) of what the documentation says it means. Deterministic in (property, seed).
"""
import random, os, sys

ADJ = ["Red", "Blue", "Tall", "Wide", "Old", "Nice", "Dark", "Cold"]
INTS = [(n, b, s) for b, ns in ((8, ("u8", "i8")), (16, ("u16", "i16")), (32, ("u32", "i32")), (64, ("u64", "i64")), (128, ("u128", "i128"))) for n, s in ((ns[0], False), (ns[1], True))] + [("usize", 0, False), ("isize", 0, True)]
def rb(b): return "true" if b else "false"
def rstr(s):
    out = '"'
    for c in s:
        if c in '"\\': out += "\\" + c
        elif c == "\n": out += "\\n"
        elif c == "\r": out += "\\r"
        elif c == "\t": out += "\\t"
        elif c == "\0": out += "\\0"
        else: out += c
    return out + '"'

class T:
    """rust: text in struct fields and macro arguments; o: oracle expression; lt: needs the input lifetime;
    field: text in a struct field if different"""
    def __init__(self, rust, o, kind, field=None, lt=False, bits=None, signed=None, single=True, plain=True):
        self.rust, self.o, self.kind, self.field, self.lt, self.bits, self.signed = rust, o, kind, field or rust, lt, bits, signed
        self.single = single  # consumes exactly one capture
        self.plain = plain

def t_int(n, b, s):
    return T(n, f"T::Int({b}, {rb(s)})" if b else ("T::ISize" if s else "T::USize"), "int", bits=b or 64, signed=s)
def t_nz(b, s):
    if b == 0:
        n = "NonZeroIsize" if s else "NonZeroUsize"
        return T(f"std::num::{n}", "T::NzISize" if s else "T::NzUSize", "nz", bits=64, signed=s)
    return T(f"std::num::NonZero{'I' if s else 'U'}{b}", f"T::NonZero({b}, {rb(s)})", "nz", bits=b, signed=s)
STRS = ["str", "&str", "std::primitive::str", "::std::primitive::str", "core::primitive::str", "::core::primitive::str", "&std::primitive::str", "&::core::primitive::str"]
COWS = ["Cow<str>", "std::borrow::Cow<str>", "::std::borrow::Cow<str>", "std::borrow::Cow<'_, str>", "Cow<'_, std::primitive::str>", "borrow::Cow<str>"]
FSTRS = ["&'a str", "&'a std::primitive::str", "&'a ::core::primitive::str"]
FCOWS = ["Cow<'a, str>", "std::borrow::Cow<'a, str>", "::std::borrow::Cow<'a, std::primitive::str>", "borrow::Cow<'a, str>"]
def t_str(r): return T(r.choice(STRS), "T::Str", "str", field=r.choice(FSTRS), lt=True)
def t_cow(r): return T(r.choice(COWS), "T::Cow", "str", field=r.choice(FCOWS), lt=True)
SIMPLE = {
    "f32": T("f32", "T::F32", "float"), "f64": T("f64", "T::F64", "float"), "bool": T("bool", "T::Bool", "other"), "char": T("char", "T::Char", "other"),
    "String": T("String", "T::Strng", "text"), "PathBuf": T("std::path::PathBuf", "T::PathBuf", "text"), "Hex": T("sscanf::HexNumber", "T::Hex", "hex"),
    "FullF32": T("sscanf::FullF32", "T::FullF32", "float"), "FullF64": T("sscanf::FullF64", "T::FullF64", "float"),
    "Word": T("Word", "T::Word", "word"), "Hand": T("Hand", "T::Hand", "hand", single=False),
}

class Prof:
    def __init__(self, **k):
        self.n = 60; self.maxph = 3; self.lit = 60; self.radix = 20; self.custom = 12; self.depth = 1; self.derived = 25; self.unesc = 12
        self.types = None; self.idx = 30; self.named_ty = 30; self.wide = 15; self.getre = 10; self.fromstr = 15; self.conv = 20; self.default = 12
        self.enum = 50; self.single = False; self.skip = 15; self.onlyderived = False; self.overlap = 30; self.hand = True
        self.__dict__.update(k)
PROFILES = {
    "C01": Prof(n=80, lit=95, derived=5, radix=3, custom=3, wide=30, unesc=0, maxph=2, getre=15),
    "C03": Prof(n=80, custom=85, radix=0, derived=8, lit=40, unesc=15),
    "C04": Prof(n=40, radix=90, types="int", derived=3),
    "C07": Prof(types="C07"), "C08": Prof(types="C08"), "C05": Prof(types="radix"), "C06": Prof(types="radix"),
    "C09": Prof(n=90, maxph=6, idx=45, named_ty=30, derived=8, lit=70),
    "C10": Prof(n=60, derived=100, enum=15, maxph=2, conv=40, default=20, depth=1, fromstr=20),
    "C11": Prof(n=70, derived=75, depth=3, maxph=3, enum=60, fromstr=25, lit=40, conv=8, default=8),
    "C12": Prof(n=70, derived=100, enum=100, maxph=2, overlap=70, skip=35, fromstr=30, conv=5, default=5),
    "C14": Prof(n=70, derived=45, depth=2, maxph=4, radix=35, conv=35, fromstr=15),
    "C15": Prof(n=60, derived=100, fromstr=100, depth=2, enum=50),
    "C16": Prof(n=70, types="C16", derived=45, maxph=4, custom=25, conv=5),
    "C18": Prof(n=30, types="C18", derived=10),
    "C19": Prof(n=80, unesc=60, getre=45, derived=20, radix=25),
    "C13": Prof(types="C13"),
}

class Gen:
    def __init__(self, prop, seed):
        self.p = PROFILES[prop]; self.prop = prop
        self.r = random.Random(f"{prop}-{seed}")
        self.uid = 0; self.nest = 0
    # ------------------------------------------------------------------ pieces
    def lit_char(self):
        r = self.r
        if r.random() * 100 < self.p.wide: return r.choice("éß\u212a😀日\u0301Ä＃\u017f٣")
        return r.choice("abcxyz019 AZ.,;-+*?()|[]^$/#&~:<>=!_'\"\\\n\t{}")
    def lit_text(self, force=False):
        r = self.r
        if not force and r.random() * 100 >= self.p.lit: return ""
        if r.random() < 0.45: return r.choice([" ", ", ", ": ", "-", "_", "#", "x=", "ab", " : ", ";", "(", "->", "0"])
        return "".join(self.lit_char() for _ in range(r.randint(1, 5)))
    def unesc_text(self):
        return self.r.choice(["", " ", ", ", r"\s*", "a+", "(?:x|y)", r"\.", "[ab]", "-?", r"\d", "x{0,2}".replace("x", "z"), ".", "^?".replace("^", "q"), "(?:foo)?", r"\{", "\\}"])
    def custom(self, t):
        r = self.r
        opts = {"int": [r"\d+", r"[0-9]{1,4}", r"[+-]?\d{2}", r"\d+?", r"(?:1|12)"],
                "nz": [r"\d+"], "float": [r"[-+]?\d+\.\d+", r"\d+(?:e\d+)?"], "word": [r"\w+", "[a-z]{1,6}"], "hex": [r"[a-f]+"]}
        texty = [r"\w+", r"[^,]*", r".*", r"a|bc", r"[a-z]+\d?", r"\d{2}/\d{2}", r"[^/]+", r"(?:ab)+|x", r"\\+", r"\{[^}]*\}", r"\t?\S", r"[{}]+", r".", r"\x41+", "é*日?", r"[\\/]", r"\(\d\)", "(?i)ab?"]
        return r.choice(opts.get(t.kind, texty))
    def option(self, t):
        """-> (source option text in format, oracle option)"""
        r = self.r
        if not t.single or not t.plain: return "", "O::None"
        x = r.random() * 100
        if t.kind == "int" and x < self.p.radix:
            k = r.randint(0, 2)
            if k == 0:
                c = r.choice("xob"); return ":" + c, f"O::Radix({dict(x=16, o=8, b=2)[c]}, Pfx::Opt('{c}'))"
            if k == 1:
                c = r.choice("xob"); return ":" + r.choice([c + "#", "#" + c]), f"O::Radix({dict(x=16, o=8, b=2)[c]}, Pfx::Forced('{c}'))"
            n = r.randint(2, 36); return f":r{n}", f"O::Radix({n}, Pfx::Never)"
        if x > 100 - self.p.custom and t.kind != "other":
            re = self.custom(t)
            return ":/" + re.replace("/", "\\/") + "/", f"O::Re({rstr(re)}.into())"
        return "", "O::None"
    # ------------------------------------------------------------------ literals
    def literal(self, pieces, raw=None):
        """pieces: list of ('lit', text, unesc) | ('ph', text). -> Rust literal token"""
        r = self.r
        body_raw_ok = all("\r" not in p[1] for p in pieces)
        raw = (r.random() < 0.5 if raw is None else raw) and body_raw_ok
        body = ""
        for p in pieces:
            if p[0] == "lit":
                for c in p[1]:
                    if c in "{}": body += c * 2
                    elif raw: body += c
                    elif c == "\\": body += "\\\\"
                    elif c == '"': body += '\\"'
                    elif c == "\n": body += r.choice(["\\n", "\\x0A", "\\u{a}"])
                    elif c == "\t": body += r.choice(["\\t", "\t", "\\u{9}"])
                    elif r.random() < 0.06: body += "\\u{%x}" % ord(c)
                    elif ord(c) < 128 and r.random() < 0.06: body += "\\x%02x" % ord(c)
                    else: body += c
                if not raw and r.random() < 0.03: body += "\\\n      "
            else:
                body += p[1] if raw else p[1].replace("\\", "\\\\").replace('"', '\\"')
        if raw:
            h = 0
            while '"' + "#" * h in body: h += 1
            return "r" + "#" * h + '"' + body + '"' + "#" * h
        return '"' + body + '"'
    # ------------------------------------------------------------------ types
    def simple(self):
        r = self.r; ty = self.p.types
        if self.nest > 1: # the derive does not take nested types with lifetime parameters
            while True:
                t = self.simple0()
                if not t.lt: return t
        return self.simple0()
    def simple0(self):
        r = self.r; ty = self.p.types
        if ty == "C16": return t_str(r) if r.random() < 0.55 else t_cow(r) if r.random() < 0.8 else SIMPLE["String"]
        if ty == "int": return t_int(*r.choice(INTS))
        if ty == "C18": return r.choice([SIMPLE["Hex"], SIMPLE["Hex"], SIMPLE["FullF32"], SIMPLE["FullF64"]])
        x = r.random()
        if x < 0.42: return t_int(*r.choice(INTS))
        if x < 0.58: return t_str(r)
        if x < 0.64: return t_cow(r)
        if x < 0.68: return t_nz(r.choice([0, 8, 16, 32, 64, 128]), r.random() < 0.5)
        keys = ["f32", "f64", "bool", "char", "String", "PathBuf", "Hex", "FullF32", "FullF64", "Word", "Hand", "Word"]
        return SIMPLE[r.choice(keys)]
    def any_type(self, case, depth):
        if depth > 0 and self.r.random() * 100 < self.p.derived: return self.derived(case, depth)
        return self.simple()
    def derived(self, case, depth):
        r = self.r
        self.uid += 1
        name = f"{r.choice(ADJ)}{self.uid}"
        if r.random() * 100 < self.p.enum: return self.enum(case, name, depth)
        b = self.body(case, name, depth)
        lt = "<'a>" if b["lt"] else ""
        attr = f"#[sscanf({b['attr']})]"
        case["defs"].append(f"#[derive(sscanf::FromScanf)]\n{attr}\npub struct {name}{lt} {b['decl']}{'' if b['named'] else ';'}\n"
            f"impl{lt} Show for {name}{lt} {{ fn show(&self, base: &str) -> String {{ let {name}{b['pat']} = self; {b['show']} }} }}")
        return T(name, f"T::D(Box::new(Def::Struct({b['o']})))", "derived", field=name + lt, lt=b["lt"], single=False)
    def enum(self, case, name, depth):
        r = self.r
        nv = r.randint(1, 4)
        vs = []; lts = False; decl = ""; arms = ""; os_ = []
        have = False
        prev = None
        for k in range(nv):
            vn = f"V{k}"
            if r.random() * 100 < self.p.skip:
                a = "#[sscanf(skip)] " if r.random() < 0.6 else ""
                d = r.choice(["", "(u8)", " { q: String }"])
                decl += f"    {a}{vn}{d},\n"
                arms += f"{name}::{vn}{' {..}' if d.startswith(' {') else '(..)' if d else ''} => \"SKIPPED\".to_string(),\n"
                continue
            b = self.body(case, vn, depth, variant=True, like=prev if r.random() * 100 < self.p.overlap else None)
            prev = b
            have = True; lts |= b["lt"]
            decl += f"    #[sscanf({b['attr']})]\n    {vn}{b['decl'].replace('pub ', '')},\n"
            arms += f"{name}::{vn}{b['pat']} => format!(\"{name}::{vn}{{}}\", {b['show_fields']}),\n"
            os_.append(b["o"])
        if not have:
            decl += '    #[sscanf("last")]\n    Last,\n'
            arms += f"{name}::Last => \"{name}::Last{{}}\".to_string(),\n"
            os_.append('S { name: "Last".into(), fmt: F { unesc: false, parts: vec!["last".into()], phs: vec![] }, fields: vec![] }')
        lt = "<'a>" if lts else ""
        case["defs"].append(f"#[derive(sscanf::FromScanf)]\npub enum {name}{lt} {{\n{decl}}}\n"
            f"impl{lt} Show for {name}{lt} {{ #[allow(unused_variables, unreachable_patterns)] fn show(&self, base: &str) -> String {{ match self {{ {arms} }} }} }}")
        return T(name, f"T::D(Box::new(Def::Enum({rstr(name)}.into(), vec![{', '.join(os_)}])))", "derived", field=name + lt, lt=lts, single=False)
    CONVS = [
        # (from type maker, field type, attribute, oracle closure)
        (lambda r: t_int("u8", 8, False), "u32", "map = |x: u8| x as u32 * 3 + 1", "|v| match v { Val::U(x) => Ok(Val::U(x * 3 + 1)), _ => unreachable!() }"),
        (lambda r: t_int("i16", 16, True), "i64", "map = |x: i16| { x as i64 - 70000 }", "|v| match v { Val::I(x) => Ok(Val::I(x - 70000)), _ => unreachable!() }"),
        (lambda r: T("&str", "T::Str", "str", lt=True), "usize", "map = |s: &str| s.len()", "|v| match v { Val::T(s) => { let (a, b) = s[1..].split_once(\"..\").unwrap(); Ok(Val::U(b.parse::<u128>().unwrap() - a.parse::<u128>().unwrap())) } _ => unreachable!() }"),
        (lambda r: t_int("u16", 16, False), "u16", "filter_map = |x: u16| if x % 2 == 0 { Some(x / 2) } else { None }", "|v| match v { Val::U(x) if x % 2 == 0 => Ok(Val::U(x / 2)), _ => Err(vec![\"The closure of `@NAME@`s `filter_map` attribute returned None\".into()]) }"),
        (lambda r: t_int("u8", 8, False), "i64", "from = u8", "|v| match v { Val::U(x) => Ok(Val::I(x as i128)), _ => unreachable!() }"),
        (lambda r: t_int("i32", 32, True), "u8", "try_from = i32", "|v| match v { Val::I(x) if (0..256).contains(&x) => Ok(Val::U(x as u128)), _ => Err(vec![\"out of range integral type conversion attempted\".into()]) }"),
        (lambda r: SIMPLE["char"], "u32", "from = char", "|v| match v { Val::T(s) => Ok(Val::U(ccode(&s) as u128)), _ => unreachable!() }"),
    ]
    DEFAULTS = [("u8", "default", "0"), ("u8", "default = 42", "42"), ("String", "default", 'S""'), ("i32", "default = -(3 + 4)", "-7"), ("Option<u8>", "default = Some(3)", "Some(3)"), ("bool", "default = 1 < 2", "true")]
    def body(self, case, name, depth, variant=False, like=None):
        r = self.r
        named = r.random() < 0.6
        unesc = r.random() * 100 < self.p.unesc
        nf = r.choice([0, 1, 1, 2, 2, 3, 4])
        many = self.prop in ("C10", "C11") and depth <= 1 and r.random() < (0.15 if self.prop == "C10" else 0.05)
        if many: nf = r.randint(11, 13)
        transparent = not many and r.random() < 0.07
        if transparent: nf, unesc = 1, False
        fields = []
        for k in range(nf):
            fname = r.choice("abcdefgh") + str(k) if named else str(k)
            if named and not many and r.random() < 0.05: fname = ["type", "fn", "loop", "match", "ref"][k]
            x = r.random() * 100
            if x < self.p.default and not transparent:
                ty, attr, shown = r.choice(self.DEFAULTS)
                fields.append(dict(name=fname, ty=ty, attr=attr, src=None, shown=shown, lt=False)); continue
            if x < self.p.default + self.p.conv:
                mk, fty, attr, conv = r.choice(self.CONVS)
                t = mk(r)
                raw = f"r#{fname}" if fname in ("type", "fn", "loop", "match", "ref") else fname
                fields.append(dict(name=fname, ty=fty, attr=attr, src=t, conv=conv.replace("@NAME@", raw), lt=False)); continue
            self.nest += 1; t = t_int(*r.choice(INTS)) if many and r.random() < 0.8 else self.simple() if many else self.any_type(case, depth - 1); self.nest -= 1
            fields.append(dict(name=fname, ty=t.field, attr=None, src=t, conv=None, lt=t.lt))
        if like and r.random() < 0.8:
            # same shape as the previous variant, other literals: overlapping formats
            pass
        srcs = [k for k, f in enumerate(fields) if f["src"] is not None]
        named_by = {k for k in srcs if r.random() < 0.5 and fields[k]["name"] not in ("type", "fn", "loop", "match", "ref")}
        unnamed = [k for k in srcs if k not in named_by]
        order = list(srcs); r.shuffle(order)
        # unnamed placeholders fill the remaining fields in definition order
        it = iter(unnamed)
        seq = [(k, True) if k in named_by else (None, False) for k in order]
        seq = [(k, True) if nm else (next(it), False) for k, nm in seq]
        if transparent: seq = [(srcs[0], False)]
        parts = []; phs = []; pieces = []
        for pos, (k, nm) in enumerate(seq):
            t = fields[k]["src"]
            lit = "" if transparent else self.unesc_text() if unesc else (like["parts"][pos] if like and pos < len(like["parts"]) and r.random() < 0.6 else self.lit_text())
            opt, oopt = ("", "O::None") if transparent else self.option(t)
            if "Some(x" in (fields[k].get("conv") or ""): pass
            idt = ""
            if nm: idt = fields[k]["name"] if r.random() < 0.7 or not named else str(k)
            parts.append(lit); pieces += [("lit", lit), ("ph", "{" + idt + opt + "}")]
            phs.append((t, oopt)); fields[k]["ph"] = pos
        last = "" if transparent else self.unesc_text() if unesc else self.lit_text(force=not seq)
        parts.append(last); pieces.append(("lit", last))
        if transparent: attr = "transparent"
        else:
            raw = None
            form = r.random()
            if form < 0.5:
                raw = unesc
                if unesc and any("\r" in p[1] for p in pieces): raw = None
            lit = self.literal(pieces, raw)
            attr = lit if form < 0.5 and lit.startswith("r") == unesc else ("format_unescaped = " if unesc else "format = ") + lit
        kw = ("type", "fn", "loop", "match", "ref")
        rn = lambda n: "r#" + n if n in kw else n
        lt = any(f["lt"] for f in fields)
        at = lambda f: f"#[sscanf({f['attr']})] " if f["attr"] else ""
        if nf == 0: decl, pat = ("", "") if variant or not named else (" {}", " {}")
        elif named: decl, pat = " { " + ", ".join(f"{at(f)}pub {rn(f['name'])}: {f['ty']}" for f in fields) + " }", " { " + ", ".join(f"{rn(f['name'])}: v{k}" for k, f in enumerate(fields)) + " }"
        else: decl, pat = "(" + ", ".join(f"{at(f)}pub {f['ty']}" for f in fields) + ")", "(" + ", ".join(f"v{k}" for k in range(nf)) + ")"
        if nf == 0 and not variant and not named: decl = ""
        show_fields = '{ let v: Vec<String> = vec![' + ", ".join(f'format!("{rn(f["name"])}={{}}", v{k}.show(base))' for k, f in enumerate(fields)) + ']; format!("{{{}}}", v.join(";")) }'
        ofields = ", ".join(f'Fld {{ name: {rstr(rn(f["name"]))}.into(), src: ' + (f'Src::Ph({f["ph"]})' if f["src"] is not None else f'Src::Def({rstr(f["shown"])}.into())') + ", conv: " + (f"Some({f['conv']})" if f.get("conv") else "None") + " }" for f in fields)
        o = f'S {{ name: {rstr(name)}.into(), fmt: {self.of(unesc, parts, phs)}, fields: vec![{ofields}] }}'
        return dict(attr=attr, decl=decl, pat=pat, named=named and nf > 0 or (nf == 0 and named and not variant), lt=lt, o=o, show=f'format!("{name}{{}}", {show_fields})', show_fields=show_fields, parts=parts)
    def of(self, unesc, parts, phs):
        return f'F {{ unesc: {rb(unesc)}, parts: vec![{", ".join(rstr(p) + ".into()" for p in parts)}], phs: vec![{", ".join(f"({t.o}, {o})" for t, o in phs)}] }}'
    # ------------------------------------------------------------------ whole cases
    def case(self):
        r = self.r; p = self.p
        case = dict(defs=[], extra=[])
        x = r.random() * 100
        if x < p.fromstr:
            t = self.derived(case, p.depth) if r.random() < 0.75 or self.prop == "C15" and r.random() < 0.5 else self.simple()
            if t.kind == "str": t = SIMPLE["Word"]
            fmt = self.of(False, ["", ""], [(t, "O::None")])
            mode = 2 if t.single and t.kind != "hand" else 0
            run = f"out(<{t.field.replace(chr(39) + 'a', chr(39) + '_')} as sscanf::FromScanf>::from_str(s), s)"
            shown = f"<{t.rust} as FromScanf>::from_str(input)"
            return self.finish(case, fmt, run, shown, mode)
        getre = r.random() * 100 < p.getre
        unesc = not getre and r.random() * 100 < p.unesc
        nph = r.randint(0 if p.lit > 90 else 1, p.maxph)
        if self.prop == "C09" and r.random() < 0.06: nph = r.randint(11, 12)
        used = []   # macro type arguments
        parts = []; phs = []; pieces = []
        auto = 0
        plan = []
        for _ in range(nph):
            x = r.random() * 100
            if x < p.idx: plan.append("idx")
            elif x < p.idx + p.named_ty: plan.append("inline")
            else: plan.append("auto")
        nauto = plan.count("auto")
        nidx = plan.count("idx")
        # at most 1.. types: autos use 0..nauto; indices pick anything, extra types must be covered by an index
        nextra = r.randint(0, nidx) if nidx else 0
        if nauto + nextra == 0 and nidx: nextra = 1
        ntypes = nauto + nextra
        types = [self.any_type(case, p.depth) for _ in range(ntypes)]
        idxs = list(range(nauto, ntypes)) + [r.randrange(ntypes) for _ in range(nidx - nextra)] if nidx else []
        r.shuffle(idxs)
        for k in plan:
            if k == "auto": t, idt = types[auto], ""; auto += 1
            elif k == "idx": i = idxs.pop(); t, idt = types[i], str(i)
            else: t = self.any_type(case, p.depth); idt = t.rust
            opt, oopt = self.option(t)
            lit = self.unesc_text() if unesc else self.lit_text()
            parts.append(lit); pieces += [("lit", lit), ("ph", "{" + idt + opt + "}")]; phs.append((t, oopt))
        last = self.unesc_text() if unesc else self.lit_text(force=nph == 0)
        parts.append(last); pieces.append(("lit", last))
        lit = self.literal(pieces)
        args = "".join(", " + t.rust for t in types) + ("," if r.random() < 0.1 else "")
        fmt = self.of(unesc, parts, phs)
        if getre and any(not t.single for t, _ in phs): getre = False
        if getre:
            return self.finish(case, fmt, f"{{ let r: &sscanf::regex::Regex = sscanf::sscanf_get_regex!({lit}{args}); groups(r, s) }}", f"sscanf_get_regex!({lit}{args})", 1)
        mac = "sscanf_unescaped" if unesc else "sscanf"
        return self.finish(case, fmt, f"out(sscanf::{mac}!(s, {lit}{args}), s)", f"sscanf::{mac}!(input, {lit}{args})", 0)
    def finish(self, case, fmt, run, shown, mode):
        case.update(fmt=fmt, run=run, shown="\n".join(case["defs"]) + "\n" + shown, mode=mode)
        return case
    # ------------------------------------------------------------------ fixed families
    def families(self):
        out = []; r = self.r
        def plain(t, opt="", oopt="O::None", extra=(), pre="", post="", fs=False):
            lit = self.literal([("lit", pre), ("ph", "{" + opt + "}"), ("lit", post)], False)
            c = dict(defs=[], extra=list(extra))
            out.append(self.finish(c, self.of(False, [pre, post], [(t, oopt)]), f"out(sscanf::sscanf!(s, {lit}, {t.rust}), s)", f"sscanf!(input, {lit}, {t.rust})", 0))
        def digits(v, b):
            s = ""
            while True:
                s = "0123456789abcdefghijklmnopqrstuvwxyz"[v % b] + s; v //= b
                if v == 0: return s
        ty = self.p.types
        if ty == "radix":
            opts = [("x", 16, "Opt('x')"), ("o", 8, "Opt('o')"), ("b", 2, "Opt('b')"), ("#x", 16, "Forced('x')"), ("o#", 8, "Forced('o')"), ("#b", 2, "Forced('b')")] + [(f"r{n}", n, "Never") for n in range(2, 37)]
            for n, b, s in INTS:
                for o, base, pf in opts:
                    w = b or 64
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
                    pre = ["", "0" + pf[5] , "0" + pf[5].upper()] if pf.startswith("Opt") else ["0" + pf[8], "0" + pf[8].upper(), ""] if pf.startswith("F") else ["", "0x", "0b"]
                    ex = []
                    for v in {lo, hi, lo - 1, hi + 1, 0, 1, base - 1, base, (1 << w) - 1, -(1 << w) + 1, -1, (1 << (w - 1)), -hi, 255, 256}:
                        for q in pre:
                            sg = "-" if v < 0 else r.choice(["", "+", ""])
                            d = digits(abs(v), base)
                            ex.append(sg + q + (d.upper() if r.random() < 0.4 else d))
                    top = digits((1 << w) - 1, base)
                    nx = "0123456789abcdefghijklmnopqrstuvwxyz"[base] if base < 36 else "é"
                    ex += ["0" * len(top), "0" * (len(top) + 1), nx, "1" + nx, pre[0] + nx.upper(), "z" * len(top), "\u212a", "\u017f", "٣", "--1", "+-1", "-0", "+0", "1 ", pre[1], "-" + pre[1], "+" + pre[0] + "0" * len(top), "-" + pre[0] + digits(base - 1, base) * len(top)]
                    plain(t_int(n, b, s), ":" + o, f"O::Radix({base}, Pfx::{pf})", ex)
        elif ty == "C07":
            for mk, lst in ((t_int, INTS),):
                for n, b, s in lst:
                    w = b or 64
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
                    ex = [str(v) for v in (lo, hi, lo - 1, hi + 1, 0, 1, -1, (1 << w), 10 ** len(str(hi)))] + ["+" + str(hi), "+0", "-0", "+-1", "00", "0" * len(str(hi)), "0" * len(str(hi)) + "1", "1_0", "1.0", " 1", "0x1", "٣", "１", "a"]
                    for pre, post in (("", ""), ("v=", ";"), ("", "5"), ("1", "")):
                        plain(t_int(n, b, s), "", "O::None", [pre + e + post for e in ex], pre, post)
                    ex = [e for e in ex if True]
                    plain(t_nz(b, s), "", "O::None", ex + ["01", "0"])
            for t, ex in ((SIMPLE["bool"], ["true", "false", "True", "t", "truefalse", ""]), (SIMPLE["char"], ["a", "\n", "\r", "é", "😀", "ab", " ", "\u0301", "\u2028", "\x85", "\0"]), (SIMPLE["String"], ["a", "a b", "\n", "a\nb", "é日😀", "\r", "\u2028", " ", "{}"])):
                for pre, post in (("", ""), ("(", ")"), ("x", "x")):
                    plain(t, "", "O::None", [pre + e + post for e in ex], pre, post)
            for t in (SIMPLE["String"], SIMPLE["char"], SIMPLE["bool"], t_int("u8", 8, False)):
                c = dict(defs=[], extra=["1,2", "a,b", "true,false", ",", "1,", "12,255", "é,日"])
                out.append(self.finish(c, self.of(False, ["", ",", ""], [(t, "O::None"), (t, "O::None")]), f'out(sscanf::sscanf!(s, "{{}},{{}}", {t.rust}, {t.rust}), s)', f'sscanf!(input, "{{}},{{}}", {t.rust}, {t.rust})', 0))
        elif ty == "C08":
            base = ["inf", "INF", "infinity", "InFiNiTy", "nan", "NaN", "-inf", "+inf", "-nan", "1", "1.", ".5", "1.5", "-.5", "+1.", "1e5", "1E5", "1.e5", ".5e-3", "-1.5E+10", "1e", "e5", ".", "", "1.5.2", "--1", "1e5.5", "infi", "nano", "1e400", "-1e400", "1e-400", "0", "-0", "00.00", "1f", "0x1p3", "٣", "1_0", "3.4028235e38", "1.7976931348623157e308", "5e-324", "1" * 60, "0." + "0" * 60 + "1", "\u0131nf", "1e+", "+", "-", "1 ", "naN", "-NAN", "9007199254740993", "16777217", "0.1", "\u212aan"]
            for t in ("f32", "f64"):
                for pre, post in (("", ""), ("x=", " y"), ("", "e"), ("(", ")")):
                    plain(SIMPLE[t], "", "O::None", [pre + e + post for e in base], pre, post)
                c = dict(defs=[], extra=["1.5 -2e3", "inf nan", "1e5 .5", "nan", " "])
                out.append(self.finish(c, self.of(False, ["", " ", ""], [(SIMPLE[t], "O::None")] * 2), f'out(sscanf::sscanf!(s, "{{}} {{}}", {t}, {t}), s)', f'sscanf!(input, "{{}} {{}}", {t}, {t})', 0))
        elif ty == "C18":
            hexes = ["0", "0x0", "0X1f", "ff", "FF", "dEaDbEeF", "0x", "x1", "0xg", "ffffffffffffffff", "0xffffffffffffffff", "10000000000000000", "0x10000000000000000", "0000000000000000001", "0x0x1", "00x1", "-1", "+1", "", "0xFFFFFFFFFFFFFFFF", "\u212a", "0Xx1", "0x+1", "+0x1"]
            for pre, post in (("", ""), ("<", ">"), ("a", "")):
                plain(SIMPLE["Hex"], "", "O::None", [pre + e + post for e in hexes], pre, post)
            for t in ("FullF32", "FullF64"):
                plain(SIMPLE[t], "", "O::None", ["1.5", "inf", "nan", "1e5", "-.5", "x", "1e400", ".", "0.1", "16777217"])
            for t in ("Hex", "FullF32", "FullF64"):
                c = dict(defs=[], extra=["0x1f", "+1", "0x+1", "1.5", "ff", "10000000000000000", "x"])
                out.append(self.finish(c, self.of(False, ["", ""], [(SIMPLE[t], "O::None")]), f"out(<{SIMPLE[t].rust} as sscanf::FromScanf>::from_str(s), s)", f"{t}::from_str(input)", 2))
        elif ty == "C13":
            out += autogen(self)
        elif ty == "C16":
            out += strs(self)
        return out

# types that are written as documented for str and Cow<str>, and types that only look similar
LOOK = """pub mod inner { #![allow(non_camel_case_types, dead_code)] use crate::oracle::*;
    pub trait Pick { type W; } impl<T: ?Sized> Pick for T { type W = Word; }
    pub mod look {
        use super::{Word, Pick};
        pub type str = Word; pub type Cow<T> = <T as Pick>::W;
        pub mod primitive { pub type str = super::Word; pub type Cow<T> = <T as super::Pick>::W; }
        pub mod borrow { pub type Cow<T> = <T as super::Pick>::W; pub type str = super::Word; }
        pub mod std { pub mod borrow { pub type Cow<T> = <T as super::super::Pick>::W; } pub mod primitive { pub type str = super::super::Word; } pub type str = super::Word; }
        pub mod core { pub mod borrow { pub type Cow<T> = <T as super::super::Pick>::W; } }
    }
    pub trait primitive { type str; } impl primitive for () { type str = Word; }
    pub trait borrow { type Cow<T: ?Sized>; } impl borrow for () { type Cow<T: ?Sized> = Word; }
    @MODS@
    pub fn go(s: &::std::primitive::str) -> Out { @RUN@ } }"""
LOOKS = [ # type, modules or items it needs
    ("look::str", ""), ("look::Cow<str>", ""), ("look::Cow<u8>", ""), ("look::primitive::str", ""), ("look::borrow::Cow<str>", ""), ("look::borrow::str", ""), ("look::std::borrow::Cow<str>", ""), ("look::std::primitive::str", ""),
    ("look::std::str", ""), ("look::primitive::Cow<str>", ""), ("<() as primitive>::str", ""), ("<() as borrow>::Cow<str>", ""), ("self::look::core::borrow::Cow<str>", ""), ("crate::oracle::Word", ""),
    ("core::borrow::Cow<str>", "pub use self::look::core;"), ("Cow<u8>", "pub type Cow<T> = <T as Pick>::W;"), ("Cow<String>", "pub type Cow<T> = <T as Pick>::W;"),
    ("Cow", "pub type Cow = Word;"), ("Cow<str, str>", "pub type Cow<T, U> = <(fn(&T), fn(&U)) as Pick>::W;"), ("Cow<str, 3>", "pub type Cow<T, const N: usize> = <(fn(&T), [u8; N]) as Pick>::W;"), ("Str", "pub type Str = Word;"), ("cow<str>", "pub type cow<T> = <T as Pick>::W;"),
    ("alloc::primitive::str", "pub mod alloc { pub mod primitive { pub type str = super::super::Word; } }"), ("borrow::Cow<u8>", "pub mod borrow { pub type Cow<T> = <T as super::Pick>::W; }"), ("core::str", "pub mod core { pub type str = super::Word; }"),
    ("std::str", "pub mod std { pub type str = super::Word; }"), ("std::Cow<str>", "pub mod std { pub type Cow<T> = <T as super::Pick>::W; }"), ("alloc::Cow<str>", "pub mod alloc { pub type Cow<T> = <T as super::Pick>::W; }"), ("Cow<&'static str>", "pub type Cow<T> = <T as Pick>::W;"), ("Cow<look::str>", "pub type Cow<T> = <T as Pick>::W;"), ("borrow::borrow::Cow<str>", "pub mod borrow { pub mod borrow { pub type Cow<T> = <T as super::super::Pick>::W; } }"),
]
def strs(g):
    r = g.r; out = []
    extra = ["ab", "abcde", "1x", "x", "", "a,b", "ab,12x", "abcdef,a", "é,日"]
    for ty, mods in LOOKS:
        if mods.startswith("pub mod borrow"): look = LOOK.replace("pub trait borrow { type Cow<T: ?Sized>; } impl borrow for () { type Cow<T: ?Sized> = Word; }", "")
        else: look = LOOK
        t = T(ty, "T::Word", "word")
        k = r.randrange(3)
        fmt = g.of(False, ["", ",", ""], [(t, "O::None"), (SIMPLE["String"], "O::None")])
        if k == 0: run = f'out(sscanf::sscanf!(s, "{{}},{{}}", {ty}, String), s)'
        elif k == 1: run = f'out(sscanf::sscanf!(s, "{{{ty}}},{{}}", String), s)'
        else:
            fmt = g.of(False, ["", ",", ""], [(T(ty, 'T::D(Box::new(Def::Struct(S { name: "Wrap".into(), fmt: F { unesc: false, parts: vec!["".into(), "".into()], phs: vec![(T::Word, O::None)] }, fields: vec![Fld { name: "w".into(), src: Src::Ph(0), conv: None }] })))', "derived"), "O::None"), (SIMPLE["String"], "O::None")])
            mods += f' #[derive(sscanf::FromScanf)] #[sscanf("{{w}}")] pub struct Wrap {{ w: {ty} }} impl Show for Wrap {{ fn show(&self, base: &::std::primitive::str) -> String {{ ::std::format!("Wrap{{{{w={{}}}}}}", self.w.show(base)) }} }}'
            run = 'out(sscanf::sscanf!(s, "{},{}", Wrap, String), s)'
        c = dict(defs=[look.replace("@MODS@", mods).replace("@RUN@", run)], extra=extra)
        out.append(g.finish(c, fmt, "inner::go(s)", f"{mods} {run}", 0))
    # lifetimes of fields
    for f0, f1, lt in [("&'static str", "&'static str", ""), ("Cow<'static, str>", "&'static str", ""), ("&'a str", "Cow<'b, str>", "'a, 'b"), ("&'a str", "&'static str", "'a"), ("Cow<'a, ::core::primitive::str>", "std::borrow::Cow<'a, str>", "'a"), ("borrow::Cow<'a, std::primitive::str>", "&'a core::primitive::str", "'a"), ("::std::borrow::Cow<'a, primitive::str>", "&'a primitive::str", "'a")]:
        g.uid += 1; n = f"Lt{g.uid}"
        L = f"<{lt}>" if lt else ""
        o = lambda f: "T::Cow" if "Cow" in f else "T::Str"
        d = f"#[derive(sscanf::FromScanf)]\n#[sscanf(\"{{1}}-{{0}}\")]\npub struct {n}{L}({f0}, {f1});\nimpl{L} Show for {n}{L} {{ fn show(&self, base: &str) -> String {{ format!(\"{n}{{{{0={{}};1={{}}}}}}\", self.0.show(base), self.1.show(base)) }} }}"
        if "primitive::str" in d: d = "use std::primitive;\n" + d
        fld = "".join(f'Fld {{ name: "{k}".into(), src: Src::Ph({1 - k}), conv: None }}, ' for k in (0, 1))
        t = T(n, f'T::D(Box::new(Def::Struct(S {{ name: "{n}".into(), fmt: F {{ unesc: false, parts: vec!["".into(), "-".into(), "".into()], phs: vec![({o(f1)}, O::None), ({o(f0)}, O::None)] }}, fields: vec![{fld}] }})))', "derived")
        c = dict(defs=[d], extra=["a-b", "-", "é-日本", "a-b-c", "(a-b)", "x"])
        leak = "let s: &'static str = Box::leak(s.to_string().into_boxed_str()); " if "static" in f0 + f1 else ""
        out.append(g.finish(c, g.of(False, ["", ""], [(t, "O::None")]), f'{{ {leak}out(sscanf::sscanf!(s, "{{}}", {n}), s) }}', f'sscanf!(input, "{{}}", {n})', 0))
    # more lifetimes at once
    for flds, lt in [(["&'a str", "Cow<'b, str>", "&'c str"], "'a, 'b, 'c"), (["&'d str", "Cow<'a, str>", "&'c str", "Cow<'b, str>", "&'a str"], "'a, 'b, 'c, 'd"), (["Cow<'l1, str>", "&'l2 str", "&'l3 str", "&'l4 str", "&'l5 str", "&'l6 str"], "'l1, 'l2, 'l3, 'l4, 'l5, 'l6")]:
        for en in (0, 1):
            g.uid += 1; n = f"Lt{g.uid}"; k = len(flds)
            show = "{{" + ";".join(f"{i}={{}}" for i in range(k)) + "}}"
            if en:
                decl = f"#[derive(sscanf::FromScanf)]\npub enum {n}<{lt}> {{ #[sscanf(\"{'-'.join(['{}'] * k)}\")] V({', '.join(flds)}) }}"
                body = f"let {n}::V({', '.join(f'v{i}' for i in range(k))}) = self; format!(\"{n}::V{show}\", {', '.join(f'v{i}.show(base)' for i in range(k))})"
            else:
                decl = f"#[derive(sscanf::FromScanf)]\n#[sscanf(\"{'-'.join(['{}'] * k)}\")]\npub struct {n}<{lt}>({', '.join(flds)});"
                body = f"format!(\"{n}{show}\", {', '.join(f'self.{i}.show(base)' for i in range(k))})"
            d = f"{decl}\nimpl<{lt}> Show for {n}<{lt}> {{ fn show(&self, base: &str) -> String {{ {body} }} }}"
            o = lambda f: "T::Cow" if "Cow" in f else "T::Str"
            st = f'S {{ name: "{"V" if en else n}".into(), fmt: F {{ unesc: false, parts: vec![{", ".join(rstr("-" if 0 < i < k else "") + ".into()" for i in range(k + 1))}], phs: vec![{", ".join(f"({o(f)}, O::None)" for f in flds)}] }}, fields: vec![{"".join(f'Fld {{ name: "{i}".into(), src: Src::Ph({i}), conv: None }}, ' for i in range(k))}] }}'
            t = T(n, f"T::D(Box::new(Def::Enum({rstr(n)}.into(), vec![{st}])))" if en else f"T::D(Box::new(Def::Struct({st})))", "derived")
            c = dict(defs=[d], extra=["-".join("abcdefgh"[:j]) for j in range(1, 8)] + ["-", "é-日本-x", "a--b-c-d-e-f"])
            out.append(g.finish(c, g.of(False, ["", ""], [(t, "O::None")]), f'out(sscanf::sscanf!(s, "{{}}", {n}), s)', f'sscanf!(input, "{{}}", {n})', 0))
    # defaults take nothing from the input: their lifetimes are no matter
    for fty, dflt, shown in [("&'static str", '"x"', "own:x"), ("Cow<'static, str>", 'Cow::Borrowed("x")', "own:x"), ("Option<&'static str>", "None", "None"), ("&'b str", '"x"', "own:x")]:
        for en in (0, 1):
            g.uid += 1; n = f"Lt{g.uid}"
            lt = "'a, 'b" if "'b" in fty else "'a"
            flds = f'a: &\'a str, #[sscanf(default = {dflt})] b: {fty}'
            if en: decl, pat = f'#[derive(sscanf::FromScanf)]\npub enum {n}<{lt}> {{ #[sscanf("z{{}}")] Z(u8), #[sscanf("-{{}}")] V {{ {flds} }} }}', f'let {n}::V {{ a, b }} = self else {{ let {n}::Z(x) = self else {{ unreachable!() }}; return format!("{n}::Z{{{{0={{}}}}}}", x.show(base)) }};'
            else: decl, pat = f'#[derive(sscanf::FromScanf)]\n#[sscanf("-{{}}")]\npub struct {n}<{lt}> {{ {flds} }}', f"let {n} {{ a, b }} = self;"
            show = 'if format!("{:?}", b).contains("x") { "own:x".to_string() } else { "None".to_string() }'
            d = f"{decl}\nimpl<{lt}> Show for {n}<{lt}> {{ fn show(&self, base: &str) -> String {{ {pat} format!(\"{n}{'::V' if en else ''}{{{{a={{}};b={{}}}}}}\", a.show(base), {show}) }} }}"
            st = f'S {{ name: "{"V" if en else n}".into(), fmt: F {{ unesc: false, parts: vec!["-".into(), "".into()], phs: vec![(T::Str, O::None)] }}, fields: vec![Fld {{ name: "a".into(), src: Src::Ph(0), conv: None }}, Fld {{ name: "b".into(), src: Src::Def({rstr(shown)}.into()), conv: None }}] }}'
            z = 'S { name: "Z".into(), fmt: F { unesc: false, parts: vec!["z".into(), "".into()], phs: vec![(T::Int(8, false), O::None)] }, fields: vec![Fld { name: "0".into(), src: Src::Ph(0), conv: None }] }'
            t = T(n, f"T::D(Box::new(Def::Enum({rstr(n)}.into(), vec![{z}, {st}])))" if en else f"T::D(Box::new(Def::Struct({st})))", "derived")
            c = dict(defs=[d], extra=["-abc", "-", "z7", "z300", "-é日", "abc"])
            out.append(g.finish(c, g.of(False, ["", ""], [(t, "O::None")]), f'out(sscanf::sscanf!(s, "{{}}", {n}), s)', f'sscanf!(input, "{{}}", {n})', 0))
    # every documented spelling, as macro argument and inside the placeholder
    for ty in STRS + COWS + ["&core::primitive::str", "&::std::primitive::str", "primitive::str", "&primitive::str", "Cow<primitive::str>", "alloc::borrow::Cow<str>", "alloc::borrow::Cow<'_, str>"]:
        t = T(ty, "T::Cow" if "Cow" in ty else "T::Str", "str", lt=True)
        pre = (["use std::primitive;"] if "primitive::str" in ty else []) + (["extern crate alloc;"] if "alloc" in ty else [])
        for inline in (0, 1):
            if inline and ty.startswith("&") and False: continue
            lit = f'"{{{ty}}}={{{ty}:/[a-z]+/}}"' if inline else '"{}={:/[a-z]+/}"'
            args = "" if inline else f", {ty}, {ty}"
            c = dict(defs=list(pre), extra=["a=b", "=b", "é=ab", "x", "a=b=c", "a=1"])
            out.append(g.finish(c, g.of(False, ["", "=", ""], [(t, "O::None"), (t, 'O::Re("[a-z]+".into())')]), f"out(sscanf::sscanf!(s, {lit}{args}), s)", f"sscanf!(input, {lit}{args})", 0))
    return out

# independent reading of the documentation: the words of a name end at underscores, in front of capitals (of a run of
# capitals the last one starts the next word) and between letters and digits
def words(n):
    w = [[]]
    for i, c in enumerate(n):
        p = n[i - 1] if i else "_"
        if c == "_": w.append([]); continue
        if p != "_" and (c.isdigit() != p.isdigit() or c.isupper() and (p.islower() or i + 1 < len(n) and n[i + 1].islower())): w.append([])
        w[-1].append(c)
    return ["".join(x).lower() for x in w if x]
CASES = {
    "lower case": lambda w: " ".join(w), "UPPER CASE": lambda w: " ".join(w).upper(), "lowercase": lambda w: "".join(w), "UPPERCASE": lambda w: "".join(w).upper(),
    "PascalCase": lambda w: "".join(x.capitalize() for x in w), "camelCase": lambda w: w[0] + "".join(x.capitalize() for x in w[1:]),
    "snake_case": lambda w: "_".join(w), "SCREAMING_SNAKE_CASE": lambda w: "_".join(w).upper(), "kebab-case": lambda w: "-".join(w), "SCREAMING-KEBAB-CASE": lambda w: "-".join(w).upper(),
}
POOL = ["Ab", "Foo", "Kilo", "Bar", "Str", "Zed", "Quux", "Io", "Element", "Type", "Uber", "Is", "Übung", "Élan", "Ñandu", "Žluť", "Яма", "Öl"]
def autogen(g):
    r = g.r; out = []
    kinds = list(CASES) + ["CaseSensitive", "CaseInsensitive", None]
    for kind in kinds:
        for rep in range(2):
            names = []
            while len(names) < 5:
                n = ("_" if r.random() < 0.25 else "").join(r.choice(POOL + ["X", "HTTP"] if rep else POOL) for _ in range(r.randint(1, 3)))
                if rep and r.random() < 0.3: n += r.choice(["2", "_7", "64", "3d", "9Ab"])
                if r.random() < 0.1: n = r.choice([n.upper(), n.lower()])
                if n in ("IO", "io", "is", "as", "type") or not n[0].isalpha(): continue
                if n not in names and n.lower() not in [x.lower() for x in names] and n != "Self": names.append(n)
            raws = ["r#type", "r#Match", "snake_word", "r#fn"]
            plain = list(names)
            if kind in (None, "CaseSensitive", "CaseInsensitive"): plain += raws[:3]
            elif rep == 1: plain += ["r#type", "snake_word"]
            g.uid += 1
            en = f"Auto{g.uid}"
            decl = ""; arms = ""; os_ = []
            k_expl, k_skip = r.randrange(len(plain)), None
            if len(plain) > 2:
                while True:
                    k_skip = r.randrange(len(plain))
                    if k_skip != k_expl: break
            extra = []
            for k, n in enumerate(plain):
                bare = n[2:] if n.startswith("r#") else n
                arms += f"{en}::{n} => \"{en}::{n}{{}}\".to_string(),\n"
                forms = [bare] + [f(words(bare)) for f in CASES.values()] + [bare.lower(), bare.upper(), bare.swapcase(), bare + "x", "r#" + bare, bare.replace("K", "\u212a").replace("s", "\u017f")]
                extra += forms
                if k == k_skip: decl += f"    #[sscanf(skip)] {n},\n"; continue
                if k == k_expl:
                    decl += f"    #[sscanf(format = \"own{k}\")] {n},\n"; extra.append(f"own{k}")
                    os_.append((n, f'F {{ unesc: false, parts: vec!["own{k}".into()], phs: vec![] }}')); continue
                decl += f"    {n},\n"
                if kind == "CaseInsensitive": os_.append((n, f'F {{ unesc: true, parts: vec!["(?i:{bare})".into()], phs: vec![] }}'))
                else:
                    txt = bare if kind in (None, "CaseSensitive") else CASES[kind](words(bare))
                    os_.append((n, f'F {{ unesc: false, parts: vec![{rstr(txt)}.into()], phs: vec![] }}'))
            word = "autogen" if r.random() < 0.7 else "autogenerate"
            attr = word if kind is None else f"{word} = \"{kind}\""
            if kind == "CaseInsensitive" and rep == 1: attr = word + " = " + r.choice(['"case insensitive"', '"CASE_INSENSITIVE"', '"caseinsensitive"', '"case-insensitive"'])
            c = dict(defs=[f"#[derive(sscanf::FromScanf)]\n#[sscanf({attr})]\n#[allow(non_camel_case_types)]\npub enum {en} {{\n{decl}}}\nimpl Show for {en} {{ fn show(&self, base: &str) -> String {{ match self {{ {arms} }} }} }}"], extra=sorted(set(extra)))
            t = T(en, f'T::D(Box::new(Def::Enum({rstr(en)}.into(), vec![' + ", ".join(f'S {{ name: {rstr(n)}.into(), fmt: {f}, fields: vec![] }}' for n, f in os_) + "])))", "derived", single=False)
            pre, post = r.choice([("", ""), ("<", ">"), ("a", ""), ("", "!")])
            c["extra"] = [pre + e + post for e in c["extra"]]
            out.append(g.finish(c, g.of(False, [pre, post], [(t, "O::None")]), f'out(sscanf::sscanf!(s, {rstr(pre + "{}" + post)}, {en}), s)', f'sscanf!(input, {rstr(pre + "{}" + post)}, {en})', 0))
    return out

def generate(prop, seed, dst, repo, e2e, scale=1.0, asserts=True):
    g = Gen(prop, seed)
    cases = g.families()
    if g.p.types not in ("radix", "C07", "C08", "C13"):
        for _ in range(int(g.p.n * scale)): cases.append(g.case())
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    mods = []
    files = 0
    for i, c in enumerate(cases):
        ex = ", ".join(rstr(x) for x in c["extra"])
        defs = "\n".join(c["defs"])
        mods.append(f"mod c{i} {{ #![allow(unused_imports, dead_code, non_camel_case_types, unused_variables)] use crate::oracle::*; use std::borrow::{{self, Cow}};\n{defs}\n"
            f"pub fn fmt() -> F {{ {c['fmt']} }}\npub fn run(s: &str) -> Out {{ {c['run']} }}\n"
            f"pub fn case() -> Case {{ Case {{ id: \"c{i}\", shown: {rstr(c['shown'])}, fmt, run, mode: {c['mode']}, extra: &[{ex}] }} }} }}")
    src = "#![allow(deprecated)]\n#[path = %s] mod oracle;\n" % rstr(os.path.join(e2e, "oracle.rs")) + "\n".join(mods) + "\nfn main() { oracle::main(vec![" + ", ".join(f"c{i}::case()" for i in range(len(cases))) + "]) }\n"
    open(os.path.join(dst, "src", "main.rs"), "w").write(src)
    open(os.path.join(dst, "Cargo.toml"), "w").write(f'''[package]
name = "e2e"
version = "0.0.0"
edition = "2021"
[dependencies]
sscanf = {{ path = "{repo}" }}
regex = "1"
regex-syntax = "0.8"
serde_json = "1"
[profile.dev]
debug = false
debug-assertions = {str(asserts).lower()}
incremental = false
[profile.dev.package."*"]
opt-level = 1
[workspace]
''')
    return len(cases)
if __name__ == "__main__":
    print(generate(sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5]))
