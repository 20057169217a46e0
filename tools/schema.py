"""A small ASN.1 schema DSL with its own implementation of the X.680 tagging rules.

From one description of a module it produces
  * the ASN.1 text which is given to the real fast_ber compiler,
  * tables (C++) describing the BER encoding X.690 prescribes, for the independent reference codec,
  * bridge code (C++) converting the generated C++ types from/to the neutral value tree `Val`.
Nothing in here is derived from the fast_ber sources.
"""

UNI, APP, CTX, PRIV = 0, 1, 2, 3
CLSNAME = {UNI: "UNIVERSAL ", APP: "APPLICATION ", CTX: "", PRIV: "PRIVATE "}


class Type:
    textually_tagged = False


class Prim(Type):
    # kind -> C++ Kind enumerator
    def __init__(self, asn, kind, univ):
        self.asn, self.kind, self.univ = asn, kind, univ

    def text(self, m, ind):
        return self.asn


INTEGER = Prim("INTEGER", "INT", 2)
BOOLEAN = Prim("BOOLEAN", "BOOL", 1)
REAL = Prim("REAL", "REAL", 9)
NULL = Prim("NULL", "NUL", 5)
OCTETS = Prim("OCTET STRING", "STR", 4)
BITS = Prim("BIT STRING", "STR", 3)
OID = Prim("OBJECT IDENTIFIER", "OID", 6)
UTF8 = Prim("UTF8String", "STR", 12)
NUMERIC = Prim("NumericString", "STR", 18)
PRINTABLE = Prim("PrintableString", "STR", 19)
TELETEX = Prim("TeletexString", "STR", 20)
VIDEOTEX = Prim("VideotexString", "STR", 21)
IA5 = Prim("IA5String", "STR", 22)
GRAPHIC = Prim("GraphicString", "STR", 25)
VISIBLE = Prim("VisibleString", "STR", 26)
GENERAL = Prim("GeneralString", "STR", 27)
UNIVERSALSTR = Prim("UniversalString", "STR", 28)
CHARSTR = Prim("CHARACTER STRING", "STR", 29)
BMP = Prim("BMPString", "STR", 30)
GTIME = Prim("GeneralizedTime", "GTIME", 24)


class Enum(Type):
    univ, kind = 10, "ENUM"

    def __init__(self, items, ext=None):
        self.items, self.ext = items, ext  # [(name, number or None)]; ext: additional items after "..."

    def text(self, m, ind):
        s = [n if v is None else "%s (%d)" % (n, v) for n, v in self.items]
        if self.ext is not None:
            s.append("...")
            s += [n if v is None else "%s (%d)" % (n, v) for n, v in self.ext]
        return "ENUMERATED { " + ", ".join(s) + " }"

    def values(self):
        """X.680 20: items of the root without a number take those from zero which no other item of the root has;
        an additional one the smallest which is not in the root and above all additional ones before it"""
        used = {v for _, v in self.items if v is not None}
        out, nxt = [], 0
        for n, v in self.items:
            if v is None:
                while nxt in used:
                    nxt += 1
                v, nxt = nxt, nxt + 1
            out.append((n, v))
        root, nxt = {v for _, v in out}, 0
        for n, v in self.ext or []:
            if v is None:
                while nxt in root:
                    nxt += 1
                v = nxt
            out.append((n, v))
            nxt = v + 1
        return out


class Tagged(Type):
    textually_tagged = True

    def __init__(self, cls, num, t, mode=None):
        self.cls, self.num, self.t, self.mode = cls, num, t, mode

    def text(self, m, ind):
        mode = {None: "", "I": "IMPLICIT ", "E": "EXPLICIT "}[self.mode]
        return "[%s%d] %s%s" % (CLSNAME[self.cls], self.num, mode, self.t.text(m, ind))


def ctx(n, t, mode=None):
    return Tagged(CTX, n, t, mode)


class Ref(Type):
    def __init__(self, name, mod=None):
        self.name, self.mod = name, mod

    def text(self, m, ind):
        return self.name


class Raw(Type):
    """A type written differently in the ASN.1 text (parameterized types, COMPONENTS OF ...) than its meaning."""

    def __init__(self, asn, t):
        self.asn, self.t = asn, t
        self.textually_tagged = t.textually_tagged

    def text(self, m, ind):
        return self.asn


class Field:
    def __init__(self, name, t, opt=None, asn=None, default_text=None):
        self.name, self.t, self.opt, self.asn, self.default_text = name, t, opt, asn, default_text


OPT = "OPTIONAL"


class Default:
    def __init__(self, val, text):
        self.val, self.text = val, text


def F(name, t, opt=None, **kw):
    return Field(name, t, opt, **kw)


class Seq(Type):
    kind, univ, word = "SEQ", 16, "SEQUENCE"

    def __init__(self, fields, ext=None, text=None):
        self.fields, self.ext, self.asn = fields, ext, text  # ext: index at which "..." is placed, or None

    def text(self, m, ind):
        if self.asn:
            return self.asn
        lines = []
        for i, f in enumerate(self.fields):
            if self.ext == i:
                lines.append("...")
            s = f.asn or (f.name + " " + f.t.text(m, ind + 1))
            if f.opt == OPT:
                s += " OPTIONAL"
            elif f.opt is not None:
                s += " DEFAULT " + f.opt.text
            lines.append(s)
        if self.ext is not None and self.ext >= len(self.fields):
            lines.append("...")
        pad = "    " * (ind + 1)
        return self.word + " {\n" + ",\n".join(pad + x for x in lines) + "\n" + "    " * ind + "}"


class Set(Seq):
    kind, univ, word = "SET", 17, "SET"


class Choice(Type):
    kind = "CHOICE"

    def __init__(self, alts, ext=False):
        self.fields, self.ext = [Field(n, t) for n, t in alts], ext

    def text(self, m, ind):
        lines = [f.name + " " + f.t.text(m, ind + 1) for f in self.fields]
        if self.ext:
            lines.append("...")
        pad = "    " * (ind + 1)
        return "CHOICE {\n" + ",\n".join(pad + x for x in lines) + "\n" + "    " * ind + "}"


class SeqOf(Type):
    kind, univ, word = "SEQOF", 16, "SEQUENCE OF"

    def __init__(self, t, name=None):
        self.t, self.name = t, name

    def text(self, m, ind):
        return self.word + " " + (self.name + " " if self.name else "") + self.t.text(m, ind)


class SetOf(SeqOf):
    kind, univ, word = "SETOF", 17, "SET OF"


class Module:
    def __init__(self, name, mode, types, imports=(), prelude="", after=""):
        self.name, self.mode, self.types = name, mode, types  # types: [(Name, Type)] or [(Name, Type, asn text)]
        self.imports, self.prelude, self.after = imports, prelude, after

    def text(self):
        out = "%s DEFINITIONS %s TAGS ::= BEGIN\n" % (self.name, self.mode)
        if self.imports:
            out += "IMPORTS\n" + "\n".join("    %s FROM %s" % (", ".join(n), mod) for mod, n in self.imports) + ";\n"
        out += self.prelude
        for d in self.types:
            if len(d) > 2:
                if d[2]:
                    out += d[2] + "\n\n"
            else:
                out += "%s ::= %s\n\n" % (d[0], d[1].text(self, 0))
        return out + self.after + "END\n"


def cpp_name(n):
    return n.replace("-", "_")


class Generator:
    """Generates tables and bridge for a list of modules which are compiled together."""

    def __init__(self, modules):
        self.modules = {m.name: m for m in modules}
        self.order = modules
        self.bodies = []
        self.body_of = {}
        self.keep = []

    def find(self, mod, ref):
        m = self.modules[ref.mod] if ref.mod else mod
        for d in m.types:
            if d[0] == ref.name:
                return m, d[1]
        raise KeyError((mod.name, ref.name))

    # ---- tagging (X.680 clause 31) -------------------------------------------------------------------------------
    def use(self, mod, t):
        """-> (tags outermost first, body index)"""
        if isinstance(t, Raw):
            return self.use(mod, t.t)
        if isinstance(t, Ref):
            m, target = self.find(mod, t)
            return self.use(m, target)
        if isinstance(t, Tagged):
            tags, body = self.use(mod, t.t)
            mode = t.mode or ("E" if mod.mode == "EXPLICIT" else "I")
            if not tags:  # untagged CHOICE: always explicit
                mode = "E"
            if mode == "I":
                return [(t.cls, t.num)] + tags[1:], body
            return [(t.cls, t.num)] + tags, body
        if isinstance(t, Choice):
            return [], self.body(mod, t)
        return [(UNI, t.univ)], self.body(mod, t)

    def fields(self, mod, t):
        auto = mod.mode == "AUTOMATIC" and not any(f.t.textually_tagged for f in t.fields)
        return [ctx(i, f.t, "I") if auto else f.t for i, f in enumerate(t.fields)]

    def body(self, mod, t):
        key = (mod.name, id(t))
        self.keep.append(t)
        if key in self.body_of:
            return self.body_of[key]
        i = len(self.bodies)
        self.body_of[key] = i
        b = {"kind": t.kind, "fields": [], "elem": None, "ext": False, "enum": [], "univ": getattr(t, "univ", 0)}
        self.bodies.append(b)
        if t.kind in ("SEQ", "SET", "CHOICE"):
            b["ext"] = bool(t.ext is not None and t.ext is not False)
            b["extpos"] = t.ext if t.kind != "CHOICE" and t.ext is not None else -1
            for f, ft in zip(t.fields, self.fields(mod, t)):
                b["fields"].append((f.name, self.use(mod, ft), f.opt, f.t))
        elif t.kind in ("SEQOF", "SETOF"):
            b["elem"] = self.use(mod, t.t)
        elif t.kind == "ENUM":
            b["enum"] = t.values()
        return i

    @staticmethod
    def tags_cpp(tags):
        return "{" + ", ".join("{%d, %d}" % x for x in tags) + "}"

    def default_cpp(self, t, val):
        t0 = t
        while isinstance(t0, (Tagged, Raw)):
            t0 = t0.t
        if isinstance(val, bool):
            return "VI(%d)" % int(val)
        if isinstance(val, int):
            return "VI(%dLL)" % val if val != -2**63 else "VI(INT64_MIN)"
        if isinstance(val, float):
            return "VD(%r)" % val
        if isinstance(val, str):
            return 'VS("%s")' % val
        raise TypeError(val)

    def tables_cpp(self, ns):
        uses = []
        for m in self.order:
            for d in m.types:
                uses.append((m, d[0], self.use(m, d[1])))
        out = ['#include "val.hpp"', "namespace %s {" % ns, "static Body B[%d];" % len(self.bodies),
               "static void init_tables() {", "  static bool done = false; if (done) return; done = true;"]
        for i, b in enumerate(self.bodies):
            out.append("  { Body& b = B[%d]; b.kind = K_%s; b.ext = %d; b.extpos = %d; b.univ = %d;" %
                       (i, b["kind"], b["ext"], b.get("extpos", -1), b["univ"]))
            for n, (tags, bi), opt, ft in b["fields"]:
                if opt is None:
                    o = "M_MANDATORY, Val()"
                elif opt == OPT:
                    o = "M_OPTIONAL, Val()"
                else:
                    o = "M_DEFAULT, " + self.default_cpp(ft, opt.val)
                out.append('    b.fields.push_back(BField{"%s", Use{%s, &B[%d]}, %s});' % (n, self.tags_cpp(tags), bi, o))
            if b["elem"]:
                out.append("    b.elem = Use{%s, &B[%d]};" % (self.tags_cpp(b["elem"][0]), b["elem"][1]))
            for n, v in b["enum"]:
                out.append('    b.enums.push_back({"%s", %d});' % (n, v))
            out.append("  }")
        out.append("}")
        out.append("}")
        self.uses = uses
        return "\n".join(out) + "\n"

    # ---- bridge --------------------------------------------------------------------------------------------------
    def named(self, mod, t):
        """Name of the conversion function for a reference."""
        m = self.modules[t.mod] if t.mod else mod
        return cpp_name(m.name) + "_" + cpp_name(t.name)

    def items(self, t):
        """what the names of an enumeration stand for"""
        return "{" + ", ".join("{E::%s, %d}" % (cpp_name(n), x) for n, x in t.values()) + "}"

    def emit_tv(self, mod, t, e, v, depth):
        p = "  " * (depth + 1)
        while isinstance(t, (Tagged, Raw)):
            t = t.t
        if isinstance(t, Ref):
            return p + "tv_%s(%s, %s);\n" % (self.named(mod, t), e, v)
        if isinstance(t, Enum):
            return p + "{ using E = typename std::decay<decltype(%s)>::type::Values; tvp_ENUM(%s, %s, std::vector<std::pair<E, long long>>%s); }\n" % (e, e, v, self.items(t))
        if isinstance(t, Prim):
            return p + "tvp_%s(%s, %s);\n" % (t.kind, e, v)
        s = ""
        y, w = "y%d" % depth, "w%d" % depth
        if t.kind in ("SEQ", "SET"):
            s += p + "%s.kids.resize(%d);\n" % (v, len(t.fields))
            for i, f in enumerate(t.fields):
                x = "%s.%s" % (e, cpp_name(f.name))
                s += p + "{ Val& %s = %s.kids[%d];\n" % (w, v, i)
                if f.opt is None:
                    s += self.emit_tv(mod, f.t, x, w, depth + 1)
                elif f.opt == OPT:
                    s += p + "  %s.present = %s.has_value();\n" % (w, x)
                    s += p + "  if (%s.present) { const auto& %s = *%s;\n" % (w, y, x)
                    s += self.emit_tv(mod, f.t, y, w, depth + 1) + p + "  }\n"
                else:
                    s += p + "  %s.present = !%s.is_default(); { const auto& %s = %s.get();\n" % (w, x, y, x)
                    s += self.emit_tv(mod, f.t, y, w, depth + 1) + p + "  }\n"
                s += p + "}\n"
        elif t.kind == "CHOICE":
            s += p + "%s.kids.resize(1); %s.alt = (int)%s.index(); Val& %s = %s.kids[0];\n" % (v, v, e, w, v)
            s += p + "switch (%s.index()) {\n" % e
            for i, f in enumerate(t.fields):
                s += p + "case %d: { const auto& %s = fast_ber::get<%d>(%s);\n" % (i, y, i, e)
                s += self.emit_tv(mod, f.t, y, w, depth + 1) + p + "break; }\n"
            s += p + "default: %s.alt = -1; }\n" % v
        else:
            s += p + "for (const auto& %s : %s) { %s.kids.emplace_back(); Val& %s = %s.kids.back();\n" % (y, e, v, w, v)
            s += self.emit_tv(mod, t.t, y, w, depth + 1) + p + "}\n"
        return s

    def emit_fv(self, mod, t, v, e, depth):
        p = "  " * (depth + 1)
        while isinstance(t, (Tagged, Raw)):
            t = t.t
        if isinstance(t, Ref):
            return p + "fv_%s(%s, %s, st);\n" % (self.named(mod, t), v, e)
        if isinstance(t, Enum):
            return p + "{ using E = typename std::decay<decltype(%s)>::type::Values; fvp_ENUM(%s, %s, std::vector<std::pair<E, long long>>%s, st); }\n" % (e, v, e, self.items(t))
        if isinstance(t, Prim):
            return p + "fvp_%s(%s, %s, st);\n" % (t.kind, v, e)
        s = ""
        y, w = "y%d" % depth, "w%d" % depth
        if t.kind in ("SEQ", "SET"):
            for i, f in enumerate(t.fields):
                x = "%s.%s" % (e, cpp_name(f.name))
                s += p + "{ const Val& %s = %s.kids[%d];\n" % (w, v, i)
                if f.opt is None:
                    s += self.emit_fv(mod, f.t, w, x, depth + 1)
                elif f.opt == OPT:
                    s += p + "  if (!%s.present) { clear_optional(%s, st); }\n" % (w, x)
                    s += p + "  else { auto& %s = open_optional(%s, st);\n" % (y, x)
                    s += self.emit_fv(mod, f.t, w, y, depth + 1) + p + "  }\n"
                else:
                    s += p + "  if (!%s.present) { %s.set_to_default(); }\n" % (w, x)
                    s += p + "  else { typename std::decay<decltype(%s.get())>::type %s;\n" % (x, y)
                    s += self.emit_fv(mod, f.t, w, y, depth + 1) + p + "  %s = %s; }\n" % (x, y)
                s += p + "}\n"
        elif t.kind == "CHOICE":
            s += p + "const Val& %s = %s.kids[0];\n" % (w, v)
            s += p + "switch (%s.alt) {\n" % v
            for i, f in enumerate(t.fields):
                s += p + "case %d: { auto& %s = open_choice<%d>(%s, st);\n" % (i, y, i, e)
                s += self.emit_fv(mod, f.t, w, y, depth + 1) + p + "break; }\n"
            s += p + "}\n"
        else:
            s += p + "open_list(%s, %s.kids.size(), st);\n" % (e, v)
            s += p + "{ std::size_t i%d = 0; for (const Val& %s : %s.kids) { auto& %s = list_elem(%s, i%d++);\n" % (
                depth, w, v, y, e, depth)
            s += self.emit_fv(mod, t.t, w, y, depth + 1) + p + "} }\n"
        return s

    def bridge_cpp(self, ns, headers):
        out = ['#include "%s"' % h for h in headers]
        out += ['#include "bridge.hpp"', '#include "tables_%s.hpp"' % ns, "namespace %s {" % ns]
        for m in self.order:
            for d in m.types:
                n = cpp_name(m.name) + "_" + cpp_name(d[0])
                out.append("template <class X> void tv_%s(const X& x, Val& v);" % n)
                out.append("template <class X> void fv_%s(const Val& v, X& x, int st);" % n)
        for m in self.order:
            for d in m.types:
                n = cpp_name(m.name) + "_" + cpp_name(d[0])
                out.append("template <class X> void tv_%s(const X& x, Val& v)\n{\n%s}" % (n, self.emit_tv(m, d[1], "x", "v", 0)))
                out.append("template <class X> void fv_%s(const Val& v, X& x, int st)\n{\n%s}" % (n, self.emit_fv(m, d[1], "v", "x", 0)))
        out.append("void register_types()\n{\n  init_tables();")
        for m, name, (tags, bi) in self.uses:
            n = cpp_name(m.name) + "_" + cpp_name(name)
            t = "::fast_ber::%s::%s" % (cpp_name(m.name), cpp_name(name))
            out.append('  { struct Conv { static void to(const %s& x, Val& v) { tv_%s(x, v); } '
                       'static void from(const Val& v, %s& x, int st) { fv_%s(v, x, st); } };\n'
                       '    add_type<%s, Conv>("%s.%s", Use{%s, &B[%d]}); }' %
                       (t, n, t, n, t, m.name, name, self.tags_cpp(tags), bi))
        out.append("}\n}")
        return "\n".join(out) + "\n"
