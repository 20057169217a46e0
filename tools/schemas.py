"""The vetted schemas the simulated peers speak. Each group is compiled by one run of the real compiler."""
from schema import *

D = Default

# ---------------------------------------------------------------------------------------------------------------------
prim = [Module("SimPrim", "EXPLICIT", [
    ("P-Int", INTEGER), ("P-Bool", BOOLEAN), ("P-Real", REAL), ("P-Null", NULL), ("P-Octets", OCTETS),
    ("P-Bits", BITS), ("P-Oid", OID), ("P-Utf8", UTF8), ("P-Numeric", NUMERIC), ("P-Printable", PRINTABLE),
    ("P-Teletex", TELETEX), ("P-Videotex", VIDEOTEX), ("P-Ia5", IA5), ("P-Graphic", GRAPHIC), ("P-Visible", VISIBLE),
    ("P-General", GENERAL), ("P-Universal", UNIVERSALSTR), ("P-Char", CHARSTR), ("P-Bmp", BMP), ("P-Time", GTIME),
    ("P-Colour", Enum([("red", None), ("green", None), ("blue", None)], [])),
    ("P-Level", Enum([("low", -5), ("mid", 0), ("high", 70000)])),
    ("P-TagInt", Tagged(APP, 3, INTEGER)), ("P-TagStr", ctx(31, IA5)), ("P-TagTime", Tagged(PRIV, 200, GTIME)),
    ("P-TagBool", ctx(1, BOOLEAN)), ("P-TagNull", ctx(2, NULL)), ("P-TagOid", ctx(3, OID)), ("P-TagReal", ctx(4, REAL)),
    ("P-TagEnum", Tagged(APP, 5, Ref("P-Colour"))),
    ("P-IntList", SeqOf(INTEGER)), ("P-StrSet", SetOf(OCTETS)), ("P-TagList", ctx(9, SeqOf(Ref("P-Level")))),
    ("P-TimeList", SeqOf(GTIME)), ("P-OidList", SeqOf(OID)), ("P-RealList", SeqOf(REAL)), ("P-NullList", SeqOf(NULL)),
    ("P-BoolMatrix", SeqOf(SeqOf(BOOLEAN))),
    ("P-All", Seq([
        F("i", INTEGER), F("b", BOOLEAN), F("n", NULL), F("o", OCTETS), F("bits", BITS), F("oid", OID),
        F("u", UTF8, OPT), F("num", NUMERIC, OPT), F("pr", PRINTABLE, OPT), F("tt", TELETEX, OPT),
        F("vt", VIDEOTEX, OPT), F("ia", IA5, OPT), F("gr", GRAPHIC, OPT), F("vis", VISIBLE, OPT),
        F("gen", GENERAL, OPT), F("uni", UNIVERSALSTR, OPT), F("ch", CHARSTR, OPT), F("bmp", BMP, OPT),
        F("t", GTIME), F("r", REAL, OPT), F("e", Ref("P-Colour")), F("l", Ref("P-Level"), OPT)])),
    ("P-Defaults", Seq([
        F("i", INTEGER, D(88, "88")), F("flag", BOOLEAN, D(False, "FALSE")), F("s", OCTETS, D("dog", '"dog"')),
        F("big", ctx(5, INTEGER), D(-172803790, "big-default")), F("c", ctx(1, Ref("P-Colour")), D(2, "blue")),
        F("t", ctx(2, BOOLEAN), D(True, "TRUE")), F("min", ctx(3, INTEGER), D(-1, "-1")),
        F("text", ctx(40, IA5), D("abc", '"abc"')), F("last", ctx(41, INTEGER))])),
    ("P-Tagged", Seq([
        F("a", ctx(0, INTEGER)), F("b", ctx(1, BOOLEAN), OPT), F("c", ctx(2, NULL)), F("d", ctx(30, OCTETS), OPT),
        F("e", ctx(31, OID)), F("f", ctx(127, REAL), OPT), F("g", ctx(128, GTIME)), F("h", ctx(16384, BITS), OPT),
        F("i", Tagged(APP, 1, INTEGER), OPT), F("j", Tagged(PRIV, 1, INTEGER), OPT),
        F("k", ctx(3, Ref("P-TagInt"), "I"), OPT), F("l", ctx(4, Ref("P-TagStr"), "I"))])),
    ("P-Choice", Choice([
        ("i", INTEGER), ("b", BOOLEAN), ("s", OCTETS), ("n", NULL), ("r", REAL), ("t", GTIME), ("oid", OID),
        ("e", Ref("P-Colour")), ("x", ctx(1, INTEGER)), ("y", Tagged(APP, 1, INTEGER)), ("z", Tagged(PRIV, 1, UTF8)),
        ("q", Ref("P-All")), ("l", ctx(2, Ref("P-IntList")))])),
    ("P-Wrap", Seq([
        F("c", ctx(0, Ref("P-Choice"))), F("d", ctx(7, Ref("P-Choice"), "I"), OPT),
        F("e", Ref("P-Choice")), F("l", ctx(5, SeqOf(Ref("P-Choice"))))])),
], prelude="big-default INTEGER ::= -172803790\n\n")]

# ---------------------------------------------------------------------------------------------------------------------
impl = [Module("SimImpl", "IMPLICIT", [
    ("Point", Seq([F("x", INTEGER), F("y", INTEGER), F("label", IA5, OPT)])),
    ("Empty", Seq([])), ("Empty-Set", Set([])),
    ("Shade", Enum([("dark", None), ("light", None), ("none", None)])),
    ("Tagged-Point", Tagged(APP, 7, Ref("Point"))),
    ("Explicit-Point", Tagged(APP, 60, Ref("Point"), "E")),
    ("High-Point", ctx(5000000, Ref("Point"))),
    ("Shape", Choice([
        ("circle", ctx(0, Seq([F("centre", Ref("Point")), F("radius", INTEGER)]))),
        ("line", ctx(1, SeqOf(Ref("Point")))),
        ("nothing", ctx(2, NULL)), ("name", ctx(3, UTF8)), ("tagged", Ref("Tagged-Point")),
        ("priv", Tagged(PRIV, 0, INTEGER)), ("uni", INTEGER), ("expl", ctx(4, BOOLEAN, "E")),
        ("high", ctx(31, OCTETS)), ("shade", ctx(77, Ref("Shade")))])),
    ("Pair-Choice", Choice([
        ("first", Choice([("a", ctx(1, OCTETS)), ("b", ctx(2, OCTETS))])),
        ("second", Choice([("c", ctx(3, OCTETS)), ("d", ctx(4, BOOLEAN))])),
        ("third", ctx(5, Ref("Shape")))])),
    ("Info", Set([
        F("key", INTEGER), F("name", UTF8, OPT), F("flag", ctx(0, BOOLEAN), D(True, "TRUE")),
        F("shape", ctx(1, Ref("Shape")), OPT), F("point", Tagged(APP, 0, Ref("Point"))),
        F("shade", ctx(33, Ref("Shade")), D(1, "light")), F("list", ctx(2, SetOf(INTEGER)), OPT),
        F("priv", Tagged(PRIV, 0, Seq([F("deep", ctx(0, INTEGER, "E"), OPT), F("str", BITS)])))])),
    ("Choice-Set", Set([
        F("pick", Choice([("i", INTEGER), ("o", OCTETS)])), F("other", Ref("Pair-Choice"), OPT),
        F("b", BOOLEAN, D(False, "FALSE"))])),
    ("Same-Number", Seq([
        F("a", ctx(1, INTEGER), OPT), F("b", Tagged(APP, 1, INTEGER), OPT), F("c", Tagged(PRIV, 1, INTEGER), OPT),
        F("d", BOOLEAN, OPT), F("e", INTEGER)])),
    ("Nest", Seq([
        F("one", Seq([F("two", Seq([F("three", Set([F("i", INTEGER), F("s", OCTETS, OPT)])), F("b", BOOLEAN, OPT)])),
                      F("e", Enum([("p", 3), ("q", 200)]))])),
        F("mixed", Enum([("five", 5), ("nought", None), ("two", 2), ("one", None), ("three", None), ("minus", -1), ("four", None), ("six", None)])),
        F("items", ctx(0, SeqOf(Seq([F("k", OID), F("v", ctx(0, Ref("Shape"), "E"), OPT), F("t", ctx(1, GTIME), OPT)])))),
        F("opt-seq", ctx(1, Seq([F("r", REAL), F("n", NULL, OPT)])), OPT),
        F("opt-set", ctx(2, Ref("Info")), OPT),
        F("opt-empty", ctx(3, Ref("Empty")), OPT),
        F("expl", ctx(4, Ref("Point"), "E"), OPT),
        F("expl-list", ctx(5, SeqOf(INTEGER), "E"), OPT),
        F("expl-tagged", ctx(6, Ref("Tagged-Point"), "E"), OPT),
        F("retag", ctx(7, Ref("Explicit-Point")), OPT)])),
    ("Message", Seq([
        F("version", ctx(0, INTEGER, "E"), D(1, "1")), F("serial", INTEGER), F("body", Ref("Shape")),
        F("info", ctx(1, Ref("Info"), "E"), OPT), F("sig", BITS, OPT), F("tail", ctx(99, SeqOf(Ref("Nest"))), OPT)])),
    ("Batch", SeqOf(Ref("Message"))), ("Shape-List", ctx(3, SetOf(Ref("Shape")))),
    ("Tagged-Items", SeqOf(ctx(4, Ref("Point")))), ("Expl-Items", SetOf(ctx(4, Ref("Point"), "E"))),
    ("Choice-Items", SeqOf(ctx(6, Ref("Shape")))), ("Ref-Items", SeqOf(Ref("Tagged-Point"))),
    ("Retag-Items", SeqOf(Tagged(PRIV, 5, Ref("Tagged-Point")))), ("Inline-Items", SeqOf(ctx(7, Seq([F("x", INTEGER)])))),
    ("Item-User", Seq([F("a", ctx(0, SeqOf(ctx(1, Ref("Point")))), OPT), F("b", SeqOf(ctx(2, Ref("Shape")))),
                       F("c", ctx(1, Ref("High-Point")), OPT), F("d", Ref("Expl-Choice"), OPT), F("e", Ref("High-Point"), OPT)])),
    ("Again-Tagged", ctx(90, Ref("Explicit-Point"))), ("Alias-Of-Tagged", Ref("Tagged-Point")),
    ("Expl-List", ctx(8, SeqOf(Ref("Point")), "E")), ("Expl-Choice", ctx(9, Ref("Shape"), "E")),
])]

# ---------------------------------------------------------------------------------------------------------------------
auto = [Module("SimAuto", "AUTOMATIC", [
    ("Inner", Seq([F("x", INTEGER, OPT), F("y", BOOLEAN, D(True, "TRUE")), F("z", OCTETS)])),
    ("Pick", Choice([("a", INTEGER), ("b", BOOLEAN), ("c", Ref("Inner")), ("d", SeqOf(INTEGER)), ("n", NULL)])),
    ("Tagged-Int", ctx(5, INTEGER, "E")), ("Impl-Int", ctx(6, INTEGER)),
    ("Record", Seq([
        F("p", Ref("Pick")), F("q", Ref("Pick"), OPT), F("i", Ref("Inner")), F("j", Ref("Inner"), OPT),
        F("k", Seq([F("m", INTEGER, OPT), F("n", INTEGER, OPT)])), F("e", Enum([("u", None), ("v", None)]), OPT),
        F("l", SeqOf(Ref("Inner"))), F("t", Ref("Tagged-Int")), F("o", SeqOf(INTEGER), OPT), F("w", Ref("Impl-Int"), OPT),
        F("s", UTF8, D("none", '"none"')), F("r", REAL, OPT), F("g", GTIME, OPT), F("oid", OID, OPT)])),
    ("Bag", Set([F("c", Ref("Pick")), F("i", Ref("Inner"), OPT), F("b", BOOLEAN, D(False, "FALSE")),
                 F("n", SetOf(Ref("Pick")), OPT), F("z", BITS)])),
    ("Manual", Seq([F("a", ctx(3, INTEGER)), F("b", BOOLEAN), F("c", ctx(4, Ref("Pick")), OPT),
                    F("d", ctx(5, Ref("Inner"), "E")), F("e", INTEGER, OPT)])),
    ("Manual-Choice", Choice([("a", ctx(31, INTEGER)), ("b", BOOLEAN), ("c", Ref("Pick")), ("d", Tagged(APP, 0, Ref("Inner")))])),
    ("Wide", Seq([F("m%02d" % i, INTEGER, OPT) for i in range(40)])),
    ("Outer", Seq([F("rec", Ref("Record"), OPT), F("bag", Ref("Bag"), OPT), F("man", Ref("Manual"), OPT),
                   F("mc", Ref("Manual-Choice"), OPT), F("inlined", Choice([("f", Choice([("g", INTEGER), ("h", OCTETS)])),
                                                                          ("k", Ref("Bag"))]), OPT)])),
])]

# ---------------------------------------------------------------------------------------------------------------------
# Two versions of one protocol; V2 adds optional members, set elements, choice alternatives and enumeration values
def ext_module(name, v2):
    add = (lambda *f: list(f)) if v2 else (lambda *f: [])
    return [Module(name, "EXPLICIT", [
        ("Status", Enum([("ok", 0), ("busy", 1)], [("gone", 7), ("moved", 300)] if v2 else [])),
        ("Address", Seq([F("street", UTF8), F("zip", INTEGER, OPT)] +
                        add(F("country", PRINTABLE, OPT), F("geo", ctx(9, Seq([F("lat", INTEGER), F("lon", INTEGER)])), OPT)),
                        ext=2)),
        ("Event", Choice([("login", ctx(0, INTEGER)), ("logout", ctx(1, NULL)), ("text", UTF8)] +
                         ([("image", ctx(2, OCTETS)), ("link", ctx(3, Ref("Address"))), ("code", Tagged(APP, 0, INTEGER)),
                           ("other", Tagged(PRIV, 1, BOOLEAN))] if v2 else []), ext=not v2)),
        ("Open-Set", Set([F("key", INTEGER), F("name", UTF8, OPT), F("on", ctx(0, BOOLEAN), D(False, "FALSE"))] +
                         add(F("extra", ctx(1, OCTETS), OPT), F("more", ctx(2, SeqOf(INTEGER)), OPT),
                             F("app", Tagged(APP, 0, INTEGER), OPT), F("big", ctx(40, Ref("Address")), OPT)), ext=3)),
        ("Closed-Set", Set([F("key", INTEGER), F("name", UTF8, OPT)] + add(F("extra", ctx(1, OCTETS), OPT)))),
        ("Report", Seq([F("serial", INTEGER), F("status", Ref("Status")), F("where", ctx(0, Ref("Address")), OPT),
                        F("set", ctx(1, Ref("Open-Set"))), F("note", UTF8, D("-", '"-"')),
                        F("events", ctx(2, SeqOf(Ref("Status"))), OPT)] +
                       add(F("prio", ctx(3, INTEGER), OPT), F("who", ctx(4, Ref("Address")), OPT),
                           F("flags", ctx(5, BITS), OPT), F("last", ctx(6, Ref("Event")), OPT)), ext=6)),
        ("History", SeqOf(Ref("Report"))),
        ("Only-Ext", Seq(add(F("a", ctx(0, INTEGER), OPT), F("b", ctx(1, UTF8), OPT)), ext=0)),
        ("Frame", Seq([F("n", INTEGER), F("ev", Ref("Event")), F("addr", ctx(8, Ref("Address"))), F("end", ctx(9, INTEGER))])),
    ])]


ext1, ext2 = ext_module("SimExtOld", False), ext_module("SimExtNew", True)

# ---------------------------------------------------------------------------------------------------------------------
rec = [Module("SimRec", "IMPLICIT", [
    ("Tree", Seq([F("value", INTEGER), F("left", ctx(0, Ref("Tree")), OPT), F("right", ctx(1, Ref("Tree")), OPT)])),
    ("Chain", Seq([F("name", OCTETS), F("next", Ref("Link"), OPT)])),
    ("Link", Tagged(APP, 1, Seq([F("chain", Ref("Chain")), F("weight", INTEGER, OPT)]))),
    ("Expr", Choice([
        ("num", ctx(0, INTEGER)), ("str", ctx(1, UTF8)), ("neg", ctx(2, Ref("Expr"), "E")),
        ("add", ctx(3, Ref("Operands"))), ("list", ctx(4, Ref("Expr-List"))), ("nil", ctx(5, NULL))])),
    ("Operands", Seq([F("lhs", Ref("Expr")), F("rhs", Ref("Expr"))])),
    ("Exprs", SeqOf(Ref("Expr"))), ("Expr-List", Seq([F("items", Ref("Exprs")), F("count", INTEGER, OPT)])),
    ("Dir", Seq([F("name", IA5), F("entries", Ref("Entries")), F("parent", ctx(0, Ref("Entry")), OPT)])),
    ("Entries", SeqOf(Ref("Entry"))),
    ("Entry", Choice([("file", OCTETS), ("dir", ctx(1, Ref("Dir"))), ("link", ctx(2, IA5))])),
    ("Rec-Set", Set([F("key", INTEGER), F("sub", ctx(0, Ref("Rec-Set")), OPT), F("e", ctx(1, Ref("Expr")), OPT)])),
])]

# ---------------------------------------------------------------------------------------------------------------------
_pair_int = Seq([F("a", INTEGER), F("b", Ref("Text", "SimBase"))])
_contents = [F("seq", Seq([F("enu", Enum([("value", 5)])), F("number", INTEGER)])),
             F("cho", Choice([("flag", BOOLEAN), ("word", UTF8)]))]
param = [
    Module("SimBase", "IMPLICIT", [
        ("Text", OCTETS), ("Number", INTEGER), ("Kind", Enum([("first", 0), ("second", 1), ("third", 2)])),
        ("Wrapped-Number", Tagged(APP, 9, INTEGER, "E")),
        ("Coll", Seq([F("text", OCTETS), F("number", INTEGER, OPT), F("tag", ctx(4, Ref("Kind")), OPT)])),
        ("Either", Choice([("t", ctx(0, Ref("Text"))), ("n", ctx(1, Ref("Wrapped-Number"))), ("c", ctx(2, Ref("Coll")))])),
    ]),
    Module("SimParam", "EXPLICIT", [
        ("Pair", None, "Pair{X} ::= SEQUENCE { a INTEGER, b X }"),
        ("Int-Text-Pair", Raw("Pair{Text}", Seq([F("a", INTEGER), F("b", Ref("Text", "SimBase"))]))),
        ("Pair-Pair", Seq([F("first-pair", Raw("Pair{INTEGER}", Seq([F("a", INTEGER), F("b", INTEGER)]))),
                           F("second-pair", Raw("Pair{BOOLEAN}", Seq([F("a", INTEGER), F("b", BOOLEAN)])))])),
        ("Contents", Seq(_contents)),
        ("Components", Seq(_contents, text="SEQUENCE { COMPONENTS OF Contents }")),
        ("Importer", Seq([F("the-text", Ref("Text", "SimBase")), F("the-number", Ref("Wrapped-Number", "SimBase")),
                          F("the-kind", Ref("Kind", "SimBase")), F("the-coll", Ref("Coll", "SimBase"), OPT),
                          F("the-either", ctx(1, Ref("Either", "SimBase")), OPT),
                          F("a-default", ctx(3, INTEGER), D(77, "base-number"))])),
        ("Importers", SeqOf(Ref("Importer"), name="one-importer")),
        ("Local-Either", Choice([("e", Ref("Either", "SimBase")), ("i", INTEGER), ("x", ctx(3, Ref("Importer")))])),
    ], imports=[("SimBase", ["Text", "Number", "Kind", "Wrapped-Number", "Coll", "Either"])],
        prelude="base-number INTEGER ::= 77\n\n"),
]

GROUPS = {"prim": prim, "impl": impl, "auto": auto, "ext1": ext1, "ext2": ext2, "rec": rec, "param": param}
