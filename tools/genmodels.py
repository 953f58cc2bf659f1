#!/usr/bin/env python3
"""Writes harness/src/models.rs: derived models of all small shapes."""
import itertools

# kind -> (type, columns after the name or None for references)
KINDS = {
    "S": ("u32", [""]),
    "O": ("Option<u32>", [""]),
    "T": ("P", ["_x", "_y"]),
    "Q": ("Q", ["_v", "_u"]),
    "R": ("Leaf", None),
    "N": ("Mid", None),
    "D": ("Deep", None),
    "A": ("Keyed", None),
}
# the other types a column can have: type, value, cell, column; all of n
DATE = "chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap()"
TYPES = [
    ("i8", "-((n % 120) as i8)", "Cell::Int(-((n % 120) as i128))", "ty::TINY, 0"),
    ("i16", "-(n as i16)", "Cell::Int(-(n as i128))", "ty::SHORT, 0"),
    ("i32", "-(n as i32) - 70_000", "Cell::Int(-(n as i128) - 70_000)", "ty::LONG, 0"),
    ("i64", "-(n as i64) - (1 << 40)", "Cell::Int(-(n as i128) - (1 << 40))", "ty::LONGLONG, 0"),
    ("u8", "255 - (n % 256) as u8", "Cell::Int(255 - (n % 256) as i128)", "ty::TINY, UNSIGNED"),
    ("u16", "65_535 - n as u16", "Cell::Int(65_535 - n as i128)", "ty::SHORT, UNSIGNED"),
    ("u32", "u32::MAX - n", "Cell::Int(u32::MAX as i128 - n as i128)", "ty::LONG, UNSIGNED"),
    ("u64", "u64::MAX - n as u64", "Cell::Int(u64::MAX as i128 - n as i128)", "ty::LONGLONG, UNSIGNED"),
    ("f32", "n as f32 + 0.25", "Cell::F32(n as f32 + 0.25)", "ty::FLOAT, 0"),
    ("f64", "n as f64 + 0.1", "Cell::F64(n as f64 + 0.1)", "ty::DOUBLE, 0"),
    ("bool", "n % 2 == 1", "Cell::Int((n % 2) as i128)", "ty::TINY, 0"),
    ("String", "format!(\"{n}'\\\\é\\n\")", "Cell::from(&*format!(\"{n}'\\\\é\\n\"))", "ty::VAR_STRING, 0"),
    ("std::string::String", "format!(\"{n}?`\")", "Cell::from(&*format!(\"{n}?`\"))", "ty::VAR_STRING, 0"),
    ("string::String", "n.to_string()", "Cell::Bytes(n.to_string().into_bytes())", "ty::VAR_STRING, 0"),
    ("Vec<u8>", "vec![n as u8, 0, 255]", "Cell::Bytes(vec![n as u8, 0, 255])", "ty::BLOB, 128"),
    ("std::vec::Vec<u8>", "vec![0xC3, n as u8]", "Cell::Bytes(vec![0xC3, n as u8])", "ty::BLOB, 128"),
    ("Hex", "Hex(vec![n as u8, 0xFF])", "Cell::Bytes(vec![n as u8, 0xFF])", "ty::BLOB, 128"),
    ("mysql_connector::types::Hex", "Hex(vec![0, n as u8])", "Cell::Bytes(vec![0, n as u8])", "ty::BLOB, 128"),
    ("NaiveDate", DATE, "Cell::Date(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8)", "ty::DATE, 128"),
    ("chrono::NaiveDate", DATE, "Cell::Date(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8)", "ty::DATE, 128"),
    (
        "chrono::NaiveDateTime",
        DATE + ".and_hms_micro_opt(n % 24, n % 60, n % 59, 1 + n % 999_999).unwrap()",
        "Cell::DateTime(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8, (n % 24) as u8, (n % 60) as u8, (n % 59) as u8, 1 + n % 999_999)",
        "ty::DATETIME, 128",
    ),
    (
        "chrono::Duration",
        "chrono::Duration::microseconds(-(((n as i64 % 30 * 24 + 5) * 60 + 7) * 60 + 8) * 1_000_000 - 9)",
        "Cell::Time(true, n % 30, 5, 7, 8, 9)",
        "ty::TIME, 128",
    ),
]
TYPED = {}
for i, (t, *rest) in enumerate(TYPES):
    # as it is written in optional fields
    option = "std::option::Option" if i % 3 == 1 else "Option"
    TYPED[f"t{i}"] = (False, *rest)
    TYPED[f"o{i}"] = (True, *rest)
    KINDS[f"t{i}"] = (t, [""])
    KINDS[f"o{i}"] = (f"{option}<{t}>", [""])
models = []  # (name, table, auto, fields [(ident, kind)], primary)


def cols(fields):
    out = ["id"]
    for ident, kind in fields:
        name = ident.removeprefix("r#")
        sub = KINDS[kind][1]
        out += [name + x for x in (sub if sub is not None else [""])]
    return out


def add(name, table, fields, auto=True, primary_at=0):
    c = cols(fields)
    if len(set(c)) == len(c):
        models.append((name, table, auto, fields, primary_at))


add("Leaf", "map", [("a", "S")])
add("Mid", "mid", [("map", "R"), ("a", "S")])
add("Deep", "deep", [("mid", "N"), ("root", "R"), ("b", "S")])
# its key is given, not generated
add("Keyed", "keyed", [("a", "S"), ("keyed", "R")], auto=False, primary_at=1)
fixed = len(models)
NAMES = [
    ("root", ["a", "b", "c"]),
    ("ma", ["map", "map_x", "m"]),
    ("root", ["root", "mid", "r#type"]),
    ("t.x", ["t", "x", "x_"]),
]
n = 0
for (table, names), of in zip(NAMES, ["SOTQRN", "STRN", "SRN", "TRN"]):
    for kinds in itertools.product(of, repeat=2):
        n += 1
        add(f"M{n}", table, list(zip(names, kinds)), auto=n % 3 != 0, primary_at=n % 3)
for kinds in itertools.product("TRN", repeat=3):
    n += 1
    table, names = NAMES[n % 4]
    add(f"M{n}", table, list(zip(names, kinds)), auto=n % 3 != 0, primary_at=n % 4)
for table, names in NAMES:
    for kinds in ["D", "A", "S", "DA", "AD", "AS", "TA"]:
        n += 1
        add(f"M{n}", table, list(zip(names, kinds)), auto=n % 2 != 0)

for i in range(len(TYPES)):
    add(f"T{i}", "typed", [("a", f"t{i}"), ("b", f"o{i}")], auto=i % 2 == 0)

out = """//! Written by tools/genmodels.py: derived models of all small shapes.
#![allow(clippy::all, unused)]
use std::string;

use chrono::NaiveDate;
use mysql_connector::{
    macros::*,
    types::Hex,
    model::{ActiveReference, ActiveValue, HasActiveModel, Model, UpdateModel},
};

use crate::shape::{Exp, Gen, Node, Shape};
use mc::wire::{ty, Cell, UNSIGNED};

#[derive(Debug, Clone, Copy)]
pub struct P {
    pub x: u32,
    pub y: u32,
}

#[derive(Debug, Clone, Copy)]
pub struct Q {
    pub x: u32,
    pub y: u32,
}

"""


def emit(name, table, auto, fields, primary_at):
    order = list(fields)
    order.insert(min(primary_at, len(order)), ("id", "id"))
    o = "#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]\n"
    o += f'#[mysql_connector(table = "{table}", primary = "id", auto_increment = "{str(auto).lower()}", ty = P {{ x, y }}, ty = Q {{ x: v, y: u }})]\n'
    o += f"pub struct {name} {{\n"
    for ident, kind in order:
        o += f"    pub {ident}: {'u32' if kind == 'id' else KINDS[kind][0]},\n"
    o += "}\n\n"
    o += f"impl Shape for {name} {{\n"
    o += f'    const NAME: &\'static str = "{name}";\n'
    o += f'    const COLS: &\'static [&\'static str] = &[{", ".join(chr(34) + x + chr(34) for x in cols(fields))}];\n'
    o += f"    const AUTO: bool = {str(auto).lower()};\n"
    o += f"    const OPTIONAL: &'static [&'static str] = &[{', '.join(chr(34) + i.removeprefix('r#') + chr(34) for i, k in fields if k == 'O' or k in TYPED and TYPED[k][0])}];\n"
    types = [(i, TYPED[k][3]) for i, k in fields if k in TYPED]
    if types:
        o += f"    const TYPES: &'static [(&'static str, u8, u16)] = &[{', '.join(f'({chr(34)}{i}{chr(34)}, {t})' for i, t in types)}];\n"
    refs = [(i, KINDS[k][0]) for i, k in fields if KINDS[k][1] is None]
    o += f"    const REFS: &'static [(&'static str, &'static str)] = &[{', '.join(f'({chr(34)}{i.removeprefix(chr(114)+chr(35))}{chr(34)}, {chr(34)}{t}{chr(34)})' for i, t in refs)}];\n"
    if types:
        # the fields alone do not show which values they have
        o += "    fn fill_node(g: &mut Gen) -> (Self, Node) {\n"
        o += "        let mut f = Node::new::<Self>(None);\n"
        for ident, kind in order:
            if kind == "id":
                o += "        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);\n        f.key = Some(id);\n"
            elif kind in TYPED:
                opt, v, cell, _ = TYPED[kind]
                set_ = f'let n = g.value(); f.set("{ident}", Exp::Val({cell}));'
                if opt:
                    o += f'        let {ident} = if g.pick(2) == 0 {{ {set_} Some({v}) }} else {{ f.set("{ident}", Exp::Null); None }};\n'
                else:
                    o += f"        let {ident} = {{ {set_} {v} }};\n"
        o += f"        (Self {{ {', '.join(i for i, _ in order)} }}, f)\n    }}\n"
        o += "    fn fill(g: &mut Gen) -> Self {\n        Self::fill_node(g).0\n    }\n"
    else:
        o += "    fn fill(g: &mut Gen) -> Self {\n        Self {\n"
        for ident, kind in order:
            v = {
                "id": f'g.id(<Self as mysql_connector::model::ModelData>::TABLE)',
                "S": "g.value()",
                "O": "g.optional()",
                "T": "P { x: g.value(), y: g.value() }",
                "Q": "Q { x: g.value(), y: g.value() }",
            }.get(kind)
            v = v or f"{KINDS[kind][0]}::fill(g)"
            o += f"            {ident}: {v},\n"
        o += "        }\n    }\n"
    o += "    fn node(&self) -> Node {\n"
    o += f"        let mut n = Node::new::<Self>(Some(self.id));\n"
    for ident, kind in fields if not types else []:
        c = ident.removeprefix("r#")
        if kind == "S":
            o += f'        n.set("{c}", Exp::Int(self.{ident}));\n'
        elif kind == "O":
            o += f'        n.set("{c}", Exp::opt(self.{ident}));\n'
        elif kind == "T":
            o += f'        n.set("{c}_x", Exp::Int(self.{ident}.x));\n        n.set("{c}_y", Exp::Int(self.{ident}.y));\n'
        elif kind == "Q":
            o += f'        n.set("{c}_v", Exp::Int(self.{ident}.x));\n        n.set("{c}_u", Exp::Int(self.{ident}.y));\n'
        else:
            o += f'        n.set("{c}", Exp::Row(self.{ident}.node()));\n'
    o += "        n\n    }\n"
    o += "    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {\n"
    o += "        let mut a = Self::active_model();\n        let mut n = Node::new::<Self>(None);\n"
    o += "        Self::fields(g, &mut a, &mut n);\n        (a, n)\n    }\n"
    o += "    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {\n"
    if auto:
        o += "        if g.pick(2) == 1 {\n"
    else:
        o += "        {\n"
    o += "            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);\n            n.key = Some(id);\n            a.id = ActiveValue::Set(id);\n        }\n"
    if types:
        o += "        let node = n;\n"
    for ident, kind in fields:
        c = ident.removeprefix("r#")
        ty = KINDS[kind][0]
        if kind == "S":
            o += f'        if g.pick(2) == 1 {{\n            let x = g.value();\n            n.set("{c}", Exp::Int(x));\n            a.{ident} = ActiveValue::Set(x);\n        }}\n'
        elif kind == "O":
            o += f'        match g.pick(3) {{\n            1 => {{\n                let x = g.value();\n                n.set("{c}", Exp::Int(x));\n                a.{ident} = ActiveValue::Set(Some(x));\n            }}\n            2 => {{\n                n.set("{c}", Exp::Null);\n                a.{ident} = ActiveValue::Set(None);\n            }}\n            _ => {{}}\n        }}\n'
        elif kind in TYPED:
            opt, v, cell, _ = TYPED[kind]
            if not opt:
                o += f'        if g.pick(2) == 1 {{\n            let n = g.value();\n            node.set("{c}", Exp::Val({cell}));\n            a.{ident} = ActiveValue::Set({v});\n        }}\n'
            else:
                o += f'        match g.pick(3) {{\n            1 => {{\n                let n = g.value();\n                node.set("{c}", Exp::Val({cell}));\n                a.{ident} = ActiveValue::Set(Some({v}));\n            }}\n            2 => {{\n                node.set("{c}", Exp::Null);\n                a.{ident} = ActiveValue::Set(None);\n            }}\n            _ => {{}}\n        }}\n'
        elif kind in "TQ":
            x, y = KINDS[kind][1]
            o += f'        if g.pick(2) == 1 {{\n            let x = {ty} {{ x: g.value(), y: g.value() }};\n            n.set("{c}{x}", Exp::Int(x.x));\n            n.set("{c}{y}", Exp::Int(x.y));\n            a.{ident} = ActiveValue::Set(x);\n        }}\n'
        else:
            o += f'        match g.pick(3) {{\n            1 => {{\n                let x = g.value();\n                n.set("{c}", Exp::Int(x));\n                a.{ident} = ActiveReference::Set(x);\n            }}\n            2 => {{\n                let (m, row) = {ty}::active(g);\n                n.set("{c}", Exp::Row(row));\n                a.{ident} = ActiveReference::Insert(m);\n            }}\n            _ => {{}}\n        }}\n'
    o += "    }\n"
    o += "    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {\n"
    o += "        let mut a = UpdateModel::<Self>::new(key);\n        let mut n = Node::new::<Self>(None);\n"
    o += "        Self::fields(g, &mut a, &mut n);\n        (a, n)\n    }\n"
    o += "}\n\n"
    return o


for m in models:
    out += emit(*m)
out += "pub fn all() -> Vec<Box<dyn crate::shape::Dyn>> {\n    vec![\n"
for m in models:
    out += f"        crate::shape::boxed::<{m[0]}>(),\n"
out += "    ]\n}\n"
open("/verif/harness/src/models.rs", "w").write(out)
print(len(models), "models")
