//! Written by tools/genmodels.py: derived models of all small shapes.
#![allow(clippy::all, unused)]
use std::string;

use chrono::NaiveDate;
use mysql_connector::{
    macros::*,
    types::Hex,
    model::{ActiveReference, ActiveValue, HasActiveModel, Model, UpdateModel},
};

use crate::shape::{Exp, Gen, Node, Shape};
use mc::wire::{ty, Cell, UNSIGNED};

#[derive(Debug, Clone, Copy)]
pub struct P {
    pub x: u32,
    pub y: u32,
}

#[derive(Debug, Clone, Copy)]
pub struct Q {
    pub x: u32,
    pub y: u32,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "map", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct Leaf {
    pub id: u32,
    pub a: u32,
}

impl Shape for Leaf {
    const NAME: &'static str = "Leaf";
    const COLS: &'static [&'static str] = &["id", "a"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Int(self.a));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("a", Exp::Int(x));
            a.a = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "mid", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct Mid {
    pub id: u32,
    pub map: Leaf,
    pub a: u32,
}

impl Shape for Mid {
    const NAME: &'static str = "Mid";
    const COLS: &'static [&'static str] = &["id", "map", "a"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: Leaf::fill(g),
            a: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("a", Exp::Int(self.a));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("a", Exp::Int(x));
            a.a = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "deep", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct Deep {
    pub id: u32,
    pub mid: Mid,
    pub root: Leaf,
    pub b: u32,
}

impl Shape for Deep {
    const NAME: &'static str = "Deep";
    const COLS: &'static [&'static str] = &["id", "mid", "root", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("mid", "Mid"), ("root", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            mid: Mid::fill(g),
            root: Leaf::fill(g),
            b: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("mid", Exp::Row(self.mid.node()));
        n.set("root", Exp::Row(self.root.node()));
        n.set("b", Exp::Int(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("b", Exp::Int(x));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "keyed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct Keyed {
    pub a: u32,
    pub id: u32,
    pub keyed: Leaf,
}

impl Shape for Keyed {
    const NAME: &'static str = "Keyed";
    const COLS: &'static [&'static str] = &["id", "a", "keyed"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("keyed", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: g.value(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            keyed: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Int(self.a));
        n.set("keyed", Exp::Row(self.keyed.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("a", Exp::Int(x));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("keyed", Exp::Int(x));
                a.keyed = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("keyed", Exp::Row(row));
                a.keyed = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M1 {
    pub a: u32,
    pub id: u32,
    pub b: u32,
}

impl Shape for M1 {
    const NAME: &'static str = "M1";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: g.value(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Int(self.a));
        n.set("b", Exp::Int(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("a", Exp::Int(x));
            a.a = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("b", Exp::Int(x));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M2 {
    pub a: u32,
    pub b: Option<u32>,
    pub id: u32,
}

impl Shape for M2 {
    const NAME: &'static str = "M2";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: g.value(),
            b: g.optional(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Int(self.a));
        n.set("b", Exp::opt(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("a", Exp::Int(x));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M3 {
    pub id: u32,
    pub a: u32,
    pub b: P,
}

impl Shape for M3 {
    const NAME: &'static str = "M3";
    const COLS: &'static [&'static str] = &["id", "a", "b_x", "b_y"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: g.value(),
            b: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Int(self.a));
        n.set("b_x", Exp::Int(self.b.x));
        n.set("b_y", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("a", Exp::Int(x));
            a.a = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("b_x", Exp::Int(x.x));
            n.set("b_y", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M4 {
    pub a: u32,
    pub id: u32,
    pub b: Q,
}

impl Shape for M4 {
    const NAME: &'static str = "M4";
    const COLS: &'static [&'static str] = &["id", "a", "b_v", "b_u"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: g.value(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: Q { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Int(self.a));
        n.set("b_v", Exp::Int(self.b.x));
        n.set("b_u", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("a", Exp::Int(x));
            a.a = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("b_v", Exp::Int(x.x));
            n.set("b_u", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M5 {
    pub a: u32,
    pub b: Leaf,
    pub id: u32,
}

impl Shape for M5 {
    const NAME: &'static str = "M5";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("b", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: g.value(),
            b: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Int(self.a));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("a", Exp::Int(x));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M6 {
    pub id: u32,
    pub a: u32,
    pub b: Mid,
}

impl Shape for M6 {
    const NAME: &'static str = "M6";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("b", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: g.value(),
            b: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Int(self.a));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("a", Exp::Int(x));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M7 {
    pub a: Option<u32>,
    pub id: u32,
    pub b: u32,
}

impl Shape for M7 {
    const NAME: &'static str = "M7";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["a"];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: g.optional(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::opt(self.a));
        n.set("b", Exp::Int(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("a", Exp::Null);
                a.a = ActiveValue::Set(None);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("b", Exp::Int(x));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M8 {
    pub a: Option<u32>,
    pub b: Option<u32>,
    pub id: u32,
}

impl Shape for M8 {
    const NAME: &'static str = "M8";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["a", "b"];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: g.optional(),
            b: g.optional(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::opt(self.a));
        n.set("b", Exp::opt(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("a", Exp::Null);
                a.a = ActiveValue::Set(None);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M9 {
    pub id: u32,
    pub a: Option<u32>,
    pub b: P,
}

impl Shape for M9 {
    const NAME: &'static str = "M9";
    const COLS: &'static [&'static str] = &["id", "a", "b_x", "b_y"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["a"];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: g.optional(),
            b: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::opt(self.a));
        n.set("b_x", Exp::Int(self.b.x));
        n.set("b_y", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("a", Exp::Null);
                a.a = ActiveValue::Set(None);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("b_x", Exp::Int(x.x));
            n.set("b_y", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M10 {
    pub a: Option<u32>,
    pub id: u32,
    pub b: Q,
}

impl Shape for M10 {
    const NAME: &'static str = "M10";
    const COLS: &'static [&'static str] = &["id", "a", "b_v", "b_u"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["a"];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: g.optional(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: Q { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::opt(self.a));
        n.set("b_v", Exp::Int(self.b.x));
        n.set("b_u", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("a", Exp::Null);
                a.a = ActiveValue::Set(None);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("b_v", Exp::Int(x.x));
            n.set("b_u", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M11 {
    pub a: Option<u32>,
    pub b: Leaf,
    pub id: u32,
}

impl Shape for M11 {
    const NAME: &'static str = "M11";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["a"];
    const REFS: &'static [(&'static str, &'static str)] = &[("b", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: g.optional(),
            b: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::opt(self.a));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("a", Exp::Null);
                a.a = ActiveValue::Set(None);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M12 {
    pub id: u32,
    pub a: Option<u32>,
    pub b: Mid,
}

impl Shape for M12 {
    const NAME: &'static str = "M12";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["a"];
    const REFS: &'static [(&'static str, &'static str)] = &[("b", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: g.optional(),
            b: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::opt(self.a));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("a", Exp::Null);
                a.a = ActiveValue::Set(None);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M13 {
    pub a: P,
    pub id: u32,
    pub b: u32,
}

impl Shape for M13 {
    const NAME: &'static str = "M13";
    const COLS: &'static [&'static str] = &["id", "a_x", "a_y", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_x", Exp::Int(self.a.x));
        n.set("a_y", Exp::Int(self.a.y));
        n.set("b", Exp::Int(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("a_x", Exp::Int(x.x));
            n.set("a_y", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("b", Exp::Int(x));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M14 {
    pub a: P,
    pub b: Option<u32>,
    pub id: u32,
}

impl Shape for M14 {
    const NAME: &'static str = "M14";
    const COLS: &'static [&'static str] = &["id", "a_x", "a_y", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: P { x: g.value(), y: g.value() },
            b: g.optional(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_x", Exp::Int(self.a.x));
        n.set("a_y", Exp::Int(self.a.y));
        n.set("b", Exp::opt(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("a_x", Exp::Int(x.x));
            n.set("a_y", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M15 {
    pub id: u32,
    pub a: P,
    pub b: P,
}

impl Shape for M15 {
    const NAME: &'static str = "M15";
    const COLS: &'static [&'static str] = &["id", "a_x", "a_y", "b_x", "b_y"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: P { x: g.value(), y: g.value() },
            b: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_x", Exp::Int(self.a.x));
        n.set("a_y", Exp::Int(self.a.y));
        n.set("b_x", Exp::Int(self.b.x));
        n.set("b_y", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("a_x", Exp::Int(x.x));
            n.set("a_y", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("b_x", Exp::Int(x.x));
            n.set("b_y", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M16 {
    pub a: P,
    pub id: u32,
    pub b: Q,
}

impl Shape for M16 {
    const NAME: &'static str = "M16";
    const COLS: &'static [&'static str] = &["id", "a_x", "a_y", "b_v", "b_u"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: Q { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_x", Exp::Int(self.a.x));
        n.set("a_y", Exp::Int(self.a.y));
        n.set("b_v", Exp::Int(self.b.x));
        n.set("b_u", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("a_x", Exp::Int(x.x));
            n.set("a_y", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("b_v", Exp::Int(x.x));
            n.set("b_u", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M17 {
    pub a: P,
    pub b: Leaf,
    pub id: u32,
}

impl Shape for M17 {
    const NAME: &'static str = "M17";
    const COLS: &'static [&'static str] = &["id", "a_x", "a_y", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("b", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: P { x: g.value(), y: g.value() },
            b: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_x", Exp::Int(self.a.x));
        n.set("a_y", Exp::Int(self.a.y));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("a_x", Exp::Int(x.x));
            n.set("a_y", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M18 {
    pub id: u32,
    pub a: P,
    pub b: Mid,
}

impl Shape for M18 {
    const NAME: &'static str = "M18";
    const COLS: &'static [&'static str] = &["id", "a_x", "a_y", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("b", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: P { x: g.value(), y: g.value() },
            b: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_x", Exp::Int(self.a.x));
        n.set("a_y", Exp::Int(self.a.y));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("a_x", Exp::Int(x.x));
            n.set("a_y", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M19 {
    pub a: Q,
    pub id: u32,
    pub b: u32,
}

impl Shape for M19 {
    const NAME: &'static str = "M19";
    const COLS: &'static [&'static str] = &["id", "a_v", "a_u", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Q { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_v", Exp::Int(self.a.x));
        n.set("a_u", Exp::Int(self.a.y));
        n.set("b", Exp::Int(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("a_v", Exp::Int(x.x));
            n.set("a_u", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("b", Exp::Int(x));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M20 {
    pub a: Q,
    pub b: Option<u32>,
    pub id: u32,
}

impl Shape for M20 {
    const NAME: &'static str = "M20";
    const COLS: &'static [&'static str] = &["id", "a_v", "a_u", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Q { x: g.value(), y: g.value() },
            b: g.optional(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_v", Exp::Int(self.a.x));
        n.set("a_u", Exp::Int(self.a.y));
        n.set("b", Exp::opt(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("a_v", Exp::Int(x.x));
            n.set("a_u", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M21 {
    pub id: u32,
    pub a: Q,
    pub b: P,
}

impl Shape for M21 {
    const NAME: &'static str = "M21";
    const COLS: &'static [&'static str] = &["id", "a_v", "a_u", "b_x", "b_y"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Q { x: g.value(), y: g.value() },
            b: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_v", Exp::Int(self.a.x));
        n.set("a_u", Exp::Int(self.a.y));
        n.set("b_x", Exp::Int(self.b.x));
        n.set("b_y", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("a_v", Exp::Int(x.x));
            n.set("a_u", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("b_x", Exp::Int(x.x));
            n.set("b_y", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M22 {
    pub a: Q,
    pub id: u32,
    pub b: Q,
}

impl Shape for M22 {
    const NAME: &'static str = "M22";
    const COLS: &'static [&'static str] = &["id", "a_v", "a_u", "b_v", "b_u"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Q { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: Q { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_v", Exp::Int(self.a.x));
        n.set("a_u", Exp::Int(self.a.y));
        n.set("b_v", Exp::Int(self.b.x));
        n.set("b_u", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("a_v", Exp::Int(x.x));
            n.set("a_u", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("b_v", Exp::Int(x.x));
            n.set("b_u", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M23 {
    pub a: Q,
    pub b: Leaf,
    pub id: u32,
}

impl Shape for M23 {
    const NAME: &'static str = "M23";
    const COLS: &'static [&'static str] = &["id", "a_v", "a_u", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("b", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Q { x: g.value(), y: g.value() },
            b: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_v", Exp::Int(self.a.x));
        n.set("a_u", Exp::Int(self.a.y));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("a_v", Exp::Int(x.x));
            n.set("a_u", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M24 {
    pub id: u32,
    pub a: Q,
    pub b: Mid,
}

impl Shape for M24 {
    const NAME: &'static str = "M24";
    const COLS: &'static [&'static str] = &["id", "a_v", "a_u", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("b", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Q { x: g.value(), y: g.value() },
            b: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_v", Exp::Int(self.a.x));
        n.set("a_u", Exp::Int(self.a.y));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("a_v", Exp::Int(x.x));
            n.set("a_u", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M25 {
    pub a: Leaf,
    pub id: u32,
    pub b: u32,
}

impl Shape for M25 {
    const NAME: &'static str = "M25";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Int(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("b", Exp::Int(x));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M26 {
    pub a: Leaf,
    pub b: Option<u32>,
    pub id: u32,
}

impl Shape for M26 {
    const NAME: &'static str = "M26";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Leaf::fill(g),
            b: g.optional(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::opt(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M27 {
    pub id: u32,
    pub a: Leaf,
    pub b: P,
}

impl Shape for M27 {
    const NAME: &'static str = "M27";
    const COLS: &'static [&'static str] = &["id", "a", "b_x", "b_y"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Leaf::fill(g),
            b: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b_x", Exp::Int(self.b.x));
        n.set("b_y", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("b_x", Exp::Int(x.x));
            n.set("b_y", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M28 {
    pub a: Leaf,
    pub id: u32,
    pub b: Q,
}

impl Shape for M28 {
    const NAME: &'static str = "M28";
    const COLS: &'static [&'static str] = &["id", "a", "b_v", "b_u"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: Q { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b_v", Exp::Int(self.b.x));
        n.set("b_u", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("b_v", Exp::Int(x.x));
            n.set("b_u", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M29 {
    pub a: Leaf,
    pub b: Leaf,
    pub id: u32,
}

impl Shape for M29 {
    const NAME: &'static str = "M29";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Leaf"), ("b", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Leaf::fill(g),
            b: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M30 {
    pub id: u32,
    pub a: Leaf,
    pub b: Mid,
}

impl Shape for M30 {
    const NAME: &'static str = "M30";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Leaf"), ("b", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Leaf::fill(g),
            b: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M31 {
    pub a: Mid,
    pub id: u32,
    pub b: u32,
}

impl Shape for M31 {
    const NAME: &'static str = "M31";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Int(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("b", Exp::Int(x));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M32 {
    pub a: Mid,
    pub b: Option<u32>,
    pub id: u32,
}

impl Shape for M32 {
    const NAME: &'static str = "M32";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Mid::fill(g),
            b: g.optional(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::opt(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveValue::Set(Some(x));
            }
            2 => {
                n.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M33 {
    pub id: u32,
    pub a: Mid,
    pub b: P,
}

impl Shape for M33 {
    const NAME: &'static str = "M33";
    const COLS: &'static [&'static str] = &["id", "a", "b_x", "b_y"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Mid::fill(g),
            b: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b_x", Exp::Int(self.b.x));
        n.set("b_y", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("b_x", Exp::Int(x.x));
            n.set("b_y", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M34 {
    pub a: Mid,
    pub id: u32,
    pub b: Q,
}

impl Shape for M34 {
    const NAME: &'static str = "M34";
    const COLS: &'static [&'static str] = &["id", "a", "b_v", "b_u"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            b: Q { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b_v", Exp::Int(self.b.x));
        n.set("b_u", Exp::Int(self.b.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = Q { x: g.value(), y: g.value() };
            n.set("b_v", Exp::Int(x.x));
            n.set("b_u", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M35 {
    pub a: Mid,
    pub b: Leaf,
    pub id: u32,
}

impl Shape for M35 {
    const NAME: &'static str = "M35";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Mid"), ("b", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            a: Mid::fill(g),
            b: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M36 {
    pub id: u32,
    pub a: Mid,
    pub b: Mid,
}

impl Shape for M36 {
    const NAME: &'static str = "M36";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Mid"), ("b", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Mid::fill(g),
            b: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M37 {
    pub map: u32,
    pub id: u32,
    pub map_x: u32,
}

impl Shape for M37 {
    const NAME: &'static str = "M37";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: g.value(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Int(self.map));
        n.set("map_x", Exp::Int(self.map_x));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("map", Exp::Int(x));
            a.map = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("map_x", Exp::Int(x));
            a.map_x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M38 {
    pub map: u32,
    pub map_x: P,
    pub id: u32,
}

impl Shape for M38 {
    const NAME: &'static str = "M38";
    const COLS: &'static [&'static str] = &["id", "map", "map_x_x", "map_x_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: g.value(),
            map_x: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Int(self.map));
        n.set("map_x_x", Exp::Int(self.map_x.x));
        n.set("map_x_y", Exp::Int(self.map_x.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("map", Exp::Int(x));
            a.map = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("map_x_x", Exp::Int(x.x));
            n.set("map_x_y", Exp::Int(x.y));
            a.map_x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M39 {
    pub id: u32,
    pub map: u32,
    pub map_x: Leaf,
}

impl Shape for M39 {
    const NAME: &'static str = "M39";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map_x", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: g.value(),
            map_x: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Int(self.map));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("map", Exp::Int(x));
            a.map = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M40 {
    pub map: u32,
    pub id: u32,
    pub map_x: Mid,
}

impl Shape for M40 {
    const NAME: &'static str = "M40";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map_x", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: g.value(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Int(self.map));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("map", Exp::Int(x));
            a.map = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M42 {
    pub id: u32,
    pub map: P,
    pub map_x: P,
}

impl Shape for M42 {
    const NAME: &'static str = "M42";
    const COLS: &'static [&'static str] = &["id", "map_x", "map_y", "map_x_x", "map_x_y"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: P { x: g.value(), y: g.value() },
            map_x: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map_x", Exp::Int(self.map.x));
        n.set("map_y", Exp::Int(self.map.y));
        n.set("map_x_x", Exp::Int(self.map_x.x));
        n.set("map_x_y", Exp::Int(self.map_x.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("map_x", Exp::Int(x.x));
            n.set("map_y", Exp::Int(x.y));
            a.map = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("map_x_x", Exp::Int(x.x));
            n.set("map_x_y", Exp::Int(x.y));
            a.map_x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M45 {
    pub id: u32,
    pub map: Leaf,
    pub map_x: u32,
}

impl Shape for M45 {
    const NAME: &'static str = "M45";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: Leaf::fill(g),
            map_x: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Int(self.map_x));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("map_x", Exp::Int(x));
            a.map_x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M46 {
    pub map: Leaf,
    pub id: u32,
    pub map_x: P,
}

impl Shape for M46 {
    const NAME: &'static str = "M46";
    const COLS: &'static [&'static str] = &["id", "map", "map_x_x", "map_x_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x_x", Exp::Int(self.map_x.x));
        n.set("map_x_y", Exp::Int(self.map_x.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("map_x_x", Exp::Int(x.x));
            n.set("map_x_y", Exp::Int(x.y));
            a.map_x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M47 {
    pub map: Leaf,
    pub map_x: Leaf,
    pub id: u32,
}

impl Shape for M47 {
    const NAME: &'static str = "M47";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Leaf"), ("map_x", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: Leaf::fill(g),
            map_x: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M48 {
    pub id: u32,
    pub map: Leaf,
    pub map_x: Mid,
}

impl Shape for M48 {
    const NAME: &'static str = "M48";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Leaf"), ("map_x", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: Leaf::fill(g),
            map_x: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M49 {
    pub map: Mid,
    pub id: u32,
    pub map_x: u32,
}

impl Shape for M49 {
    const NAME: &'static str = "M49";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Int(self.map_x));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("map_x", Exp::Int(x));
            a.map_x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M50 {
    pub map: Mid,
    pub map_x: P,
    pub id: u32,
}

impl Shape for M50 {
    const NAME: &'static str = "M50";
    const COLS: &'static [&'static str] = &["id", "map", "map_x_x", "map_x_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: Mid::fill(g),
            map_x: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x_x", Exp::Int(self.map_x.x));
        n.set("map_x_y", Exp::Int(self.map_x.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("map_x_x", Exp::Int(x.x));
            n.set("map_x_y", Exp::Int(x.y));
            a.map_x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M51 {
    pub id: u32,
    pub map: Mid,
    pub map_x: Leaf,
}

impl Shape for M51 {
    const NAME: &'static str = "M51";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Mid"), ("map_x", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: Mid::fill(g),
            map_x: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M52 {
    pub map: Mid,
    pub id: u32,
    pub map_x: Mid,
}

impl Shape for M52 {
    const NAME: &'static str = "M52";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Mid"), ("map_x", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M53 {
    pub root: u32,
    pub mid: u32,
    pub id: u32,
}

impl Shape for M53 {
    const NAME: &'static str = "M53";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: g.value(),
            mid: g.value(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Int(self.root));
        n.set("mid", Exp::Int(self.mid));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("root", Exp::Int(x));
            a.root = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("mid", Exp::Int(x));
            a.mid = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M54 {
    pub id: u32,
    pub root: u32,
    pub mid: Leaf,
}

impl Shape for M54 {
    const NAME: &'static str = "M54";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("mid", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            root: g.value(),
            mid: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Int(self.root));
        n.set("mid", Exp::Row(self.mid.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("root", Exp::Int(x));
            a.root = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M55 {
    pub root: u32,
    pub id: u32,
    pub mid: Mid,
}

impl Shape for M55 {
    const NAME: &'static str = "M55";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("mid", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: g.value(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            mid: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Int(self.root));
        n.set("mid", Exp::Row(self.mid.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("root", Exp::Int(x));
            a.root = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M56 {
    pub root: Leaf,
    pub mid: u32,
    pub id: u32,
}

impl Shape for M56 {
    const NAME: &'static str = "M56";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: Leaf::fill(g),
            mid: g.value(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Int(self.mid));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("mid", Exp::Int(x));
            a.mid = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M57 {
    pub id: u32,
    pub root: Leaf,
    pub mid: Leaf,
}

impl Shape for M57 {
    const NAME: &'static str = "M57";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Leaf"), ("mid", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            root: Leaf::fill(g),
            mid: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Row(self.mid.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M58 {
    pub root: Leaf,
    pub id: u32,
    pub mid: Mid,
}

impl Shape for M58 {
    const NAME: &'static str = "M58";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Leaf"), ("mid", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            mid: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Row(self.mid.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M59 {
    pub root: Mid,
    pub mid: u32,
    pub id: u32,
}

impl Shape for M59 {
    const NAME: &'static str = "M59";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: Mid::fill(g),
            mid: g.value(),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Int(self.mid));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("mid", Exp::Int(x));
            a.mid = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M60 {
    pub id: u32,
    pub root: Mid,
    pub mid: Leaf,
}

impl Shape for M60 {
    const NAME: &'static str = "M60";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Mid"), ("mid", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            root: Mid::fill(g),
            mid: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Row(self.mid.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M61 {
    pub root: Mid,
    pub id: u32,
    pub mid: Mid,
}

impl Shape for M61 {
    const NAME: &'static str = "M61";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Mid"), ("mid", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            mid: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Row(self.mid.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M62 {
    pub t: P,
    pub x: P,
    pub id: u32,
}

impl Shape for M62 {
    const NAME: &'static str = "M62";
    const COLS: &'static [&'static str] = &["id", "t_x", "t_y", "x_x", "x_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: P { x: g.value(), y: g.value() },
            x: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t_x", Exp::Int(self.t.x));
        n.set("t_y", Exp::Int(self.t.y));
        n.set("x_x", Exp::Int(self.x.x));
        n.set("x_y", Exp::Int(self.x.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("t_x", Exp::Int(x.x));
            n.set("t_y", Exp::Int(x.y));
            a.t = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("x_x", Exp::Int(x.x));
            n.set("x_y", Exp::Int(x.y));
            a.x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M63 {
    pub id: u32,
    pub t: P,
    pub x: Leaf,
}

impl Shape for M63 {
    const NAME: &'static str = "M63";
    const COLS: &'static [&'static str] = &["id", "t_x", "t_y", "x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("x", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            t: P { x: g.value(), y: g.value() },
            x: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t_x", Exp::Int(self.t.x));
        n.set("t_y", Exp::Int(self.t.y));
        n.set("x", Exp::Row(self.x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("t_x", Exp::Int(x.x));
            n.set("t_y", Exp::Int(x.y));
            a.t = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M64 {
    pub t: P,
    pub id: u32,
    pub x: Mid,
}

impl Shape for M64 {
    const NAME: &'static str = "M64";
    const COLS: &'static [&'static str] = &["id", "t_x", "t_y", "x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("x", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            x: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t_x", Exp::Int(self.t.x));
        n.set("t_y", Exp::Int(self.t.y));
        n.set("x", Exp::Row(self.x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("t_x", Exp::Int(x.x));
            n.set("t_y", Exp::Int(x.y));
            a.t = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M65 {
    pub t: Leaf,
    pub x: P,
    pub id: u32,
}

impl Shape for M65 {
    const NAME: &'static str = "M65";
    const COLS: &'static [&'static str] = &["id", "t", "x_x", "x_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: Leaf::fill(g),
            x: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x_x", Exp::Int(self.x.x));
        n.set("x_y", Exp::Int(self.x.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("x_x", Exp::Int(x.x));
            n.set("x_y", Exp::Int(x.y));
            a.x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M66 {
    pub id: u32,
    pub t: Leaf,
    pub x: Leaf,
}

impl Shape for M66 {
    const NAME: &'static str = "M66";
    const COLS: &'static [&'static str] = &["id", "t", "x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Leaf"), ("x", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            t: Leaf::fill(g),
            x: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x", Exp::Row(self.x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M67 {
    pub t: Leaf,
    pub id: u32,
    pub x: Mid,
}

impl Shape for M67 {
    const NAME: &'static str = "M67";
    const COLS: &'static [&'static str] = &["id", "t", "x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Leaf"), ("x", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            x: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x", Exp::Row(self.x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M68 {
    pub t: Mid,
    pub x: P,
    pub id: u32,
}

impl Shape for M68 {
    const NAME: &'static str = "M68";
    const COLS: &'static [&'static str] = &["id", "t", "x_x", "x_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: Mid::fill(g),
            x: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x_x", Exp::Int(self.x.x));
        n.set("x_y", Exp::Int(self.x.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("x_x", Exp::Int(x.x));
            n.set("x_y", Exp::Int(x.y));
            a.x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M69 {
    pub id: u32,
    pub t: Mid,
    pub x: Leaf,
}

impl Shape for M69 {
    const NAME: &'static str = "M69";
    const COLS: &'static [&'static str] = &["id", "t", "x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Mid"), ("x", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            t: Mid::fill(g),
            x: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x", Exp::Row(self.x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M70 {
    pub t: Mid,
    pub id: u32,
    pub x: Mid,
}

impl Shape for M70 {
    const NAME: &'static str = "M70";
    const COLS: &'static [&'static str] = &["id", "t", "x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Mid"), ("x", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            x: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x", Exp::Row(self.x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M71 {
    pub t: P,
    pub x: P,
    pub x_: P,
    pub id: u32,
}

impl Shape for M71 {
    const NAME: &'static str = "M71";
    const COLS: &'static [&'static str] = &["id", "t_x", "t_y", "x_x", "x_y", "x__x", "x__y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: P { x: g.value(), y: g.value() },
            x: P { x: g.value(), y: g.value() },
            x_: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t_x", Exp::Int(self.t.x));
        n.set("t_y", Exp::Int(self.t.y));
        n.set("x_x", Exp::Int(self.x.x));
        n.set("x_y", Exp::Int(self.x.y));
        n.set("x__x", Exp::Int(self.x_.x));
        n.set("x__y", Exp::Int(self.x_.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("t_x", Exp::Int(x.x));
            n.set("t_y", Exp::Int(x.y));
            a.t = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("x_x", Exp::Int(x.x));
            n.set("x_y", Exp::Int(x.y));
            a.x = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("x__x", Exp::Int(x.x));
            n.set("x__y", Exp::Int(x.y));
            a.x_ = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M72 {
    pub id: u32,
    pub a: P,
    pub b: P,
    pub c: Leaf,
}

impl Shape for M72 {
    const NAME: &'static str = "M72";
    const COLS: &'static [&'static str] = &["id", "a_x", "a_y", "b_x", "b_y", "c"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("c", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: P { x: g.value(), y: g.value() },
            b: P { x: g.value(), y: g.value() },
            c: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_x", Exp::Int(self.a.x));
        n.set("a_y", Exp::Int(self.a.y));
        n.set("b_x", Exp::Int(self.b.x));
        n.set("b_y", Exp::Int(self.b.y));
        n.set("c", Exp::Row(self.c.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("a_x", Exp::Int(x.x));
            n.set("a_y", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("b_x", Exp::Int(x.x));
            n.set("b_y", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("c", Exp::Int(x));
                a.c = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("c", Exp::Row(row));
                a.c = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M73 {
    pub map: P,
    pub id: u32,
    pub map_x: P,
    pub m: Mid,
}

impl Shape for M73 {
    const NAME: &'static str = "M73";
    const COLS: &'static [&'static str] = &["id", "map_x", "map_y", "map_x_x", "map_x_y", "m"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("m", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: P { x: g.value(), y: g.value() },
            m: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map_x", Exp::Int(self.map.x));
        n.set("map_y", Exp::Int(self.map.y));
        n.set("map_x_x", Exp::Int(self.map_x.x));
        n.set("map_x_y", Exp::Int(self.map_x.y));
        n.set("m", Exp::Row(self.m.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("map_x", Exp::Int(x.x));
            n.set("map_y", Exp::Int(x.y));
            a.map = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("map_x_x", Exp::Int(x.x));
            n.set("map_x_y", Exp::Int(x.y));
            a.map_x = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("m", Exp::Int(x));
                a.m = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("m", Exp::Row(row));
                a.m = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M74 {
    pub root: P,
    pub mid: Leaf,
    pub id: u32,
    pub r#type: P,
}

impl Shape for M74 {
    const NAME: &'static str = "M74";
    const COLS: &'static [&'static str] = &["id", "root_x", "root_y", "mid", "type_x", "type_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("mid", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: P { x: g.value(), y: g.value() },
            mid: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            r#type: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root_x", Exp::Int(self.root.x));
        n.set("root_y", Exp::Int(self.root.y));
        n.set("mid", Exp::Row(self.mid.node()));
        n.set("type_x", Exp::Int(self.r#type.x));
        n.set("type_y", Exp::Int(self.r#type.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("root_x", Exp::Int(x.x));
            n.set("root_y", Exp::Int(x.y));
            a.root = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("type_x", Exp::Int(x.x));
            n.set("type_y", Exp::Int(x.y));
            a.r#type = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M75 {
    pub t: P,
    pub x: Leaf,
    pub x_: Leaf,
    pub id: u32,
}

impl Shape for M75 {
    const NAME: &'static str = "M75";
    const COLS: &'static [&'static str] = &["id", "t_x", "t_y", "x", "x_"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("x", "Leaf"), ("x_", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: P { x: g.value(), y: g.value() },
            x: Leaf::fill(g),
            x_: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t_x", Exp::Int(self.t.x));
        n.set("t_y", Exp::Int(self.t.y));
        n.set("x", Exp::Row(self.x.node()));
        n.set("x_", Exp::Row(self.x_.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("t_x", Exp::Int(x.x));
            n.set("t_y", Exp::Int(x.y));
            a.t = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x_", Exp::Int(x));
                a.x_ = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("x_", Exp::Row(row));
                a.x_ = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M76 {
    pub id: u32,
    pub a: P,
    pub b: Leaf,
    pub c: Mid,
}

impl Shape for M76 {
    const NAME: &'static str = "M76";
    const COLS: &'static [&'static str] = &["id", "a_x", "a_y", "b", "c"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("b", "Leaf"), ("c", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: P { x: g.value(), y: g.value() },
            b: Leaf::fill(g),
            c: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_x", Exp::Int(self.a.x));
        n.set("a_y", Exp::Int(self.a.y));
        n.set("b", Exp::Row(self.b.node()));
        n.set("c", Exp::Row(self.c.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("a_x", Exp::Int(x.x));
            n.set("a_y", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("c", Exp::Int(x));
                a.c = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("c", Exp::Row(row));
                a.c = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M78 {
    pub root: P,
    pub mid: Mid,
    pub id: u32,
    pub r#type: Leaf,
}

impl Shape for M78 {
    const NAME: &'static str = "M78";
    const COLS: &'static [&'static str] = &["id", "root_x", "root_y", "mid", "type"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("mid", "Mid"), ("type", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: P { x: g.value(), y: g.value() },
            mid: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            r#type: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root_x", Exp::Int(self.root.x));
        n.set("root_y", Exp::Int(self.root.y));
        n.set("mid", Exp::Row(self.mid.node()));
        n.set("type", Exp::Row(self.r#type.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("root_x", Exp::Int(x.x));
            n.set("root_y", Exp::Int(x.y));
            a.root = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("type", Exp::Int(x));
                a.r#type = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("type", Exp::Row(row));
                a.r#type = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M79 {
    pub t: P,
    pub x: Mid,
    pub x_: Mid,
    pub id: u32,
}

impl Shape for M79 {
    const NAME: &'static str = "M79";
    const COLS: &'static [&'static str] = &["id", "t_x", "t_y", "x", "x_"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("x", "Mid"), ("x_", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: P { x: g.value(), y: g.value() },
            x: Mid::fill(g),
            x_: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t_x", Exp::Int(self.t.x));
        n.set("t_y", Exp::Int(self.t.y));
        n.set("x", Exp::Row(self.x.node()));
        n.set("x_", Exp::Row(self.x_.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("t_x", Exp::Int(x.x));
            n.set("t_y", Exp::Int(x.y));
            a.t = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x_", Exp::Int(x));
                a.x_ = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("x_", Exp::Row(row));
                a.x_ = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M80 {
    pub id: u32,
    pub a: Leaf,
    pub b: P,
    pub c: P,
}

impl Shape for M80 {
    const NAME: &'static str = "M80";
    const COLS: &'static [&'static str] = &["id", "a", "b_x", "b_y", "c_x", "c_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Leaf::fill(g),
            b: P { x: g.value(), y: g.value() },
            c: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b_x", Exp::Int(self.b.x));
        n.set("b_y", Exp::Int(self.b.y));
        n.set("c_x", Exp::Int(self.c.x));
        n.set("c_y", Exp::Int(self.c.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("b_x", Exp::Int(x.x));
            n.set("b_y", Exp::Int(x.y));
            a.b = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("c_x", Exp::Int(x.x));
            n.set("c_y", Exp::Int(x.y));
            a.c = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M81 {
    pub map: Leaf,
    pub id: u32,
    pub map_x: P,
    pub m: Leaf,
}

impl Shape for M81 {
    const NAME: &'static str = "M81";
    const COLS: &'static [&'static str] = &["id", "map", "map_x_x", "map_x_y", "m"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Leaf"), ("m", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: P { x: g.value(), y: g.value() },
            m: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x_x", Exp::Int(self.map_x.x));
        n.set("map_x_y", Exp::Int(self.map_x.y));
        n.set("m", Exp::Row(self.m.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("map_x_x", Exp::Int(x.x));
            n.set("map_x_y", Exp::Int(x.y));
            a.map_x = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("m", Exp::Int(x));
                a.m = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("m", Exp::Row(row));
                a.m = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M82 {
    pub root: Leaf,
    pub mid: P,
    pub id: u32,
    pub r#type: Mid,
}

impl Shape for M82 {
    const NAME: &'static str = "M82";
    const COLS: &'static [&'static str] = &["id", "root", "mid_x", "mid_y", "type"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Leaf"), ("type", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: Leaf::fill(g),
            mid: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            r#type: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid_x", Exp::Int(self.mid.x));
        n.set("mid_y", Exp::Int(self.mid.y));
        n.set("type", Exp::Row(self.r#type.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("mid_x", Exp::Int(x.x));
            n.set("mid_y", Exp::Int(x.y));
            a.mid = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("type", Exp::Int(x));
                a.r#type = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("type", Exp::Row(row));
                a.r#type = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M83 {
    pub t: Leaf,
    pub x: Leaf,
    pub x_: P,
    pub id: u32,
}

impl Shape for M83 {
    const NAME: &'static str = "M83";
    const COLS: &'static [&'static str] = &["id", "t", "x", "x__x", "x__y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Leaf"), ("x", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: Leaf::fill(g),
            x: Leaf::fill(g),
            x_: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x", Exp::Row(self.x.node()));
        n.set("x__x", Exp::Int(self.x_.x));
        n.set("x__y", Exp::Int(self.x_.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("x__x", Exp::Int(x.x));
            n.set("x__y", Exp::Int(x.y));
            a.x_ = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M84 {
    pub id: u32,
    pub a: Leaf,
    pub b: Leaf,
    pub c: Leaf,
}

impl Shape for M84 {
    const NAME: &'static str = "M84";
    const COLS: &'static [&'static str] = &["id", "a", "b", "c"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Leaf"), ("b", "Leaf"), ("c", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Leaf::fill(g),
            b: Leaf::fill(g),
            c: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Row(self.b.node()));
        n.set("c", Exp::Row(self.c.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("c", Exp::Int(x));
                a.c = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("c", Exp::Row(row));
                a.c = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M85 {
    pub map: Leaf,
    pub id: u32,
    pub map_x: Leaf,
    pub m: Mid,
}

impl Shape for M85 {
    const NAME: &'static str = "M85";
    const COLS: &'static [&'static str] = &["id", "map", "map_x", "m"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Leaf"), ("map_x", "Leaf"), ("m", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: Leaf::fill(g),
            m: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n.set("m", Exp::Row(self.m.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("m", Exp::Int(x));
                a.m = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("m", Exp::Row(row));
                a.m = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M86 {
    pub root: Leaf,
    pub mid: Mid,
    pub id: u32,
    pub r#type: P,
}

impl Shape for M86 {
    const NAME: &'static str = "M86";
    const COLS: &'static [&'static str] = &["id", "root", "mid", "type_x", "type_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Leaf"), ("mid", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: Leaf::fill(g),
            mid: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            r#type: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Row(self.mid.node()));
        n.set("type_x", Exp::Int(self.r#type.x));
        n.set("type_y", Exp::Int(self.r#type.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("type_x", Exp::Int(x.x));
            n.set("type_y", Exp::Int(x.y));
            a.r#type = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M87 {
    pub t: Leaf,
    pub x: Mid,
    pub x_: Leaf,
    pub id: u32,
}

impl Shape for M87 {
    const NAME: &'static str = "M87";
    const COLS: &'static [&'static str] = &["id", "t", "x", "x_"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Leaf"), ("x", "Mid"), ("x_", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: Leaf::fill(g),
            x: Mid::fill(g),
            x_: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x", Exp::Row(self.x.node()));
        n.set("x_", Exp::Row(self.x_.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x_", Exp::Int(x));
                a.x_ = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("x_", Exp::Row(row));
                a.x_ = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M88 {
    pub id: u32,
    pub a: Leaf,
    pub b: Mid,
    pub c: Mid,
}

impl Shape for M88 {
    const NAME: &'static str = "M88";
    const COLS: &'static [&'static str] = &["id", "a", "b", "c"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Leaf"), ("b", "Mid"), ("c", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Leaf::fill(g),
            b: Mid::fill(g),
            c: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Row(self.b.node()));
        n.set("c", Exp::Row(self.c.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("c", Exp::Int(x));
                a.c = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("c", Exp::Row(row));
                a.c = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M89 {
    pub map: Mid,
    pub id: u32,
    pub map_x: P,
    pub m: P,
}

impl Shape for M89 {
    const NAME: &'static str = "M89";
    const COLS: &'static [&'static str] = &["id", "map", "map_x_x", "map_x_y", "m_x", "m_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: P { x: g.value(), y: g.value() },
            m: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x_x", Exp::Int(self.map_x.x));
        n.set("map_x_y", Exp::Int(self.map_x.y));
        n.set("m_x", Exp::Int(self.m.x));
        n.set("m_y", Exp::Int(self.m.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("map_x_x", Exp::Int(x.x));
            n.set("map_x_y", Exp::Int(x.y));
            a.map_x = ActiveValue::Set(x);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("m_x", Exp::Int(x.x));
            n.set("m_y", Exp::Int(x.y));
            a.m = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M90 {
    pub root: Mid,
    pub mid: P,
    pub id: u32,
    pub r#type: Leaf,
}

impl Shape for M90 {
    const NAME: &'static str = "M90";
    const COLS: &'static [&'static str] = &["id", "root", "mid_x", "mid_y", "type"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Mid"), ("type", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: Mid::fill(g),
            mid: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            r#type: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid_x", Exp::Int(self.mid.x));
        n.set("mid_y", Exp::Int(self.mid.y));
        n.set("type", Exp::Row(self.r#type.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("mid_x", Exp::Int(x.x));
            n.set("mid_y", Exp::Int(x.y));
            a.mid = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("type", Exp::Int(x));
                a.r#type = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("type", Exp::Row(row));
                a.r#type = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M91 {
    pub t: Mid,
    pub x: P,
    pub x_: Mid,
    pub id: u32,
}

impl Shape for M91 {
    const NAME: &'static str = "M91";
    const COLS: &'static [&'static str] = &["id", "t", "x_x", "x_y", "x_"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Mid"), ("x_", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: Mid::fill(g),
            x: P { x: g.value(), y: g.value() },
            x_: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x_x", Exp::Int(self.x.x));
        n.set("x_y", Exp::Int(self.x.y));
        n.set("x_", Exp::Row(self.x_.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("x_x", Exp::Int(x.x));
            n.set("x_y", Exp::Int(x.y));
            a.x = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x_", Exp::Int(x));
                a.x_ = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("x_", Exp::Row(row));
                a.x_ = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M92 {
    pub id: u32,
    pub a: Mid,
    pub b: Leaf,
    pub c: P,
}

impl Shape for M92 {
    const NAME: &'static str = "M92";
    const COLS: &'static [&'static str] = &["id", "a", "b", "c_x", "c_y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Mid"), ("b", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Mid::fill(g),
            b: Leaf::fill(g),
            c: P { x: g.value(), y: g.value() },
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Row(self.b.node()));
        n.set("c_x", Exp::Int(self.c.x));
        n.set("c_y", Exp::Int(self.c.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("c_x", Exp::Int(x.x));
            n.set("c_y", Exp::Int(x.y));
            a.c = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M93 {
    pub map: Mid,
    pub id: u32,
    pub map_x: Leaf,
    pub m: Leaf,
}

impl Shape for M93 {
    const NAME: &'static str = "M93";
    const COLS: &'static [&'static str] = &["id", "map", "map_x", "m"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Mid"), ("map_x", "Leaf"), ("m", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: Leaf::fill(g),
            m: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n.set("m", Exp::Row(self.m.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("m", Exp::Int(x));
                a.m = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("m", Exp::Row(row));
                a.m = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M94 {
    pub root: Mid,
    pub mid: Leaf,
    pub id: u32,
    pub r#type: Mid,
}

impl Shape for M94 {
    const NAME: &'static str = "M94";
    const COLS: &'static [&'static str] = &["id", "root", "mid", "type"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Mid"), ("mid", "Leaf"), ("type", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            root: Mid::fill(g),
            mid: Leaf::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            r#type: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Row(self.mid.node()));
        n.set("type", Exp::Row(self.r#type.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("type", Exp::Int(x));
                a.r#type = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("type", Exp::Row(row));
                a.r#type = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M95 {
    pub t: Mid,
    pub x: Mid,
    pub x_: P,
    pub id: u32,
}

impl Shape for M95 {
    const NAME: &'static str = "M95";
    const COLS: &'static [&'static str] = &["id", "t", "x", "x__x", "x__y"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Mid"), ("x", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            t: Mid::fill(g),
            x: Mid::fill(g),
            x_: P { x: g.value(), y: g.value() },
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x", Exp::Row(self.x.node()));
        n.set("x__x", Exp::Int(self.x_.x));
        n.set("x__y", Exp::Int(self.x_.y));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("x__x", Exp::Int(x.x));
            n.set("x__y", Exp::Int(x.y));
            a.x_ = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M96 {
    pub id: u32,
    pub a: Mid,
    pub b: Mid,
    pub c: Leaf,
}

impl Shape for M96 {
    const NAME: &'static str = "M96";
    const COLS: &'static [&'static str] = &["id", "a", "b", "c"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Mid"), ("b", "Mid"), ("c", "Leaf")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Mid::fill(g),
            b: Mid::fill(g),
            c: Leaf::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Row(self.b.node()));
        n.set("c", Exp::Row(self.c.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("c", Exp::Int(x));
                a.c = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Leaf::active(g);
                n.set("c", Exp::Row(row));
                a.c = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M97 {
    pub map: Mid,
    pub id: u32,
    pub map_x: Mid,
    pub m: Mid,
}

impl Shape for M97 {
    const NAME: &'static str = "M97";
    const COLS: &'static [&'static str] = &["id", "map", "map_x", "m"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Mid"), ("map_x", "Mid"), ("m", "Mid")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            map: Mid::fill(g),
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map_x: Mid::fill(g),
            m: Mid::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n.set("m", Exp::Row(self.m.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("m", Exp::Int(x));
                a.m = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Mid::active(g);
                n.set("m", Exp::Row(row));
                a.m = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M98 {
    pub id: u32,
    pub a: Deep,
}

impl Shape for M98 {
    const NAME: &'static str = "M98";
    const COLS: &'static [&'static str] = &["id", "a"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Deep")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Deep::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M99 {
    pub id: u32,
    pub a: Keyed,
}

impl Shape for M99 {
    const NAME: &'static str = "M99";
    const COLS: &'static [&'static str] = &["id", "a"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M100 {
    pub id: u32,
    pub a: u32,
}

impl Shape for M100 {
    const NAME: &'static str = "M100";
    const COLS: &'static [&'static str] = &["id", "a"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Int(self.a));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("a", Exp::Int(x));
            a.a = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M101 {
    pub id: u32,
    pub a: Deep,
    pub b: Keyed,
}

impl Shape for M101 {
    const NAME: &'static str = "M101";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Deep"), ("b", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Deep::fill(g),
            b: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M102 {
    pub id: u32,
    pub a: Keyed,
    pub b: Deep,
}

impl Shape for M102 {
    const NAME: &'static str = "M102";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Keyed"), ("b", "Deep")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Keyed::fill(g),
            b: Deep::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M103 {
    pub id: u32,
    pub a: Keyed,
    pub b: u32,
}

impl Shape for M103 {
    const NAME: &'static str = "M103";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("a", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: Keyed::fill(g),
            b: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a", Exp::Row(self.a.node()));
        n.set("b", Exp::Int(self.b));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("a", Exp::Int(x));
                a.a = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("a", Exp::Row(row));
                a.a = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("b", Exp::Int(x));
            a.b = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M104 {
    pub id: u32,
    pub a: P,
    pub b: Keyed,
}

impl Shape for M104 {
    const NAME: &'static str = "M104";
    const COLS: &'static [&'static str] = &["id", "a_x", "a_y", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("b", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            a: P { x: g.value(), y: g.value() },
            b: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("a_x", Exp::Int(self.a.x));
        n.set("a_y", Exp::Int(self.a.y));
        n.set("b", Exp::Row(self.b.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("a_x", Exp::Int(x.x));
            n.set("a_y", Exp::Int(x.y));
            a.a = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("b", Exp::Int(x));
                a.b = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("b", Exp::Row(row));
                a.b = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M105 {
    pub id: u32,
    pub map: Deep,
}

impl Shape for M105 {
    const NAME: &'static str = "M105";
    const COLS: &'static [&'static str] = &["id", "map"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Deep")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: Deep::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M106 {
    pub id: u32,
    pub map: Keyed,
}

impl Shape for M106 {
    const NAME: &'static str = "M106";
    const COLS: &'static [&'static str] = &["id", "map"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M107 {
    pub id: u32,
    pub map: u32,
}

impl Shape for M107 {
    const NAME: &'static str = "M107";
    const COLS: &'static [&'static str] = &["id", "map"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Int(self.map));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("map", Exp::Int(x));
            a.map = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M108 {
    pub id: u32,
    pub map: Deep,
    pub map_x: Keyed,
}

impl Shape for M108 {
    const NAME: &'static str = "M108";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Deep"), ("map_x", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: Deep::fill(g),
            map_x: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M109 {
    pub id: u32,
    pub map: Keyed,
    pub map_x: Deep,
}

impl Shape for M109 {
    const NAME: &'static str = "M109";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Keyed"), ("map_x", "Deep")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: Keyed::fill(g),
            map_x: Deep::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Row(self.map_x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map_x", Exp::Int(x));
                a.map_x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("map_x", Exp::Row(row));
                a.map_x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ma", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M110 {
    pub id: u32,
    pub map: Keyed,
    pub map_x: u32,
}

impl Shape for M110 {
    const NAME: &'static str = "M110";
    const COLS: &'static [&'static str] = &["id", "map", "map_x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("map", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            map: Keyed::fill(g),
            map_x: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("map", Exp::Row(self.map.node()));
        n.set("map_x", Exp::Int(self.map_x));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("map", Exp::Int(x));
                a.map = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("map", Exp::Row(row));
                a.map = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("map_x", Exp::Int(x));
            a.map_x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M112 {
    pub id: u32,
    pub root: Deep,
}

impl Shape for M112 {
    const NAME: &'static str = "M112";
    const COLS: &'static [&'static str] = &["id", "root"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Deep")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            root: Deep::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M113 {
    pub id: u32,
    pub root: Keyed,
}

impl Shape for M113 {
    const NAME: &'static str = "M113";
    const COLS: &'static [&'static str] = &["id", "root"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            root: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M114 {
    pub id: u32,
    pub root: u32,
}

impl Shape for M114 {
    const NAME: &'static str = "M114";
    const COLS: &'static [&'static str] = &["id", "root"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            root: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Int(self.root));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("root", Exp::Int(x));
            a.root = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M115 {
    pub id: u32,
    pub root: Deep,
    pub mid: Keyed,
}

impl Shape for M115 {
    const NAME: &'static str = "M115";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Deep"), ("mid", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            root: Deep::fill(g),
            mid: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Row(self.mid.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M116 {
    pub id: u32,
    pub root: Keyed,
    pub mid: Deep,
}

impl Shape for M116 {
    const NAME: &'static str = "M116";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Keyed"), ("mid", "Deep")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            root: Keyed::fill(g),
            mid: Deep::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Row(self.mid.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M117 {
    pub id: u32,
    pub root: Keyed,
    pub mid: u32,
}

impl Shape for M117 {
    const NAME: &'static str = "M117";
    const COLS: &'static [&'static str] = &["id", "root", "mid"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("root", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            root: Keyed::fill(g),
            mid: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root", Exp::Row(self.root.node()));
        n.set("mid", Exp::Int(self.mid));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("root", Exp::Int(x));
                a.root = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("root", Exp::Row(row));
                a.root = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("mid", Exp::Int(x));
            a.mid = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "root", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M118 {
    pub id: u32,
    pub root: P,
    pub mid: Keyed,
}

impl Shape for M118 {
    const NAME: &'static str = "M118";
    const COLS: &'static [&'static str] = &["id", "root_x", "root_y", "mid"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("mid", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            root: P { x: g.value(), y: g.value() },
            mid: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("root_x", Exp::Int(self.root.x));
        n.set("root_y", Exp::Int(self.root.y));
        n.set("mid", Exp::Row(self.mid.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("root_x", Exp::Int(x.x));
            n.set("root_y", Exp::Int(x.y));
            a.root = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("mid", Exp::Int(x));
                a.mid = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("mid", Exp::Row(row));
                a.mid = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M119 {
    pub id: u32,
    pub t: Deep,
}

impl Shape for M119 {
    const NAME: &'static str = "M119";
    const COLS: &'static [&'static str] = &["id", "t"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Deep")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            t: Deep::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M120 {
    pub id: u32,
    pub t: Keyed,
}

impl Shape for M120 {
    const NAME: &'static str = "M120";
    const COLS: &'static [&'static str] = &["id", "t"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            t: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M121 {
    pub id: u32,
    pub t: u32,
}

impl Shape for M121 {
    const NAME: &'static str = "M121";
    const COLS: &'static [&'static str] = &["id", "t"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            t: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Int(self.t));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("t", Exp::Int(x));
            a.t = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M122 {
    pub id: u32,
    pub t: Deep,
    pub x: Keyed,
}

impl Shape for M122 {
    const NAME: &'static str = "M122";
    const COLS: &'static [&'static str] = &["id", "t", "x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Deep"), ("x", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            t: Deep::fill(g),
            x: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x", Exp::Row(self.x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M123 {
    pub id: u32,
    pub t: Keyed,
    pub x: Deep,
}

impl Shape for M123 {
    const NAME: &'static str = "M123";
    const COLS: &'static [&'static str] = &["id", "t", "x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Keyed"), ("x", "Deep")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            t: Keyed::fill(g),
            x: Deep::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x", Exp::Row(self.x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Deep::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M124 {
    pub id: u32,
    pub t: Keyed,
    pub x: u32,
}

impl Shape for M124 {
    const NAME: &'static str = "M124";
    const COLS: &'static [&'static str] = &["id", "t", "x"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("t", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            t: Keyed::fill(g),
            x: g.value(),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t", Exp::Row(self.t.node()));
        n.set("x", Exp::Int(self.x));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("t", Exp::Int(x));
                a.t = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("t", Exp::Row(row));
                a.t = ActiveReference::Insert(m);
            }
            _ => {}
        }
        if g.pick(2) == 1 {
            let x = g.value();
            n.set("x", Exp::Int(x));
            a.x = ActiveValue::Set(x);
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t.x", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct M125 {
    pub id: u32,
    pub t: P,
    pub x: Keyed,
}

impl Shape for M125 {
    const NAME: &'static str = "M125";
    const COLS: &'static [&'static str] = &["id", "t_x", "t_y", "x"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &[];
    const REFS: &'static [(&'static str, &'static str)] = &[("x", "Keyed")];
    fn fill(g: &mut Gen) -> Self {
        Self {
            id: g.id(<Self as mysql_connector::model::ModelData>::TABLE),
            t: P { x: g.value(), y: g.value() },
            x: Keyed::fill(g),
        }
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n.set("t_x", Exp::Int(self.t.x));
        n.set("t_y", Exp::Int(self.t.y));
        n.set("x", Exp::Row(self.x.node()));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        if g.pick(2) == 1 {
            let x = P { x: g.value(), y: g.value() };
            n.set("t_x", Exp::Int(x.x));
            n.set("t_y", Exp::Int(x.y));
            a.t = ActiveValue::Set(x);
        }
        match g.pick(3) {
            1 => {
                let x = g.value();
                n.set("x", Exp::Int(x));
                a.x = ActiveReference::Set(x);
            }
            2 => {
                let (m, row) = Keyed::active(g);
                n.set("x", Exp::Row(row));
                a.x = ActiveReference::Insert(m);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T0 {
    pub id: u32,
    pub a: i8,
    pub b: Option<i8>,
}

impl Shape for T0 {
    const NAME: &'static str = "T0";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::TINY, 0), ("b", ty::TINY, 0)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Int(-((n % 120) as i128)))); -((n % 120) as i8) };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Int(-((n % 120) as i128)))); Some(-((n % 120) as i8)) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Int(-((n % 120) as i128))));
            a.a = ActiveValue::Set(-((n % 120) as i8));
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Int(-((n % 120) as i128))));
                a.b = ActiveValue::Set(Some(-((n % 120) as i8)));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T1 {
    pub id: u32,
    pub a: i16,
    pub b: std::option::Option<i16>,
}

impl Shape for T1 {
    const NAME: &'static str = "T1";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::SHORT, 0), ("b", ty::SHORT, 0)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Int(-(n as i128)))); -(n as i16) };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Int(-(n as i128)))); Some(-(n as i16)) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Int(-(n as i128))));
            a.a = ActiveValue::Set(-(n as i16));
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Int(-(n as i128))));
                a.b = ActiveValue::Set(Some(-(n as i16)));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T2 {
    pub id: u32,
    pub a: i32,
    pub b: Option<i32>,
}

impl Shape for T2 {
    const NAME: &'static str = "T2";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::LONG, 0), ("b", ty::LONG, 0)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Int(-(n as i128) - 70_000))); -(n as i32) - 70_000 };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Int(-(n as i128) - 70_000))); Some(-(n as i32) - 70_000) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Int(-(n as i128) - 70_000)));
            a.a = ActiveValue::Set(-(n as i32) - 70_000);
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Int(-(n as i128) - 70_000)));
                a.b = ActiveValue::Set(Some(-(n as i32) - 70_000));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T3 {
    pub id: u32,
    pub a: i64,
    pub b: Option<i64>,
}

impl Shape for T3 {
    const NAME: &'static str = "T3";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::LONGLONG, 0), ("b", ty::LONGLONG, 0)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Int(-(n as i128) - (1 << 40)))); -(n as i64) - (1 << 40) };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Int(-(n as i128) - (1 << 40)))); Some(-(n as i64) - (1 << 40)) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Int(-(n as i128) - (1 << 40))));
            a.a = ActiveValue::Set(-(n as i64) - (1 << 40));
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Int(-(n as i128) - (1 << 40))));
                a.b = ActiveValue::Set(Some(-(n as i64) - (1 << 40)));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T4 {
    pub id: u32,
    pub a: u8,
    pub b: std::option::Option<u8>,
}

impl Shape for T4 {
    const NAME: &'static str = "T4";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::TINY, UNSIGNED), ("b", ty::TINY, UNSIGNED)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Int(255 - (n % 256) as i128))); 255 - (n % 256) as u8 };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Int(255 - (n % 256) as i128))); Some(255 - (n % 256) as u8) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Int(255 - (n % 256) as i128)));
            a.a = ActiveValue::Set(255 - (n % 256) as u8);
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Int(255 - (n % 256) as i128)));
                a.b = ActiveValue::Set(Some(255 - (n % 256) as u8));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T5 {
    pub id: u32,
    pub a: u16,
    pub b: Option<u16>,
}

impl Shape for T5 {
    const NAME: &'static str = "T5";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::SHORT, UNSIGNED), ("b", ty::SHORT, UNSIGNED)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Int(65_535 - n as i128))); 65_535 - n as u16 };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Int(65_535 - n as i128))); Some(65_535 - n as u16) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Int(65_535 - n as i128)));
            a.a = ActiveValue::Set(65_535 - n as u16);
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Int(65_535 - n as i128)));
                a.b = ActiveValue::Set(Some(65_535 - n as u16));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T6 {
    pub id: u32,
    pub a: u32,
    pub b: Option<u32>,
}

impl Shape for T6 {
    const NAME: &'static str = "T6";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::LONG, UNSIGNED), ("b", ty::LONG, UNSIGNED)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Int(u32::MAX as i128 - n as i128))); u32::MAX - n };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Int(u32::MAX as i128 - n as i128))); Some(u32::MAX - n) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Int(u32::MAX as i128 - n as i128)));
            a.a = ActiveValue::Set(u32::MAX - n);
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Int(u32::MAX as i128 - n as i128)));
                a.b = ActiveValue::Set(Some(u32::MAX - n));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T7 {
    pub id: u32,
    pub a: u64,
    pub b: std::option::Option<u64>,
}

impl Shape for T7 {
    const NAME: &'static str = "T7";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::LONGLONG, UNSIGNED), ("b", ty::LONGLONG, UNSIGNED)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Int(u64::MAX as i128 - n as i128))); u64::MAX - n as u64 };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Int(u64::MAX as i128 - n as i128))); Some(u64::MAX - n as u64) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Int(u64::MAX as i128 - n as i128)));
            a.a = ActiveValue::Set(u64::MAX - n as u64);
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Int(u64::MAX as i128 - n as i128)));
                a.b = ActiveValue::Set(Some(u64::MAX - n as u64));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T8 {
    pub id: u32,
    pub a: f32,
    pub b: Option<f32>,
}

impl Shape for T8 {
    const NAME: &'static str = "T8";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::FLOAT, 0), ("b", ty::FLOAT, 0)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::F32(n as f32 + 0.25))); n as f32 + 0.25 };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::F32(n as f32 + 0.25))); Some(n as f32 + 0.25) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::F32(n as f32 + 0.25)));
            a.a = ActiveValue::Set(n as f32 + 0.25);
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::F32(n as f32 + 0.25)));
                a.b = ActiveValue::Set(Some(n as f32 + 0.25));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T9 {
    pub id: u32,
    pub a: f64,
    pub b: Option<f64>,
}

impl Shape for T9 {
    const NAME: &'static str = "T9";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::DOUBLE, 0), ("b", ty::DOUBLE, 0)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::F64(n as f64 + 0.1))); n as f64 + 0.1 };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::F64(n as f64 + 0.1))); Some(n as f64 + 0.1) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::F64(n as f64 + 0.1)));
            a.a = ActiveValue::Set(n as f64 + 0.1);
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::F64(n as f64 + 0.1)));
                a.b = ActiveValue::Set(Some(n as f64 + 0.1));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T10 {
    pub id: u32,
    pub a: bool,
    pub b: std::option::Option<bool>,
}

impl Shape for T10 {
    const NAME: &'static str = "T10";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::TINY, 0), ("b", ty::TINY, 0)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Int((n % 2) as i128))); n % 2 == 1 };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Int((n % 2) as i128))); Some(n % 2 == 1) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Int((n % 2) as i128)));
            a.a = ActiveValue::Set(n % 2 == 1);
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Int((n % 2) as i128)));
                a.b = ActiveValue::Set(Some(n % 2 == 1));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T11 {
    pub id: u32,
    pub a: String,
    pub b: Option<String>,
}

impl Shape for T11 {
    const NAME: &'static str = "T11";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::VAR_STRING, 0), ("b", ty::VAR_STRING, 0)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::from(&*format!("{n}'\\é\n")))); format!("{n}'\\é\n") };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::from(&*format!("{n}'\\é\n")))); Some(format!("{n}'\\é\n")) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::from(&*format!("{n}'\\é\n"))));
            a.a = ActiveValue::Set(format!("{n}'\\é\n"));
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::from(&*format!("{n}'\\é\n"))));
                a.b = ActiveValue::Set(Some(format!("{n}'\\é\n")));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T12 {
    pub id: u32,
    pub a: std::string::String,
    pub b: Option<std::string::String>,
}

impl Shape for T12 {
    const NAME: &'static str = "T12";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::VAR_STRING, 0), ("b", ty::VAR_STRING, 0)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::from(&*format!("{n}?`")))); format!("{n}?`") };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::from(&*format!("{n}?`")))); Some(format!("{n}?`")) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::from(&*format!("{n}?`"))));
            a.a = ActiveValue::Set(format!("{n}?`"));
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::from(&*format!("{n}?`"))));
                a.b = ActiveValue::Set(Some(format!("{n}?`")));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T13 {
    pub id: u32,
    pub a: string::String,
    pub b: std::option::Option<string::String>,
}

impl Shape for T13 {
    const NAME: &'static str = "T13";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::VAR_STRING, 0), ("b", ty::VAR_STRING, 0)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Bytes(n.to_string().into_bytes()))); n.to_string() };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Bytes(n.to_string().into_bytes()))); Some(n.to_string()) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Bytes(n.to_string().into_bytes())));
            a.a = ActiveValue::Set(n.to_string());
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Bytes(n.to_string().into_bytes())));
                a.b = ActiveValue::Set(Some(n.to_string()));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T14 {
    pub id: u32,
    pub a: Vec<u8>,
    pub b: Option<Vec<u8>>,
}

impl Shape for T14 {
    const NAME: &'static str = "T14";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::BLOB, 128), ("b", ty::BLOB, 128)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Bytes(vec![n as u8, 0, 255]))); vec![n as u8, 0, 255] };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Bytes(vec![n as u8, 0, 255]))); Some(vec![n as u8, 0, 255]) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Bytes(vec![n as u8, 0, 255])));
            a.a = ActiveValue::Set(vec![n as u8, 0, 255]);
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Bytes(vec![n as u8, 0, 255])));
                a.b = ActiveValue::Set(Some(vec![n as u8, 0, 255]));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T15 {
    pub id: u32,
    pub a: std::vec::Vec<u8>,
    pub b: Option<std::vec::Vec<u8>>,
}

impl Shape for T15 {
    const NAME: &'static str = "T15";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::BLOB, 128), ("b", ty::BLOB, 128)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Bytes(vec![0xC3, n as u8]))); vec![0xC3, n as u8] };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Bytes(vec![0xC3, n as u8]))); Some(vec![0xC3, n as u8]) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Bytes(vec![0xC3, n as u8])));
            a.a = ActiveValue::Set(vec![0xC3, n as u8]);
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Bytes(vec![0xC3, n as u8])));
                a.b = ActiveValue::Set(Some(vec![0xC3, n as u8]));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T16 {
    pub id: u32,
    pub a: Hex,
    pub b: std::option::Option<Hex>,
}

impl Shape for T16 {
    const NAME: &'static str = "T16";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::BLOB, 128), ("b", ty::BLOB, 128)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Bytes(vec![n as u8, 0xFF]))); Hex(vec![n as u8, 0xFF]) };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Bytes(vec![n as u8, 0xFF]))); Some(Hex(vec![n as u8, 0xFF])) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Bytes(vec![n as u8, 0xFF])));
            a.a = ActiveValue::Set(Hex(vec![n as u8, 0xFF]));
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Bytes(vec![n as u8, 0xFF])));
                a.b = ActiveValue::Set(Some(Hex(vec![n as u8, 0xFF])));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T17 {
    pub id: u32,
    pub a: mysql_connector::types::Hex,
    pub b: Option<mysql_connector::types::Hex>,
}

impl Shape for T17 {
    const NAME: &'static str = "T17";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::BLOB, 128), ("b", ty::BLOB, 128)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Bytes(vec![0, n as u8]))); Hex(vec![0, n as u8]) };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Bytes(vec![0, n as u8]))); Some(Hex(vec![0, n as u8])) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Bytes(vec![0, n as u8])));
            a.a = ActiveValue::Set(Hex(vec![0, n as u8]));
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Bytes(vec![0, n as u8])));
                a.b = ActiveValue::Set(Some(Hex(vec![0, n as u8])));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T18 {
    pub id: u32,
    pub a: NaiveDate,
    pub b: Option<NaiveDate>,
}

impl Shape for T18 {
    const NAME: &'static str = "T18";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::DATE, 128), ("b", ty::DATE, 128)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Date(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8))); chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap() };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Date(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8))); Some(chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap()) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Date(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8)));
            a.a = ActiveValue::Set(chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap());
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Date(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8)));
                a.b = ActiveValue::Set(Some(chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap()));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T19 {
    pub id: u32,
    pub a: chrono::NaiveDate,
    pub b: std::option::Option<chrono::NaiveDate>,
}

impl Shape for T19 {
    const NAME: &'static str = "T19";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::DATE, 128), ("b", ty::DATE, 128)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Date(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8))); chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap() };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Date(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8))); Some(chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap()) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Date(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8)));
            a.a = ActiveValue::Set(chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap());
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Date(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8)));
                a.b = ActiveValue::Set(Some(chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap()));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "true", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T20 {
    pub id: u32,
    pub a: chrono::NaiveDateTime,
    pub b: Option<chrono::NaiveDateTime>,
}

impl Shape for T20 {
    const NAME: &'static str = "T20";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = true;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::DATETIME, 128), ("b", ty::DATETIME, 128)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::DateTime(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8, (n % 24) as u8, (n % 60) as u8, (n % 59) as u8, 1 + n % 999_999))); chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap().and_hms_micro_opt(n % 24, n % 60, n % 59, 1 + n % 999_999).unwrap() };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::DateTime(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8, (n % 24) as u8, (n % 60) as u8, (n % 59) as u8, 1 + n % 999_999))); Some(chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap().and_hms_micro_opt(n % 24, n % 60, n % 59, 1 + n % 999_999).unwrap()) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        if g.pick(2) == 1 {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::DateTime(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8, (n % 24) as u8, (n % 60) as u8, (n % 59) as u8, 1 + n % 999_999)));
            a.a = ActiveValue::Set(chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap().and_hms_micro_opt(n % 24, n % 60, n % 59, 1 + n % 999_999).unwrap());
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::DateTime(2000 + (n % 90) as u16, 1 + (n % 12) as u8, 1 + (n % 28) as u8, (n % 24) as u8, (n % 60) as u8, (n % 59) as u8, 1 + n % 999_999)));
                a.b = ActiveValue::Set(Some(chrono::NaiveDate::from_ymd_opt(2000 + (n % 90) as i32, 1 + n % 12, 1 + n % 28).unwrap().and_hms_micro_opt(n % 24, n % 60, n % 59, 1 + n % 999_999).unwrap()));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "typed", primary = "id", auto_increment = "false", ty = P { x, y }, ty = Q { x: v, y: u })]
pub struct T21 {
    pub id: u32,
    pub a: chrono::Duration,
    pub b: Option<chrono::Duration>,
}

impl Shape for T21 {
    const NAME: &'static str = "T21";
    const COLS: &'static [&'static str] = &["id", "a", "b"];
    const AUTO: bool = false;
    const OPTIONAL: &'static [&'static str] = &["b"];
    const TYPES: &'static [(&'static str, u8, u16)] = &[("a", ty::TIME, 128), ("b", ty::TIME, 128)];
    const REFS: &'static [(&'static str, &'static str)] = &[];
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let mut f = Node::new::<Self>(None);
        let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
        f.key = Some(id);
        let a = { let n = g.value(); f.set("a", Exp::Val(Cell::Time(true, n % 30, 5, 7, 8, 9))); chrono::Duration::microseconds(-(((n as i64 % 30 * 24 + 5) * 60 + 7) * 60 + 8) * 1_000_000 - 9) };
        let b = if g.pick(2) == 0 { let n = g.value(); f.set("b", Exp::Val(Cell::Time(true, n % 30, 5, 7, 8, 9))); Some(chrono::Duration::microseconds(-(((n as i64 % 30 * 24 + 5) * 60 + 7) * 60 + 8) * 1_000_000 - 9)) } else { f.set("b", Exp::Null); None };
        (Self { id, a, b }, f)
    }
    fn fill(g: &mut Gen) -> Self {
        Self::fill_node(g).0
    }
    fn node(&self) -> Node {
        let mut n = Node::new::<Self>(Some(self.id));
        n
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node) {
        let mut a = Self::active_model();
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node) {
        {
            let id = g.id(<Self as mysql_connector::model::ModelData>::TABLE);
            n.key = Some(id);
            a.id = ActiveValue::Set(id);
        }
        let node = n;
        if g.pick(2) == 1 {
            let n = g.value();
            node.set("a", Exp::Val(Cell::Time(true, n % 30, 5, 7, 8, 9)));
            a.a = ActiveValue::Set(chrono::Duration::microseconds(-(((n as i64 % 30 * 24 + 5) * 60 + 7) * 60 + 8) * 1_000_000 - 9));
        }
        match g.pick(3) {
            1 => {
                let n = g.value();
                node.set("b", Exp::Val(Cell::Time(true, n % 30, 5, 7, 8, 9)));
                a.b = ActiveValue::Set(Some(chrono::Duration::microseconds(-(((n as i64 % 30 * 24 + 5) * 60 + 7) * 60 + 8) * 1_000_000 - 9)));
            }
            2 => {
                node.set("b", Exp::Null);
                a.b = ActiveValue::Set(None);
            }
            _ => {}
        }
    }
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node) {
        let mut a = UpdateModel::<Self>::new(key);
        let mut n = Node::new::<Self>(None);
        Self::fields(g, &mut a, &mut n);
        (a, n)
    }
}

pub fn all() -> Vec<Box<dyn crate::shape::Dyn>> {
    vec![
        crate::shape::boxed::<Leaf>(),
        crate::shape::boxed::<Mid>(),
        crate::shape::boxed::<Deep>(),
        crate::shape::boxed::<Keyed>(),
        crate::shape::boxed::<M1>(),
        crate::shape::boxed::<M2>(),
        crate::shape::boxed::<M3>(),
        crate::shape::boxed::<M4>(),
        crate::shape::boxed::<M5>(),
        crate::shape::boxed::<M6>(),
        crate::shape::boxed::<M7>(),
        crate::shape::boxed::<M8>(),
        crate::shape::boxed::<M9>(),
        crate::shape::boxed::<M10>(),
        crate::shape::boxed::<M11>(),
        crate::shape::boxed::<M12>(),
        crate::shape::boxed::<M13>(),
        crate::shape::boxed::<M14>(),
        crate::shape::boxed::<M15>(),
        crate::shape::boxed::<M16>(),
        crate::shape::boxed::<M17>(),
        crate::shape::boxed::<M18>(),
        crate::shape::boxed::<M19>(),
        crate::shape::boxed::<M20>(),
        crate::shape::boxed::<M21>(),
        crate::shape::boxed::<M22>(),
        crate::shape::boxed::<M23>(),
        crate::shape::boxed::<M24>(),
        crate::shape::boxed::<M25>(),
        crate::shape::boxed::<M26>(),
        crate::shape::boxed::<M27>(),
        crate::shape::boxed::<M28>(),
        crate::shape::boxed::<M29>(),
        crate::shape::boxed::<M30>(),
        crate::shape::boxed::<M31>(),
        crate::shape::boxed::<M32>(),
        crate::shape::boxed::<M33>(),
        crate::shape::boxed::<M34>(),
        crate::shape::boxed::<M35>(),
        crate::shape::boxed::<M36>(),
        crate::shape::boxed::<M37>(),
        crate::shape::boxed::<M38>(),
        crate::shape::boxed::<M39>(),
        crate::shape::boxed::<M40>(),
        crate::shape::boxed::<M42>(),
        crate::shape::boxed::<M45>(),
        crate::shape::boxed::<M46>(),
        crate::shape::boxed::<M47>(),
        crate::shape::boxed::<M48>(),
        crate::shape::boxed::<M49>(),
        crate::shape::boxed::<M50>(),
        crate::shape::boxed::<M51>(),
        crate::shape::boxed::<M52>(),
        crate::shape::boxed::<M53>(),
        crate::shape::boxed::<M54>(),
        crate::shape::boxed::<M55>(),
        crate::shape::boxed::<M56>(),
        crate::shape::boxed::<M57>(),
        crate::shape::boxed::<M58>(),
        crate::shape::boxed::<M59>(),
        crate::shape::boxed::<M60>(),
        crate::shape::boxed::<M61>(),
        crate::shape::boxed::<M62>(),
        crate::shape::boxed::<M63>(),
        crate::shape::boxed::<M64>(),
        crate::shape::boxed::<M65>(),
        crate::shape::boxed::<M66>(),
        crate::shape::boxed::<M67>(),
        crate::shape::boxed::<M68>(),
        crate::shape::boxed::<M69>(),
        crate::shape::boxed::<M70>(),
        crate::shape::boxed::<M71>(),
        crate::shape::boxed::<M72>(),
        crate::shape::boxed::<M73>(),
        crate::shape::boxed::<M74>(),
        crate::shape::boxed::<M75>(),
        crate::shape::boxed::<M76>(),
        crate::shape::boxed::<M78>(),
        crate::shape::boxed::<M79>(),
        crate::shape::boxed::<M80>(),
        crate::shape::boxed::<M81>(),
        crate::shape::boxed::<M82>(),
        crate::shape::boxed::<M83>(),
        crate::shape::boxed::<M84>(),
        crate::shape::boxed::<M85>(),
        crate::shape::boxed::<M86>(),
        crate::shape::boxed::<M87>(),
        crate::shape::boxed::<M88>(),
        crate::shape::boxed::<M89>(),
        crate::shape::boxed::<M90>(),
        crate::shape::boxed::<M91>(),
        crate::shape::boxed::<M92>(),
        crate::shape::boxed::<M93>(),
        crate::shape::boxed::<M94>(),
        crate::shape::boxed::<M95>(),
        crate::shape::boxed::<M96>(),
        crate::shape::boxed::<M97>(),
        crate::shape::boxed::<M98>(),
        crate::shape::boxed::<M99>(),
        crate::shape::boxed::<M100>(),
        crate::shape::boxed::<M101>(),
        crate::shape::boxed::<M102>(),
        crate::shape::boxed::<M103>(),
        crate::shape::boxed::<M104>(),
        crate::shape::boxed::<M105>(),
        crate::shape::boxed::<M106>(),
        crate::shape::boxed::<M107>(),
        crate::shape::boxed::<M108>(),
        crate::shape::boxed::<M109>(),
        crate::shape::boxed::<M110>(),
        crate::shape::boxed::<M112>(),
        crate::shape::boxed::<M113>(),
        crate::shape::boxed::<M114>(),
        crate::shape::boxed::<M115>(),
        crate::shape::boxed::<M116>(),
        crate::shape::boxed::<M117>(),
        crate::shape::boxed::<M118>(),
        crate::shape::boxed::<M119>(),
        crate::shape::boxed::<M120>(),
        crate::shape::boxed::<M121>(),
        crate::shape::boxed::<M122>(),
        crate::shape::boxed::<M123>(),
        crate::shape::boxed::<M124>(),
        crate::shape::boxed::<M125>(),
        crate::shape::boxed::<T0>(),
        crate::shape::boxed::<T1>(),
        crate::shape::boxed::<T2>(),
        crate::shape::boxed::<T3>(),
        crate::shape::boxed::<T4>(),
        crate::shape::boxed::<T5>(),
        crate::shape::boxed::<T6>(),
        crate::shape::boxed::<T7>(),
        crate::shape::boxed::<T8>(),
        crate::shape::boxed::<T9>(),
        crate::shape::boxed::<T10>(),
        crate::shape::boxed::<T11>(),
        crate::shape::boxed::<T12>(),
        crate::shape::boxed::<T13>(),
        crate::shape::boxed::<T14>(),
        crate::shape::boxed::<T15>(),
        crate::shape::boxed::<T16>(),
        crate::shape::boxed::<T17>(),
        crate::shape::boxed::<T18>(),
        crate::shape::boxed::<T19>(),
        crate::shape::boxed::<T20>(),
        crate::shape::boxed::<T21>(),
    ]
}
