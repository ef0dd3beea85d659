//! C13: the line-oriented form. C14: the visitor.
use crate::gen::{self, Cfg, Rng};
use crate::wire::write_model_to_string;
use crate::wire::{build_model, sinks_of, snap_node, snap_shape, snap_traits};
use atelier_core::io::lines::{make_line_oriented_form, LineOrientedWriter};
use atelier_core::model::shapes::{
    AppliedTraits, ListOrSet, Map as MapShape, Operation, Resource, Service, ShapeKind, Simple,
    StructureOrUnion, TopLevelShape,
};
use atelier_core::model::values::Value as Node;
use atelier_core::model::visitor::{walk_model, MemberVisitor, ModelVisitor};
use atelier_core::model::{Identifier, Model, ShapeID};
use serde_json::{json, Value};
use std::cell::RefCell;

struct Log {
    calls: RefCell<Vec<Value>>,
    fail: usize,
    members: bool,
}

impl Log {
    fn call(&self, v: Value) -> Result<(), usize> {
        let mut calls = self.calls.borrow_mut();
        calls.push(v);
        if calls.len() == self.fail {
            Err(self.fail)
        } else {
            Ok(())
        }
    }
    fn shape(
        &self,
        cb: &str,
        id: &ShapeID,
        t: &AppliedTraits,
        body: ShapeKind,
    ) -> Result<(), usize> {
        let s = TopLevelShape::with_traits(id.clone(), body, t.clone());
        self.call(json!({"cb": cb, "id": id.to_string(), "shape": snap_shape(&s)}))
    }
}

impl MemberVisitor for Log {
    type Error = usize;
    fn member(
        &self,
        id: &ShapeID,
        n: &Identifier,
        t: &ShapeID,
        ts: Option<&AppliedTraits>,
    ) -> Result<(), usize> {
        self.call(json!({"cb": "member", "id": id.to_string(), "name": n.to_string(), "target": t.to_string(),
            "traits": ts.map(snap_traits).unwrap_or(json!({})), "has": ts.is_some()}))
    }
}

impl ModelVisitor for Log {
    type Error = usize;
    fn metadata(&self, key: &str, value: &Node) -> Result<(), usize> {
        self.call(json!({"cb": "metadata", "key": key, "value": snap_node(value)}))
    }
    fn simple_shape(&self, id: &ShapeID, t: &AppliedTraits, b: &Simple) -> Result<(), usize> {
        self.shape("simple_shape", id, t, ShapeKind::Simple(b.clone()))
    }
    fn list(&self, id: &ShapeID, t: &AppliedTraits, b: &ListOrSet) -> Result<(), usize> {
        self.shape("list", id, t, ShapeKind::List(b.clone()))
    }
    fn set(&self, id: &ShapeID, t: &AppliedTraits, b: &ListOrSet) -> Result<(), usize> {
        self.shape("set", id, t, ShapeKind::Set(b.clone()))
    }
    fn map(&self, id: &ShapeID, t: &AppliedTraits, b: &MapShape) -> Result<(), usize> {
        self.shape("map", id, t, ShapeKind::Map(b.clone()))
    }
    fn structure(
        &self,
        id: &ShapeID,
        t: &AppliedTraits,
        b: &StructureOrUnion,
    ) -> Result<(), usize> {
        self.shape("structure", id, t, ShapeKind::Structure(b.clone()))
    }
    fn union(&self, id: &ShapeID, t: &AppliedTraits, b: &StructureOrUnion) -> Result<(), usize> {
        self.shape("union", id, t, ShapeKind::Union(b.clone()))
    }
    fn service(&self, id: &ShapeID, t: &AppliedTraits, b: &Service) -> Result<(), usize> {
        self.shape("service", id, t, ShapeKind::Service(b.clone()))
    }
    fn operation(&self, id: &ShapeID, t: &AppliedTraits, b: &Operation) -> Result<(), usize> {
        self.shape("operation", id, t, ShapeKind::Operation(b.clone()))
    }
    fn resource(&self, id: &ShapeID, t: &AppliedTraits, b: &Resource) -> Result<(), usize> {
        self.shape("resource", id, t, ShapeKind::Resource(b.clone()))
    }
    fn unresolved_id(&self, id: &ShapeID, t: &AppliedTraits) -> Result<(), usize> {
        self.shape("unresolved_id", id, t, ShapeKind::Unresolved)
    }
    fn member_visitor(&self) -> Option<&dyn MemberVisitor<Error = usize>> {
        if self.members {
            Some(self)
        } else {
            None
        }
    }
}

fn walk(w: &Value, model: &Model, members: bool, fail: usize) -> Value {
    let v = Log {
        calls: RefCell::new(vec![]),
        fail,
        members,
    };
    let r = match walk_model(model, &v) {
        Ok(()) => json!(["ok", 0]),
        Err(n) => json!(["err", n]),
    };
    json!({"op": "walk", "model": w, "members": members, "fail": fail, "calls": v.calls.into_inner(), "r": r})
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    let model = build_model(&case["model"]);
    if let Some(fails) = case["fails"].as_array() {
        for f in fails {
            for members in [false, true] {
                out.push(walk(
                    &case["model"],
                    &model,
                    members,
                    f.as_u64().unwrap() as usize,
                ));
            }
        }
        return;
    }
    let lines = make_line_oriented_form(&model);
    let text = write_model_to_string(&mut LineOrientedWriter::default(), &model).unwrap();
    out.push(sinks_of(
        "lines",
        &text,
        &mut LineOrientedWriter::default(),
        &model,
    ));
    let written: Vec<&str> = text
        .strip_suffix('\n')
        .map(|t| t.split('\n').collect())
        .unwrap_or_default();
    // the same model made again, in another order
    let mut again = Model::default();
    let mut shapes: Vec<_> = model.shapes().cloned().collect();
    shapes.reverse();
    for s in shapes {
        again.add_shape(s).unwrap();
    }
    again
        .merge(build_model(
            &json!({"ver": "1.0", "meta": case["model"]["meta"], "shapes": {}}),
        ))
        .unwrap();
    out.push(
        json!({"op": "lines", "model": case["model"], "lines": lines, "written": written,
        "sorted": lines.windows(2).all(|w| w[0].as_bytes() <= w[1].as_bytes()),
        "again": make_line_oriented_form(&again)}),
    );
}

fn cfg() -> Cfg {
    Cfg {
        strs: gen::STRS
            .iter()
            .filter(|s| !s.contains('\n'))
            .cloned()
            .collect(),
        member_ids: true,
        text_ok: |c| c != '\n',
        ..Cfg::default()
    }
}

pub fn gen_lines(r: &mut Rng) -> Value {
    json!({"model": gen::model(r, &cfg())})
}

pub fn gen_walk(r: &mut Rng) -> Value {
    let m = gen::model(
        r,
        &Cfg {
            trait_pct: 25,
            depth: 1,
            member_ids: true,
            ..Cfg::default()
        },
    );
    let n = 1 + r.below(12);
    json!({"model": m, "fails": [0, n]})
}
