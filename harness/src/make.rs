//! The crate's constructors: what they make, seen through the public fields.
use crate::model::*;
use crate::{call, out};
use serde_json::{json, Map, Value};
use std::path::PathBuf;
use swrs::api::block::*;
use swrs::api::view::View;
use swrs::api::Resources;
use swrs::color::Color;
use swrs::parser::logic as plogic;
use swrs::parser::logic::component::Component;
use swrs::parser::logic::BlockContainer;
use swrs::parser::project::ProjectColorPalette;
use swrs::parser::view::models::layout::gravity;
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::AndroidView;
use swrs::parser::{ResourceFileWrapper, ResourceFiles};

/// a workbench: a content being put together, the blocks made so far, and blocks put aside
#[derive(Default)]
pub struct Bench { builder: Option<BlockContentBuilder>, content: Option<BlockContent>, made: Vec<Block>, held: Vec<Block> }

fn argb(c: &Color) -> Value { json!([c.alpha(), c.red(), c.green(), c.blue()]) }
fn palette(c: &ProjectColorPalette) -> Value { json!([argb(&c.color_primary), argb(&c.color_primary_dark), argb(&c.color_accent), argb(&c.color_control_normal), argb(&c.color_control_highlight)]) }
fn cat(o: &mut Map<String, Value>, b: &Block) {
    let mut m = Map::new();
    out(&mut m, call(|| b.category().ok()), |m, c| { m.insert("cat".into(), json!(cat_to(&c))); });
    o.insert("category".into(), Value::Object(m));
}

pub fn run(w: &mut Bench, name: &str, op: &Value, o: &mut Map<String, Value>, base: &PathBuf) {
    match name {
        "make.start" => { *w = Bench { builder: Some(BlockContent::builder()), ..Default::default() }; o.insert("out".into(), json!("ok")); }
        "make.text" => {
            o.insert("text".into(), ob(op, "text").clone()); o.insert("words".into(), crate::lex::words(st(op, "text")));
            let b = w.builder.take().unwrap_or_else(BlockContent::builder);
            // both a borrowed and an owned text are accepted
            out(o, call(|| Some(if st(op, "text").len() % 2 == 0 { b.text(st(op, "text")) } else { b.text(so(op, "text")) })), |_, b| { w.builder = Some(b); });
        }
        "make.arg" => {
            let it = b_item(ob(op, "item"));
            o.insert("item".into(), p_item(&it));
            let b = w.builder.take().unwrap_or_else(BlockContent::builder);
            let SpecItem::Parameter(a) = it else { panic!("harness: not an argument") };
            out(o, call(|| Some(b.arg(a))), |_, b| { w.builder = Some(b); });
        }
        "make.content" => {
            let b = w.builder.take().unwrap_or_else(BlockContent::builder);
            out(o, call(|| Some(b.build())), |o, c| { o.insert("content".into(), p_content(&c)); w.content = Some(c); });
        }
        "make.block" => {
            let c = w.content.take().unwrap_or(BlockContent { items: vec![] });
            o.insert("content".into(), p_content(&c));
            for k in ["ctor", "cat", "opc", "kind", "tn"] { o.insert(k.into(), ob(op, k).clone()); }
            let k = cat_of(st(op, "cat"));
            let (made, held) = (std::mem::take(&mut w.made), std::mem::take(&mut w.held));
            let ctor = st(op, "ctor");
            let r = call(|| Some(match ctor {
                "new" => Block::new(k, so(op, "opc"), c, b_btype(st(op, "kind"), st(op, "tn"))),
                "one" => Block::new_1substack(k, so(op, "opc"), c, Blocks(made.clone())),
                "two" => Block::new_2substack(k, so(op, "opc"), c, Blocks(held.clone()), Blocks(made.clone())),
                x => panic!("harness: ctor {}", x),
            }));
            if ctor == "new" { w.made = made; }
            if ctor != "two" { w.held = held; }
            out(o, r, |o, b| {
                o.insert("block".into(), p_block(&b)); o.insert("argb".into(), argb(&b.color));
                o.insert("subs".into(), json!([b.sub_stack1.is_some().to_string(), b.sub_stack2.is_some().to_string()]));
                cat(o, &b);
                w.made.push(b);
            });
            w.builder = Some(BlockContent::builder());
        }
        "make.hold" => { w.held = std::mem::take(&mut w.made); o.insert("out".into(), json!("ok")); }
        "make.code" => {
            // a stack of its own, filled through the collection's own doors
            let made = w.made.clone();
            out(o, call(|| { let mut b = Blocks::new(); let empty = b.0.is_empty(); b.0.extend(made); Some((empty, b)) }), |o, (empty, b)| {
                o.insert("empty".into(), json!(empty.to_string()));
                o.insert("forest".into(), p_blocks(&b));
                o.insert("walk".into(), Value::Array(b.clone().into_iter().map(|b| p_block(&b)).collect()));
                let mut m = Map::new();
                out(&mut m, call(|| { let c: BlockContainer = b.into(); Some(c) }), |m, c| { m.insert("flat".into(), p_cont(&c)); });
                o.insert("stored".into(), Value::Object(m));
            });
        }
        "make.cat" => {
            let b = b_block(ob(op, "block"));
            o.insert("block".into(), p_block(&b)); o.insert("rgb".into(), json!([b.color.red(), b.color.green(), b.color.blue()])); o.insert("out".into(), json!("ok"));
            cat(o, &b);
        }
        "make.comp" => {
            let p: Vec<String> = ar(op, "p").iter().map(|x| x.as_str().unwrap().to_string()).collect();
            let (id, t): (String, u8) = (so(op, "id"), nm(op, "type"));
            o.insert("p".into(), ob(op, "p").clone()); o.insert("id".into(), json!(id)); o.insert("type".into(), json!(t.to_string()));
            let mut i = p.into_iter();
            let n = i.len();
            let mut a = || i.next().unwrap();
            out(o, call(|| Some(match n { 0 => Component::new_empty(id, t), 1 => Component::new_1param(id, a(), t), 2 => { let x = a(); let y = a(); Component::new_2params(id, x, y, t) } _ => { let x = a(); let y = a(); let z = a(); Component::new(id, x, y, z, t) } })),
                |o, c| { o.insert("c".into(), p_comp(&c)); });
        }
        "make.view" => {
            for k in ["id", "type", "parent", "ptype"] { o.insert(k.into(), ob(op, k).clone()); }
            out(o, call(|| Some(AndroidView::new_empty(st(op, "id"), nm(op, "type"), st(op, "parent"), nm(op, "ptype")))), |o, v| {
                o.insert("raw".into(), p_av(&v));
                let mut m = Map::new();
                out(&mut m, call(|| Some(View::from(v))), |m, v| { m.insert("view".into(), p_view(&v)); });
                o.insert("shown".into(), Value::Object(m));
            });
        }
        "make.gravity" => {
            let n: u8 = nm(op, "n");
            o.insert("n".into(), json!(n));
            out(o, call(|| Some(Gravity::new(n))), |o, g| {
                o.insert("v".into(), json!(g.0));
                let mut d: Vec<&str> = vec![];
                if g.center_horizontal() { d.push("centerH"); } if g.left() { d.push("left"); } if g.right() { d.push("right"); } if g.center_vertical() { d.push("centerV"); }
                if g.center() { d.push("center"); } if g.top() { d.push("top"); } if g.bottom() { d.push("bottom"); }
                o.insert("dirs".into(), json!(d));
                o.insert("consts".into(), json!({"none": gravity::NONE, "centerH": gravity::CENTER_HORIZONTAL, "left": gravity::LEFT, "right": gravity::RIGHT, "centerV": gravity::CENTER_VERTICAL, "center": gravity::CENTER, "top": gravity::TOP, "bottom": gravity::BOTTOM}));
            });
        }
        "make.color" => {
            let (a, r, g, b): (u8, u8, u8, u8) = (nm(op, "a"), nm(op, "r"), nm(op, "g"), nm(op, "b"));
            o.insert("given".into(), json!([a, r, g, b]));
            out(o, call(|| Some(Color::from_argb(a, r, g, b))), |o, c| { o.insert("disp".into(), json!(format!("{}", c))); o.insert("debug".into(), json!(format!("{:?}", c))); });
        }
        "make.etype" => {
            let mut e = b_pevent(ob(op, "e"));
            let t = b_etype(ob(op, "event"));
            o.insert("e".into(), p_pevent(&e)); o.insert("event".into(), ob(op, "event").clone());
            out(o, call(|| { t.apply_to_parser_event(&mut e); Some(()) }), |_, _| {});
            o.insert("after".into(), p_pevent(&e));
        }
        "make.mb" => {
            let m = b_mb(ob(op, "mb"));
            o.insert("mb".into(), p_mb(&m.name, &m));
            out(o, call(|| Some(m.into_parser_more_block())), |o, (p, b)| { o.insert("p".into(), p_pmb(&p)); o.insert("code".into(), p_blocks(&b)); });
        }
        "make.list" => {
            o.insert("text".into(), ob(op, "text").clone());
            out(o, call(|| st(op, "text").parse::<ListItem>().ok()), |o, l| {
                o.insert("inner".into(), json!(match l { ListItem::String => "String", ListItem::Number => "Number" }));
                let r: ArgumentBlockReturnType = l.into();
                o.insert("ret".into(), json!(p_btype(&BlockType::Argument(r)).0));
            });
        }
        "make.rid" => {
            // made up ids: the given name and type, and (all but certainly) not always the same id
            o.insert("name".into(), ob(op, "name").clone()); o.insert("t".into(), ob(op, "t").clone());
            out(o, call(|| Some((0..4).map(|_| ResourceFileWrapper::make_random_id(so(op, "name"), rt_of(st(op, "t")))).collect::<Vec<_>>())), |o, l| {
                o.insert("full".into(), Value::Array(l.iter().map(|f| json!(f.get_full_name())).collect()));
                o.insert("made".into(), arr(&l, |f| p_rf(f, base)));
            });
        }
        "make.defaults" => {
            o.insert("name".into(), ob(op, "name").clone());
            out(o, call(|| Some(json!({
                "blocks": p_blocks(&Blocks::new()), "blocks2": p_blocks(&Blocks::default()), "cont": p_cont(&BlockContainer::default()),
                "vars": p_varpool(&Default::default()), "lists": p_listpool(&Default::default()), "comps": p_comppool(&Default::default()), "events": p_eventpool(&Default::default()), "mbs": p_mbpool(&Default::default()),
                "rfiles": p_rfiles(&ResourceFiles::default(), base), "store": p_store(&Resources::new_empty(), base),
                "color": argb(&Color::default()), "gravity": Gravity::default().0,
                "palette": palette(&ProjectColorPalette::default()),
                "screen": p_slogic(st(op, "name"), &plogic::ScreenLogic::new_empty(so(op, "name"))),
            }))), |o, d| { o.insert("d".into(), d); });
        }
        x => panic!("harness: unknown op {}", x),
    }
}
