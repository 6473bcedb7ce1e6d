//! Drives the real crate from NDJSON scripts and records what it does, one trace per script.
//!   swrs-harness <scripts.ndjson> <traces.ndjson> <scratch dir>
//! Every call into the crate runs under catch_unwind: a panic is an observation ("out":"panic").
mod fault;
mod lex;
mod make;
mod model;

use fault::Okf;
use model::*;
use serde_json::{json, Map, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use swrs::api;
use swrs::api::block::*;
use swrs::api::component::ComponentKind;
use swrs::api::screen::{Event, EventType};
use swrs::api::view::{flatten_views, parse_raw_layout, View, ViewType};
use swrs::api::{CustomView, ResourceId, Resources};
use swrs::color::Color;
use swrs::parser;
use swrs::parser::logic::variable::VariableType;
use swrs::parser::logic as plogic;
use swrs::parser::logic::BlockContainer;
use swrs::parser::view::Layout;
use swrs::parser::{Parsable, RawSketchwareProject, ResourceFileWrapper, ResourceFiles, SketchwareProject, SketchwareProjectParseError as PE};

#[derive(Default)]
struct St {
    base: PathBuf,
    content: Option<BlockContent>,
    tree: Vec<View>,
    store: Option<Resources>,
    api: Option<api::SketchwareProject>,
    raw: Option<RawSketchwareProject>,
    rfiles: Option<ResourceFiles>,
    bench: make::Bench,
}

/// outcome of a call: Ok(Some(v)) value, Ok(None) error result, Err panic
pub fn call<T>(f: impl FnOnce() -> Option<T>) -> Result<Option<T>, ()> { fault::clear(); catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }

pub fn out<T>(o: &mut Map<String, Value>, r: Result<Option<T>, ()>, f: impl FnOnce(&mut Map<String, Value>, T)) {
    match r {
        Ok(Some(v)) => { o.insert("out".into(), json!("ok")); f(o, v) }
        Ok(None) => { o.insert("out".into(), json!("err")); if let Some(f) = fault::take() { o.insert("fault".into(), Value::Array(f)); } }
        Err(()) => { o.insert("out".into(), json!("panic")); }
    }
}

fn bytes(v: &Value) -> Vec<u8> { v.as_array().expect("bytes").iter().map(|x| x.as_u64().unwrap() as u8).collect() }
fn pbytes(b: &[u8]) -> Value { Value::Array(b.iter().map(|x| json!(*x)).collect()) }

/// red, green and blue of a signed 32 bit colour number
fn rgb3(t: &str) -> [u32; 3] { let u = t.parse::<i64>().unwrap() as u32; [u >> 16 & 255, u >> 8 & 255, u & 255] }

fn find_mut<'a>(t: &'a mut Vec<View>, id: &str) -> Option<&'a mut View> {
    for v in t.iter_mut() {
        if v.id == id { return Some(v); }
        if let Some(x) = find_mut(&mut v.children, id) { return Some(x); }
    }
    None
}
fn kids_of<'a>(t: &'a mut Vec<View>, parent: &str) -> Option<&'a mut Vec<View>> {
    if parent.is_empty() { Some(t) } else { find_mut(t, parent).map(|v| &mut v.children) }
}
fn remove_view(t: &mut Vec<View>, id: &str) -> Option<View> {
    if let Some(i) = t.iter().position(|v| v.id == id) { return Some(t.remove(i)); }
    for v in t.iter_mut() { if let Some(x) = remove_view(&mut v.children, id) { return Some(x); } }
    None
}
/// direct edits of a view tree through its public fields; None when the view to edit is not there
fn edit_tree(t: &mut Vec<View>, op: &str, a: &Value) -> Option<()> {
    match op {
        "add" => {
            let k = kids_of(t, st(a, "parent"))?;
            let pos: usize = nm(a, "pos");
            let pos = pos.min(k.len());
            k.insert(pos, b_view(ob(a, "view")));
        }
        "del" => { remove_view(t, st(a, "id"))?; }
        "move" => {
            let v = remove_view(t, st(a, "id"))?;
            let k = kids_of(t, st(a, "parent"))?;
            let pos: usize = nm(a, "pos");
            let pos = pos.min(k.len());
            k.insert(pos, v);
        }
        // replace the fields named in "set" of the view's projection (children untouched)
        "set" => {
            let v = find_mut(t, st(a, "id"))?;
            let kids = std::mem::take(&mut v.children);
            let mut p = p_view(v);
            for (k, x) in ob(a, "set").as_object().unwrap() {
                if k == "raw" {
                    for (rk, rx) in x.as_object().unwrap() { p["raw"][rk] = rx.clone(); }
                } else { p[k] = x.clone(); }
            }
            *v = b_view(&p);
            v.children = kids;
        }
        o => panic!("harness: tree edit {}", o),
    }
    Some(())
}

fn p_raw(r: &RawSketchwareProject, base: &PathBuf) -> Value {
    let files = match &r.resource_files {
        None => json!({"some": "0", "l": []}),
        Some(l) => {
            let mut v: Vec<Value> = l.iter().map(|f| p_rf(f, base)).collect();
            v.sort_by_key(|x| x.to_string());
            json!({"some": "1", "l": v})
        }
    };
    json!({"project": lex::lex(&r.project), "file": lex::lex(&r.file), "library": lex::lex(&r.library), "resource": lex::lex(&r.resource),
        "view": lex::lex(&r.view), "logic": lex::lex(&r.logic), "files": files})
}
/// the six texts, byte for byte, as digests
fn p_sum(r: &RawSketchwareProject) -> Value {
    use std::hash::{Hash, Hasher};
    let h = |t: &str| { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); format!("{:x}-{}", h.finish(), t.len()) };
    json!({"project": h(&r.project), "file": h(&r.file), "library": h(&r.library), "resource": h(&r.resource), "view": h(&r.view), "logic": h(&r.logic)})
}

fn which(e: &PE) -> &'static str {
    match e {
        PE::ProjectParseError(_) => "project", PE::FileParseError(_) => "file", PE::LibraryParseError(_) => "library", PE::ResourceParseError(_) => "resource",
        PE::ViewParseError(_) => "view", PE::LogicParseError(_) => "logic", PE::ResourceFilesParseError(_) => "resource_files",
    }
}
fn docs_of(v: &Value) -> [String; 6] { ["project", "file", "library", "resource", "view", "logic"].map(|k| so(v, k)) }
fn files_of(v: &Value, base: &PathBuf) -> Option<Vec<ResourceFileWrapper>> {
    if st(v, "some") == "1" { Some(ar(v, "l").iter().map(|f| b_rf(f, base)).collect()) } else { None }
}

/// a project through its constructor, and the parts it was given
fn b_api(v: &Value, base: &PathBuf) -> (api::SketchwareProject, Value) {
    let mut store = Resources::new_empty();
    let r = ob(v, "res");
    for (k, t) in [("images", parser::ResourceType::Image), ("sounds", parser::ResourceType::Sound), ("fonts", parser::ResourceType::Font)] {
        for e in ar(r, k) { store.put_resource(ResourceId(so(e, "id")), b_rf(ob(e, "file"), base), t).expect("harness: put_resource"); }
    }
    let parts = (b_meta(ob(v, "meta")), b_colors(ob(v, "colors")), ar(v, "screens").iter().map(b_screen).collect::<Vec<_>>(),
        ar(v, "cviews").iter().map(|c| CustomView { res_name: so(c, "name"), layout: ar(c, "layout").iter().map(b_view).collect() }).collect::<Vec<_>>(),
        b_libs(ob(v, "libs")), store);
    let icon = ar(v, "icon").first().map(|f| b_rf(f, base));
    let given = p_parts(&parts.0, &parts.1, &parts.2, &parts.3, &parts.4, &parts.5, &icon, base);
    let mut p = api::SketchwareProject::new(parts.0, parts.1, parts.2, parts.3, parts.4, parts.5);
    let bare = p.custom_icon.is_none();
    p.custom_icon = icon;
    (p, json!({"project": given, "bare": bare.to_string()}))
}

fn layout_of<'a>(p: &'a mut api::SketchwareProject, a: &Value) -> &'a mut Vec<View> {
    let i: usize = nm(a, "i");
    match st(a, "where") { "screen" => &mut p.screens[i].layout, "cview" => &mut p.custom_views[i].layout, o => panic!("harness: where {}", o) }
}

/// edits of an API project, through public fields and methods only
fn edit_api(p: &mut api::SketchwareProject, a: &Value, base: &PathBuf) -> Option<()> {
    let e = st(a, "edit");
    let ix = || -> usize { nm(a, "i") };
    match e {
        "meta" => { p.metadata = b_meta(ob(a, "v")); }
        "colors" => { p.colors = b_colors(ob(a, "v")); }
        "libs" => { p.libraries = b_libs(ob(a, "v")); }
        "icon" => { p.custom_icon = ar(a, "v").first().map(|f| b_rf(f, base)); }
        "screen.add" => { p.screens.push(b_screen(ob(a, "v"))); }
        "screen.del" => { p.screens.remove(ix()); }
        "screen.flags" => {
            let s = &mut p.screens[ix()];
            let v = ob(a, "v");
            s.fullscreen_enabled = bo(v, "fullscreenOn"); s.toolbar_enabled = bo(v, "toolbarOn"); s.drawer_enabled = bo(v, "drawerOn"); s.fab_enabled = bo(v, "fabOn");
            s.orientation = fori_of(st(v, "orientation")); s.theme = theme_of(st(v, "theme")); s.keyboard_setting = kbd_of(st(v, "kbd"));
        }
        "var.add" => { let v = ob(a, "v"); let m = b_vars(std::slice::from_ref(v)); for (k, x) in m { p.screens[ix()].variables.insert(k, x); } }
        "var.del" => { p.screens[ix()].variables.remove(st(a, "name")); }
        "list.add" => { let v = ob(a, "v"); let m = b_lists(std::slice::from_ref(v)); for (k, x) in m { p.screens[ix()].list_variables.insert(k, x); } }
        "list.del" => { p.screens[ix()].list_variables.remove(st(a, "name")); }
        "comp.add" => { let v = ob(a, "v"); p.screens[ix()].components.insert(so(v, "id"), b_ck(v)); }
        "comp.del" => { p.screens[ix()].components.remove(st(a, "name")); }
        "mb.add" => { let v = ob(a, "v"); p.screens[ix()].more_blocks.insert(so(v, "id"), b_mb(v)); }
        "mb.del" => { p.screens[ix()].more_blocks.remove(st(a, "name")); }
        "mb.code" => { p.screens[ix()].more_blocks.get_mut(st(a, "name"))?.code = b_blocks(ob(a, "v")); }
        "ev.add" => { let s = &mut p.screens[ix()]; let pos: usize = nm(a, "pos"); let pos = pos.min(s.events.len()); s.events.insert(pos, b_event(ob(a, "v"))); }
        "ev.del" => { let j: usize = nm(a, "j"); p.screens[ix()].events.remove(j); }
        "ev.code" => { let j: usize = nm(a, "j"); p.screens[ix()].events[j].code = b_blocks(ob(a, "v")); }
        "ev.push" => { let j: usize = nm(a, "j"); p.screens[ix()].events[j].code.0.push(b_block(ob(a, "v"))); }
        "fab" => { p.screens[ix()].fab = ar(a, "v").first().map(b_view); }
        "cview.add" => { let v = ob(a, "v"); p.custom_views.push(CustomView { res_name: so(v, "name"), layout: ar(v, "layout").iter().map(b_view).collect() }); }
        "cview.del" => { p.custom_views.remove(ix()); }
        "view.add" | "view.del" | "view.set" | "view.move" => { let op = &e[5..]; return edit_tree(layout_of(p, a), op, a); }
        "res.put" => { return p.resources.put_resource(ResourceId(so(a, "id")), b_rf(ob(a, "file"), base), rt_of(st(a, "t"))).okf(); }
        o => panic!("harness: edit {}", o),
    }
    Some(())
}

macro_rules! doc_kinds {
    ($kind:expr, $m:ident, $($name:literal => $ty:ty, $b:expr, $p:expr);+ $(;)?) => {
        match $kind { $($name => $m!($ty, $b, $p),)+ o => panic!("harness: doc kind {}", o) }
    }
}
/// the six data files and every piece of them that reads and writes on its own
macro_rules! all_kinds {
    ($kind:expr, $m:ident) => { doc_kinds!($kind, $m,
        "project" => parser::project::Project, b_project, p_project;
        "file" => parser::file::File, b_file, p_file;
        "library" => parser::library::Library, b_library, p_library;
        "resource" => parser::resource::Resource, b_resource, p_resource;
        "view" => parser::view::View, b_pview, p_pview;
        "logic" => parser::logic::Logic, b_logic, p_logic;
        "fileItem" => parser::file::FileItem, b_fitem, p_fitem;
        "resItem" => parser::resource::ResourceItem, b_ritem, p_ritem;
        "libItem" => parser::library::LibraryItem, b_lib, p_lib;
        "viewItem" => parser::view::models::AndroidView, b_av, p_av;
        "layout" => Layout, b_layout, p_layout;
        "varItem" => plogic::variable::Variable, b_var, p_var;
        "varPool" => plogic::variable::VariablePool, b_varpool, p_varpool;
        "listItem" => plogic::list_variable::ListVariable, b_list, p_list;
        "listPool" => plogic::list_variable::ListVariablePool, b_listpool, p_listpool;
        "compItem" => plogic::component::Component, b_comp, p_comp;
        "compPool" => plogic::component::ComponentPool, b_comppool, p_comppool;
        "mbItem" => plogic::more_block::MoreBlock, b_pmb, p_pmb;
        "mbPool" => plogic::more_block::MoreBlockPool, b_mbpool, p_mbpool;
        "eventItem" => plogic::event::Event, b_pevent, p_pevent;
        "eventPool" => plogic::event::EventPool, b_eventpool, p_eventpool;
        "header" => plogic::BlockContainerHeader, b_header, p_header;
        "blockItem" => plogic::Block, b_flat, p_flat;
        "blocks" => BlockContainer, b_cont, p_cont) }
}

fn run_op(s: &mut St, op: &Value, o: &mut Map<String, Value>) {
    let name = st(op, "op");
    let base = s.base.clone();
    fault::below(&base);
    // nothing to work on: an earlier step failed
    let lacking = match name {
        "sess.save" | "sess.edit" | "sess.obs" | "res.load" => s.api.is_none(),
        "sess.load" | "sess.parsed" | "sess.crypt" => s.raw.is_none(),
        "rfiles.into" => s.rfiles.is_none(),
        "content.apply" | "content.blocks" | "content.string" | "content.take" | "content.args" | "content.set" => s.content.is_none(),
        _ => false,
    };
    if lacking { o.insert("out".into(), json!("none")); return; }
    match name {
        // ------------------------------------------------ block code
        "blocks.enc" => {
            let f = b_blocks(ob(op, "forest"));
            o.insert("forest".into(), p_blocks(&f));
            let r = call(|| { let c: BlockContainer = f.clone().into(); Some(c) });
            out(o, r, |o, c| {
                o.insert("flat".into(), p_cont(&c));
                let mut b = Map::new();
                out(&mut b, call(|| Blocks::try_from(c.clone()).okf()), |b, f| { b.insert("forest".into(), p_blocks(&f)); });
                o.insert("back".into(), Value::Object(b));
            });
        }
        "blocks.dec" => {
            let c = b_cont(ob(op, "flat"));
            o.insert("flat".into(), p_cont(&c));
            out(o, call(|| Blocks::try_from(c).okf()), |o, f| { o.insert("forest".into(), p_blocks(&f)); });
        }
        // ------------------------------------------------ block contents
        "content.build" => { s.content = Some(b_content(ob(op, "items"))); o.insert("out".into(), json!("ok")); }
        "content.parse" => {
            let args: Vec<String> = ar(op, "args").iter().map(|x| x.as_str().unwrap().to_string()).collect();
            o.insert("spec".into(), ob(op, "spec").clone());
            o.insert("words".into(), lex::words(st(op, "spec")));
            o.insert("params".into(), arr(&args, |a| p_param(a)));
            out(o, call(|| BlockContent::parse(so(op, "spec"), args).okf()), |_, c| { s.content = Some(c); });
        }
        "content.parse_wo" => {
            o.insert("spec".into(), ob(op, "spec").clone());
            o.insert("words".into(), lex::words(st(op, "spec")));
            out(o, call(|| BlockContent::parse_wo_params(st(op, "spec")).okf()), |_, c| { s.content = Some(c); });
        }
        "content.apply" => {
            let args: Vec<String> = ar(op, "args").iter().map(|x| x.as_str().unwrap().to_string()).collect();
            o.insert("params".into(), arr(&args, |a| p_param(a)));
            let c = s.content.clone().expect("harness: content");
            out(o, call(|| c.apply_args(args).okf()), |_, c| { s.content = Some(c); });
        }
        "content.blocks" => {
            let have: Vec<(u32, Block)> = ar(op, "have").iter().map(|h| (nm(h, "id"), b_block(ob(h, "b")))).collect();
            o.insert("have".into(), Value::Array(have.iter().map(|(i, b)| json!({"id": i.to_string(), "b": p_block(b)})).collect()));
            let c = s.content.clone().expect("harness: content");
            out(o, call(|| c.apply_blocks(|id| have.iter().find(|h| h.0 == id).map(|h| h.1.clone())).okf()), |_, c| { s.content = Some(c); });
        }
        "content.string" => {
            let c = s.content.clone().expect("harness: content");
            out(o, call(|| Some(c.to_string())), |o, t| { o.insert("words".into(), lex::words(&t)); o.insert("text".into(), json!(t)); });
        }
        "content.take" => {
            let c = s.content.clone().expect("harness: content");
            out(o, call(|| Some(c.take_args())), |o, (c, a)| { o.insert("args".into(), arr(&a, p_arg)); s.content = Some(c); });
        }
        "content.args" => {
            let c = s.content.clone().expect("harness: content");
            out(o, call(|| Some(c.get_args().into_iter().cloned().collect::<Vec<_>>())), |o, a| { o.insert("args".into(), arr(&a, p_arg)); });
        }
        "content.set" => {
            let mut c = s.content.clone().expect("harness: content");
            let i: usize = nm(op, "i");
            let it = b_item(ob(op, "item"));
            o.insert("i".into(), json!(i + 1));
            o.insert("item".into(), p_item(&it));
            out(o, call(|| {
                let mut m = c.get_args_mut();
                if i >= m.len() { return None; }
                if let SpecItem::Parameter(a) = it { *m[i] = a; }
                Some(())
            }), |_, _| {});
            s.content = Some(c);
        }
        // ------------------------------------------------ view trees
        "tree.load" => {
            let l: Vec<_> = ar(op, "flat").iter().map(b_av).collect();
            o.insert("flat".into(), arr(&l, p_av));
            out(o, call(|| parse_raw_layout(Layout(l)).okf()), |o, t| { o.insert("tree".into(), arr(&t, p_view)); s.tree = t; });
        }
        "tree.build" => { s.tree = ar(op, "tree").iter().map(b_view).collect(); o.insert("out".into(), json!("ok")); o.insert("tree".into(), arr(&s.tree, p_view)); }
        "tree.add" | "tree.del" | "tree.set" | "tree.move" => {
            for (k, v) in op.as_object().unwrap() { o.insert(k.clone(), v.clone()); }
            if let Some(p) = op.get("pos") { o.insert("pos".into(), json!(p.as_str().unwrap().parse::<i64>().unwrap())); }
            let r = edit_tree(&mut s.tree, &name[5..], op);
            o.insert("out".into(), json!(if r.is_some() { "ok" } else { "lost" }));
        }
        "tree.obs" => { o.insert("out".into(), json!("ok")); o.insert("tree".into(), arr(&s.tree, p_view)); }
        "tree.find" => {
            o.insert("id".into(), ob(op, "id").clone());
            let id = st(op, "id");
            let t = s.tree.clone();
            let r = call(|| Some((t.iter().find_map(|v| v.find_id(id)).map(p_view), { let mut m = t.clone(); m.iter_mut().find_map(|v| v.find_id_mut(id)).map(|v| p_view(v)) })));
            out(o, r, |o, (a, b)| { o.insert("hit".into(), Value::Array(a.into_iter().collect())); o.insert("hitm".into(), Value::Array(b.into_iter().collect())); });
        }
        "tree.flatten" => {
            let t = s.tree.clone();
            out(o, call(|| Some(flatten_views(t, None, None))), |o, l| {
                o.insert("flat".into(), arr(&l, p_av));
                // and through the file text
                let mut b = Map::new();
                out(&mut b, call(|| Layout(l.clone()).reconstruct().ok()), |b, t| {
                    b.insert("lines".into(), lex::lex(&t));
                    let mut bb = Map::new();
                    out(&mut bb, call(|| Layout::parse(&t).ok().and_then(|l| parse_raw_layout(l).ok())), |bb, t| { bb.insert("tree".into(), arr(&t, p_view)); });
                    b.insert("back".into(), Value::Object(bb));
                });
                o.insert("text".into(), Value::Object(b));
            });
        }
        "view.from" => { let r = b_av(ob(op, "raw")); o.insert("raw".into(), p_av(&r)); out(o, call(|| Some(View::from(r))), |o, v| { o.insert("view".into(), p_view(&v)); }); }
        "kind.of" => { let r = b_av(ob(op, "raw")); o.insert("raw".into(), p_av(&r)); out(o, call(|| ViewType::from_view(&r).okf()), |o, k| { o.insert("kind".into(), p_kind(&k)); }); }
        "kind.id" => { let k = b_kind(ob(op, "kind")).unwrap(); o.insert("kind".into(), p_kind(&k)); out(o, call(|| Some(k.get_type_id())), |o, n| { o.insert("code".into(), json!(n.to_string())); }); }
        "kind.apply" => {
            let k = b_kind(ob(op, "kind")).unwrap();
            let mut r = b_av(ob(op, "raw"));
            o.insert("kind".into(), p_kind(&k));
            o.insert("raw".into(), p_av(&r));
            out(o, call(|| { k.apply_values_to_view(&mut r); Some(()) }), |_, _| {});
            o.insert("after".into(), p_av(&r));
        }
        // ------------------------------------------------ data files
        "doc.write" => {
            let m = ob(op, "model");
            let kind = st(op, "kind");
            o.insert("kind".into(), json!(kind));
            macro_rules! w { ($ty:ty, $b:expr, $p:expr) => {{
                let x: $ty = $b(m);
                o.insert("model".into(), $p(&x));
                out(o, call(|| x.reconstruct().ok()), |o, t| {
                    o.insert("lines".into(), lex::lex(&t));
                    let mut b = Map::new();
                    out(&mut b, call(|| <$ty>::parse(&t).ok()), |b, y| { b.insert("model".into(), $p(&y)); b.insert("eq".into(), json!((y == x).to_string())); });
                    o.insert("back".into(), Value::Object(b));
                    o.insert("bytes".into(), json!(t.len().to_string()));
                });
            }} }
            all_kinds!(kind, w);
        }
        // tokens of a text, for the specification's own exploration
        "lex" => { o.insert("out".into(), json!("ok")); o.insert("sym".into(), ob(op, "sym").clone()); o.insert("lines".into(), lex::lex(st(op, "text"))); }
        "doc.parse" => {
            let t = so(op, "text");
            let kind = st(op, "kind");
            o.insert("kind".into(), json!(kind));
            o.insert("lines".into(), lex::lex(&t));
            macro_rules! r { ($ty:ty, $b:expr, $p:expr) => {{
                fault::reading(&t);
                out(o, call(|| <$ty>::parse(&t).okf()), |o, x| {
                    o.insert("model".into(), $p(&x));
                    let mut b = Map::new();
                    out(&mut b, call(|| x.reconstruct().ok()), |b, t| { b.insert("lines".into(), lex::lex(&t)); });
                    o.insert("again".into(), Value::Object(b));
                });
            }} }
            all_kinds!(kind, r);
        }
        // the entries up to the first blank line are taken from an iterator, the rest is left in it
        "doc.iter" => {
            let t = so(op, "text");
            let kind = st(op, "kind");
            o.insert("kind".into(), json!(kind));
            o.insert("lines".into(), lex::lex(&t));
            let mut it = t.split('\n');
            fault::reading(&t);
            let i = &mut it;
            let r = match kind {
                "layout" => call(|| Layout::parse_iter(i).okf().map(|x| p_layout(&x))),
                "varPool" => call(|| plogic::variable::VariablePool::parse_iter(i).okf().map(|x| p_varpool(&x))),
                "listPool" => call(|| plogic::list_variable::ListVariablePool::parse_iter(i).okf().map(|x| p_listpool(&x))),
                "compPool" => call(|| plogic::component::ComponentPool::parse_iter(i).okf().map(|x| p_comppool(&x))),
                "mbPool" => call(|| plogic::more_block::MoreBlockPool::parse_iter(i).okf().map(|x| p_mbpool(&x))),
                "eventPool" => call(|| plogic::event::EventPool::parse_iter(i).okf().map(|x| p_eventpool(&x))),
                x => panic!("harness: iter kind {}", x),
            };
            out(o, r, |o, x| { o.insert("model".into(), x); });
            o.insert("rest".into(), Value::Array(it.map(lex::lex_line).collect()));
        }
        // ------------------------------------------------ resource store
        // the store of the project at hand
        "res.load" => { s.store = s.api.as_ref().map(|p| p.resources.clone()); o.insert("out".into(), json!("ok")); }
        "res.new" => { s.store = Some(Resources::new_empty()); o.insert("out".into(), json!("ok")); }
        "res.put" => {
            let f = b_rf(ob(op, "file"), &base);
            o.insert("id".into(), ob(op, "id").clone()); o.insert("file".into(), p_rf(&f, &base)); o.insert("t".into(), ob(op, "t").clone());
            o.insert("exists".into(), json!(match &f { ResourceFileWrapper::Path(p) => std::fs::metadata(p).is_ok(), _ => true }.to_string()));
            let st_ = s.store.as_mut().unwrap();
            let t = rt_of(st(op, "t"));
            out(o, call(|| st_.put_resource(ResourceId(so(op, "id")), f, t).okf()), |_, _| {});
        }
        "res.get" => {
            o.insert("id".into(), ob(op, "id").clone());
            let st_ = s.store.as_ref().unwrap();
            let b = base.clone();
            out(o, call(|| st_.get_resource(&ResourceId(so(op, "id"))).map(|(f, t)| json!({"file": p_rf(f, &b), "t": rt_to(&t)}))), |o, v| { o.insert("got".into(), v); });
        }
        "res.remove" => {
            o.insert("id".into(), ob(op, "id").clone());
            let st_ = s.store.as_mut().unwrap();
            let b = base.clone();
            out(o, call(|| st_.remove_resource(&ResourceId(so(op, "id"))).map(|(f, t)| json!({"file": p_rf(&f, &b), "t": rt_to(&t)}))), |o, v| { o.insert("got".into(), v); });
        }
        // ------------------------------------------------ resource files
        "rfiles.from" => {
            let l: Vec<ResourceFileWrapper> = ar(op, "files").iter().map(|f| b_rf(f, &base)).collect();
            o.insert("files".into(), arr(&l, |f| {
                let mut v = p_rf(f, &base);
                if let ResourceFileWrapper::Path(p) = f {
                    let rel: Vec<&str> = v["id"].as_str().unwrap().split('/').collect();
                    let n = rel.len();
                    let (a, g) = (rel[n - 1].to_string(), if n >= 3 { rel[n - 3].to_string() } else { "".into() });
                    v["base"] = json!(a); v["dir"] = json!(g); v["exists"] = json!(std::fs::metadata(p).is_ok().to_string());
                } else { v["base"] = json!(""); v["dir"] = json!(""); v["exists"] = json!("true"); }
                v
            }));
            out(o, call(|| ResourceFiles::try_from(l).okf()), |o, r| { o.insert("maps".into(), p_rfiles(&r, &base)); s.rfiles = Some(r); });
        }
        "rfiles.into" => {
            let r = s.rfiles.clone().expect("harness: rfiles");
            let b = base.clone();
            out(o, call(|| { let v: Vec<ResourceFileWrapper> = r.into(); Some(v) }), |o, l| {
                let mut v: Vec<Value> = l.iter().map(|f| p_rf(f, &b)).collect();
                v.sort_by_key(|x| x.to_string());
                o.insert("list".into(), Value::Array(v));
                // and back again
                let mut bk = Map::new();
                out(&mut bk, call(|| ResourceFiles::try_from(l.clone()).ok()), |bk, r| { bk.insert("maps".into(), p_rfiles(&r, &b)); });
                o.insert("back".into(), Value::Object(bk));
            });
        }
        "rfiles.name" => { let f = b_rf(ob(op, "file"), &base); o.insert("file".into(), p_rf(&f, &base)); out(o, call(|| Some(f.get_full_name())), |o, n| { o.insert("name".into(), json!(n)); }); }
        // ------------------------------------------------ scratch files
        "fs.touch" => { let p = base.join(st(op, "p")); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, b"x").unwrap(); o.insert("p".into(), ob(op, "p").clone()); o.insert("out".into(), json!("ok")); }
        "fs.rm" => { let p = base.join(st(op, "p")); let _ = std::fs::remove_file(&p); o.insert("p".into(), ob(op, "p").clone()); o.insert("out".into(), json!("ok")); }
        "fs.write" => { let p = base.join(st(op, "p")); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, bytes(ob(op, "data"))).unwrap();
            o.insert("p".into(), ob(op, "p").clone()); o.insert("data".into(), ob(op, "data").clone()); o.insert("out".into(), json!("ok")); }
        "fs.read" => { let p = base.join(st(op, "p")); o.insert("p".into(), ob(op, "p").clone());
            match std::fs::read(&p) { Ok(b) => { o.insert("out".into(), json!("ok")); o.insert("data".into(), pbytes(&b)); } Err(_) => { o.insert("out".into(), json!("err")); } } }
        "fs.list" => {
            fn walk(d: &PathBuf, base: &PathBuf, acc: &mut Vec<String>) { if let Ok(r) = std::fs::read_dir(d) { for e in r.flatten() { let p = e.path(); if p.is_dir() { walk(&p, base, acc) } else { acc.push(p.strip_prefix(base).unwrap().to_str().unwrap().to_string()) } } } }
            let mut v = vec![]; walk(&base, &base, &mut v); v.sort(); o.insert("files".into(), json!(v)); o.insert("out".into(), json!("ok"));
        }
        // ------------------------------------------------ encryption
        "crypt.enc" => { let d = bytes(ob(op, "data")); o.insert("data".into(), pbytes(&d)); out(o, call(|| Some(swrs::encrypt_sw(&d))), |o, b| { o.insert("res".into(), pbytes(&b)); }); }
        "crypt.dec" => { let d = bytes(ob(op, "data")); o.insert("data".into(), pbytes(&d)); out(o, call(|| swrs::decrypt_sw_encrypted(&d).okf()), |o, b| { o.insert("res".into(), pbytes(&b)); }); }
        "crypt.encfile" => { let p = base.join(st(op, "p")); o.insert("p".into(), ob(op, "p").clone()); out(o, call(|| swrs::encrypt_sw_file(&p).okf()), |o, b| { o.insert("res".into(), pbytes(&b)); }); }
        "crypt.decfile" => { let p = base.join(st(op, "p")); o.insert("p".into(), ob(op, "p").clone()); out(o, call(|| swrs::decrypt_sw_file(&p).okf()), |o, b| { o.insert("res".into(), pbytes(&b)); }); }
        "crypt.encto" => {
            let p = base.join(st(op, "p"));
            let q = st(op, "q");
            o.insert("p".into(), ob(op, "p").clone()); o.insert("q".into(), json!(q));
            let qq = base.join(q);
            out(o, call(|| swrs::encrypt_sw_file_to_file(&p, if q.is_empty() { None } else { Some(qq.as_path()) }).okf()), |_, _| {});
        }
        // ------------------------------------------------ code tables
        "codes.comp" => {
            let c = b_comp(ob(op, "c"));
            o.insert("c".into(), p_comp(&c));
            out(o, call(|| ComponentKind::from_parser_component(&c).okf()), |o, k| {
                let (n, p) = p_ck(&k);
                o.insert("kind".into(), json!(n)); o.insert("p".into(), json!(p));
                let mut b = Map::new();
                out(&mut b, call(|| Some(k.into_parser_component(c.id.clone()))), |b, c| { b.insert("c".into(), p_comp(&c)); });
                o.insert("back".into(), Value::Object(b));
            });
        }
        "codes.compinto" => {
            let k = b_ck(op);
            let (n, p) = p_ck(&k);
            o.insert("id".into(), ob(op, "id").clone()); o.insert("kind".into(), json!(n)); o.insert("p".into(), json!(p));
            out(o, call(|| Some(k.into_parser_component(so(op, "id")))), |o, c| { o.insert("c".into(), p_comp(&c)); });
        }
        "codes.event" => { let e = b_pevent(ob(op, "e")); o.insert("e".into(), p_pevent(&e)); out(o, call(|| Event::try_from(e).okf()), |o, e| { o.insert("event".into(), p_event(&e)); }); }
        "codes.etype" => { let e = b_pevent(ob(op, "e")); o.insert("e".into(), p_pevent(&e)); out(o, call(|| EventType::from_parser_event(&e).okf()), |o, t| { let (k, i, c) = p_etype(&t); o.insert("et".into(), json!(k)); o.insert("target".into(), json!(i)); o.insert("ctype".into(), json!(c)); }); }
        "codes.eventinto" => { let e = b_event(ob(op, "event")); o.insert("event".into(), p_event(&e)); out(o, call(|| Some((e.get_block_container_id(), e.into_parser_event()))), |o, (c, (e, b))| { o.insert("cont".into(), json!(c)); o.insert("e".into(), p_pevent(&e)); o.insert("code".into(), p_blocks(&b)); }); }
        "codes.btype" => { o.insert("type".into(), ob(op, "type").clone()); o.insert("tn".into(), ob(op, "tn").clone()); out(o, call(|| BlockType::from(st(op, "type"), so(op, "tn")).okf()), |o, t| { let (k, n) = p_btype(&t); o.insert("kind".into(), json!(k)); o.insert("ktn".into(), json!(n)); }); }
        "codes.btypeinto" => { let t = b_btype(st(op, "kind"), st(op, "tn")); o.insert("kind".into(), ob(op, "kind").clone()); o.insert("tn".into(), ob(op, "tn").clone());
            out(o, call(|| Some((t.to_string(), t.get_typename()))), |o, (c, n)| { o.insert("type".into(), json!(c)); o.insert("name".into(), json!(n.unwrap_or_default())); }); }
        "codes.cat" => { let c = color(st(op, "color")); o.insert("color".into(), json!(pcolor(&c))); o.insert("rgb".into(), json!(rgb3(st(op, "color")))); out(o, call(|| BlockCategory::try_from(c).okf()), |o, c| { o.insert("cat".into(), json!(cat_to(&c))); }); }
        "codes.catinto" => { let c = cat_of(st(op, "cat")); o.insert("cat".into(), ob(op, "cat").clone()); out(o, call(|| { let x: Color = c.into(); Some(x) }), |o, c| { o.insert("color".into(), json!(pcolor(&c))); o.insert("rgb".into(), json!(rgb3(&pcolor(&c))));
            let mut b = Map::new(); out(&mut b, call(|| BlockCategory::try_from(c).okf()), |b, c| { b.insert("cat".into(), json!(cat_to(&c))); }); o.insert("back".into(), Value::Object(b)); }); }
        "codes.vt" => { let n: u8 = nm(op, "n"); o.insert("n".into(), json!(n.to_string())); out(o, call(|| VariableType::try_from(n).okf()), |o, t| { o.insert("vt".into(), json!(vt_to(&t))); o.insert("code".into(), json!((t as u8).to_string())); }); }
        "codes.opts" => { let n: u8 = nm(op, "n"); o.insert("n".into(), json!(n as i64)); out(o, call(|| Some(parser::file::ActivityOptions::from_num(n))), |o, x| {
            o.insert("flags".into(), json!({"toolbar": x.toolbar_enabled.to_string(), "fullscreen": x.fullscreen_enabled.to_string(), "drawer": x.drawer_enabled.to_string(), "fab": x.fab_enabled.to_string()}));
            let mut b = Map::new(); out(&mut b, call(|| Some(x.as_num())), |b, n| { b.insert("n".into(), json!(n as i64)); }); o.insert("back".into(), Value::Object(b)); }); }
        "color.make" => {
            let (a, r, g, b): (u8, u8, u8, u8) = (nm(op, "a"), nm(op, "r"), nm(op, "g"), nm(op, "b"));
            for (k, x) in [("a", a), ("r", r), ("g", g), ("b", b)] { o.insert(k.into(), json!(x as i64)); }
            let via = st(op, "via");
            o.insert("via".into(), json!(via));
            let hex = format!("{:02x}{:02x}{:02x}{:02x}", a, r, g, b);
            let c = call(|| Some(match via {
                "argb" => Color::from_argb(a, r, g, b), "rgb" => Color::from_rgb(r, g, b), "u32" => Color::from((a as u32) << 24 | (r as u32) << 16 | (g as u32) << 8 | b as u32),
                "hex8" => Color::parse_hex(&hex).ok()?, "hex6" => Color::parse_hex(&hex[2..]).ok()?,
                "HEX8" => Color::parse_hex(&hex.to_uppercase()).ok()?,
                "json" => serde_json::from_str(&format!("{}", ((a as u32) << 24 | (r as u32) << 16 | (g as u32) << 8 | b as u32) as i32)).ok()?,
                "jsonf" => serde_json::from_str(&format!("{}.0", ((a as u32) << 24 | (r as u32) << 16 | (g as u32) << 8 | b as u32) as i32)).ok()?,
                o => panic!("harness: via {}", o) }));
            out(o, c, |o, c: Color| {
                let (rr, gg, bb) = c.rgb();
                o.insert("got".into(), json!({"a": c.alpha(), "r": c.red(), "g": c.green(), "b": c.blue()}));
                o.insert("rgb".into(), json!([rr, gg, bb]));
                o.insert("disp".into(), json!(format!("{}", c)));
                // written form: a signed 32 bit number; split into its four bytes here
                let mut b = Map::new();
                out(&mut b, call(|| serde_json::to_string(&c).ok().and_then(|t| t.parse::<i64>().ok())), |b, n| {
                    b.insert("i32".into(), json!((n >= i32::MIN as i64 && n <= i32::MAX as i64).to_string()));
                    let u = n as u32;
                    b.insert("bytes".into(), json!([u >> 24, u >> 16 & 255, u >> 8 & 255, u & 255]));
                });
                o.insert("json".into(), Value::Object(b));
            });
        }
        "color.hex" => { o.insert("txt".into(), ob(op, "txt").clone()); out(o, call(|| Color::parse_hex(st(op, "txt")).ok()), |o, c| { o.insert("c".into(), json!(pcolor(&c))); }); }
        x if x.starts_with("make.") => make::run(&mut s.bench, x, op, o, &base),
        // ------------------------------------------------ project sessions
        "sess.new" => { let (p, given) = b_api(ob(op, "project"), &base); o.insert("given".into(), given); o.insert("obs".into(), p_api(&p, &base)); o.insert("out".into(), json!("ok")); s.api = Some(p); }
        "sess.edit" => {
            for (k, v) in op.as_object().unwrap() { o.insert(k.clone(), v.clone()); }
            for k in ["i", "j", "pos"] { if let Some(p) = op.get(k) { o.insert(k.into(), json!(p.as_str().unwrap().parse::<i64>().unwrap())); } }
            let mut p = s.api.clone().expect("harness: api");
            if st(op, "edit") == "res.del" {
                // which one was removed: an id may stand under several types
                let b = base.clone();
                out(o, call(|| p.resources.remove_resource(&ResourceId(so(op, "id"))).map(|(f, t)| json!({"file": p_rf(&f, &b), "t": rt_to(&t)}))), |o, v| { o.insert("gone".into(), v); });
            } else {
                let r = call(|| edit_api(&mut p, op, &base));
                out(o, r, |_, _| {});
            }
            s.api = Some(p);
        }
        "sess.obs" => { o.insert("obs".into(), p_api(s.api.as_ref().unwrap(), &base)); o.insert("out".into(), json!("ok")); }
        "sess.save" => {
            let p = s.api.clone().expect("harness: api");
            out(o, call(|| { let r: Result<RawSketchwareProject, _> = p.try_into(); r.ok() }), |o, r| { o.insert("raw".into(), p_raw(&r, &base)); o.insert("sum".into(), p_sum(&r)); s.raw = Some(r); });
        }
        "sess.setraw" => {
            let [project, file, library, resource, view, logic] = docs_of(ob(op, "docs"));
            let r = RawSketchwareProject { project, file, library, resource, view, logic, resource_files: files_of(ob(op, "files"), &base) };
            o.insert("raw".into(), p_raw(&r, &base)); o.insert("out".into(), json!("ok")); s.raw = Some(r);
        }
        "sess.newraw" => {
            // the same through the constructors
            let [project, file, library, resource, view, logic] = docs_of(ob(op, "docs"));
            let fs = files_of(ob(op, "files"), &base);
            let want = RawSketchwareProject { project: project.clone(), file: file.clone(), library: library.clone(), resource: resource.clone(), view: view.clone(), logic: logic.clone(), resource_files: fs.clone() };
            o.insert("given".into(), p_raw(&want, &base));
            out(o, call(|| Some(match fs { Some(f) => RawSketchwareProject::new(project, file, library, resource, view, logic, f), None => RawSketchwareProject::new_wo_res(project, file, library, resource, view, logic) })),
                |o, r| { o.insert("raw".into(), p_raw(&r, &base)); s.raw = Some(r); });
        }
        "sess.crypt" => {
            let r = s.raw.clone().expect("harness: raw");
            let e: Vec<Vec<u8>> = [&r.project, &r.file, &r.library, &r.resource, &r.view, &r.logic].iter().map(|t| swrs::encrypt_sw(t.as_bytes())).collect();
            let mut e = e;
            let bad = st(op, "bad");
            o.insert("bad".into(), json!(bad));
            let how = op.get("how").and_then(|x| x.as_str()).unwrap_or("cut");
            o.insert("how".into(), json!(how));
            if !bad.is_empty() {
                let k: usize = bad.parse().unwrap();
                match how {
                    "cut" => { let n = e[k].len(); e[k].truncate(n - 1); }
                    "none" => e[k].clear(),
                    // bytes that are no text: alone, and at the end of a text
                    "bytes" => e[k] = swrs::encrypt_sw(&[0xff, 0xfe, 0x41]),
                    "tail" => { let mut b = swrs::decrypt_sw_encrypted(&e[k]).expect("harness: decrypt"); b.push(0xc3); e[k] = swrs::encrypt_sw(&b); }
                    x => panic!("harness: how {}", x),
                }
            }
            let mut i = e.into_iter();
            let mut nx = || i.next().unwrap();
            let (a, b, c, d, v, l) = (nx(), nx(), nx(), nx(), nx(), nx());
            out(o, call(|| match r.resource_files { Some(f) => RawSketchwareProject::from_encrypted(a, b, c, d, v, l, f).okf(), None => RawSketchwareProject::from_encrypted_wo_res(a, b, c, d, v, l).okf() }),
                |o, r| { o.insert("raw".into(), p_raw(&r, &base)); s.raw = Some(r); });
        }
        "sess.load" => {
            let mut r = s.raw.clone().expect("harness: raw");
            let res = st(op, "res");
            o.insert("res".into(), json!(res));
            match res { "keep" => {} "none" => r.resource_files = None, "list" => r.resource_files = Some(ar(op, "files").iter().map(|f| b_rf(f, &base)).collect()), x => panic!("harness: res {}", x) }
            if res == "list" { o.insert("files".into(), json!({"some": "1", "l": arr(r.resource_files.as_ref().unwrap(), |f| p_rf(f, &base))})); }
            let mut stage = ("", "");
            let texts = r.clone();
            let text_of = |w: &str| match w { "file" => &texts.file, "library" => &texts.library, "resource" => &texts.resource, "view" => &texts.view, "logic" => &texts.logic, _ => &texts.project }.clone();
            let via = op.get("via").and_then(|x| x.as_str()).unwrap_or("from");
            let got = call(|| {
                let p = match via {
                    "parts" => match r.resource_files { Some(f) => SketchwareProject::parse(r.project, r.file, r.library, r.resource, r.view, r.logic, f), None => SketchwareProject::parse_wo_res(r.project, r.file, r.library, r.resource, r.view, r.logic) },
                    _ => SketchwareProject::parse_from(r),
                };
                match p {
                    Err(e) => { stage = ("parse", which(&e)); fault::reading(&text_of(stage.1)); fault::note(&e); None }
                    Ok(p) => match api::SketchwareProject::try_from(p) { Ok(a) => Some(a), Err(e) => { stage = ("lift", ""); fault::note(&e); None } },
                }
            });
            out(o, got, |o, p| { o.insert("obs".into(), p_api(&p, &base)); s.api = Some(p); });
            o.insert("stage".into(), json!(stage.0)); o.insert("which".into(), json!(stage.1));
        }
        "sess.parsed" => {
            // parser-level project only
            let r = s.raw.clone().expect("harness: raw");
            let mut w = "";
            let b = base.clone();
            let got = call(|| match SketchwareProject::parse_from(r) { Err(e) => { w = which(&e); None } Ok(p) => Some(p) });
            out(o, got, |o, p| {
                o.insert("parsed".into(), json!({"project": p_project(&p.project), "file": p_file(&p.file), "library": p_library(&p.library), "resource": p_resource(&p.resource), "view": p_pview(&p.view), "logic": p_logic(&p.logic),
                    "rfiles": match &p.resource_files { None => json!([]), Some(r) => json!([p_rfiles(r, &b)]) }}));
                let mut bk = Map::new();
                out(&mut bk, call(|| { let r: Result<RawSketchwareProject, _> = p.clone().try_into(); r.ok() }), |bk, r| { bk.insert("raw".into(), p_raw(&r, &b)); });
                o.insert("back".into(), Value::Object(bk));
            });
            o.insert("which".into(), json!(w));
        }
        x => panic!("harness: unknown op {}", x),
    }
    if name.starts_with("content.") { o.insert("content".into(), match &s.content { None => json!([]), Some(c) => p_content(c) }); }
    if name.starts_with("res.") && s.store.is_some() { o.insert("dump".into(), p_store(s.store.as_ref().unwrap(), &base)); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (inp, outp, scratch) = (a[1].clone(), a[2].clone(), PathBuf::from(&a[3]));
    let skip: usize = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(0);
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if m.starts_with("harness") { eprintln!("{}", m); std::process::exit(3); }
    }));
    let stack: usize = std::env::var("HARNESS_STACK_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(256) << 20;
    std::thread::Builder::new().stack_size(stack).spawn(move || {
        let f = std::io::BufReader::new(std::fs::File::open(inp).expect("scripts"));
        let mut w = BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(outp).expect("traces"));
        for (n, line) in f.lines().enumerate() {
            if n < skip { continue; }
            let line = line.unwrap();
            let script: Value = serde_json::from_str(&line).expect("script json");
            let dir = scratch.join(format!("t{}", n));
            std::fs::create_dir_all(&dir).unwrap();
            let mut s = St { base: dir.clone(), ..Default::default() };
            let mut steps = Vec::new();
            for op in ar(&script, "ops") {
                let mut o = Map::new();
                o.insert("op".into(), ob(op, "op").clone());
                run_op(&mut s, op, &mut o);
                steps.push(Value::Object(o));
            }
            let _ = std::fs::remove_dir_all(&dir);
            let t = json!({"id": ob(&script, "id"), "crash": "", "steps": steps});
            serde_json::to_writer(&mut w, &t).unwrap();
            w.write_all(b"\n").unwrap();
            w.flush().unwrap();
        }
    }).unwrap().join().unwrap();
}
