//! What an error says: one frame per error of the chain, outermost first, with every field a user can read.
//!   {"k": kind, "msg": its message, fields...}
//! "at" are the (1-based) lines of the text being read that are the content an error quotes.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fmt::Display;
use swrs::api::block::{BlockContentParseError as CE, BlockConversionError as BE, InvalidBlockType, UnknownColor};
use swrs::api::component::UnknownComponentType;
use swrs::api::screen::{ScreenConstructionError as SE, UnknownEventType};
use swrs::api::view::{ParseLayoutError, ViewTypeConversionError};
use swrs::api::{APISketchwareProjectConversionError as AE, ResourceAdditionError};
use swrs::parser::file::FileParseError;
use swrs::parser::library::LibraryParseError;
use swrs::parser::logic as l;
use swrs::parser::resource::{ResourceParseError, ResourceSection};
use swrs::parser::view::{LayoutParseError, ViewParseError};
use swrs::parser::{ResourceFilesParseError, SketchwareProjectParseError as PE};
use swrs::CryptoError;

thread_local! {
    static TEXT: RefCell<String> = RefCell::new(String::new());
    static FAULT: RefCell<Option<Vec<Value>>> = RefCell::new(None);
    static BASE: RefCell<String> = RefCell::new(String::new());
}
pub fn reading(t: &str) { TEXT.with(|x| *x.borrow_mut() = t.to_string()); }
pub fn below(p: &std::path::Path) { BASE.with(|x| *x.borrow_mut() = p.to_string_lossy().into_owned()); }
pub fn clear() { FAULT.with(|f| *f.borrow_mut() = None); }
pub fn take() -> Option<Vec<Value>> { FAULT.with(|f| f.borrow_mut().take()) }
pub fn note(e: &impl Fault) { let v = e.frames(); FAULT.with(|f| *f.borrow_mut() = Some(v)); }

fn at(content: &str) -> Value { TEXT.with(|t| Value::Array(t.borrow().split('\n').enumerate().filter(|(_, s)| *s == content).map(|(i, _)| json!(i + 1)).collect())) }
fn path(p: &std::path::Path) -> String { BASE.with(|b| p.strip_prefix(&*b.borrow()).unwrap_or(p).to_string_lossy().into_owned()) }
fn s(x: impl Display) -> String { x.to_string() }

/// the message of the error below, if there is one
fn source(e: &dyn std::error::Error) -> String { e.source().map(|x| format!("={}", x)).unwrap_or("-".into()) }

pub trait Fault { fn frames(&self) -> Vec<Value>; }
pub trait Okf<T> { fn okf(self) -> Option<T>; }
impl<T, E: Fault> Okf<T> for Result<T, E> { fn okf(self) -> Option<T> { match self { Ok(v) => Some(v), Err(e) => { note(&e); None } } } }

/// frame!(self, "kind", field: value, ... ; source)
macro_rules! frame {
    ($e:expr, $k:expr $(, $f:ident : $v:expr)* ; $src:expr) => {{ let mut v = vec![json!({"k": $k, "msg": $e.to_string(), "src": source($e) $(, stringify!($f): $v)*})]; v.extend($src.frames()); v }};
    ($e:expr, $k:expr $(, $f:ident : $v:expr)*) => { vec![json!({"k": $k, "msg": $e.to_string(), "src": source($e) $(, stringify!($f): $v)*})] };
}
// nothing is said about the errors of other crates
impl Fault for serde_json::Error { fn frames(&self) -> Vec<Value> { vec![] } }
impl Fault for () { fn frames(&self) -> Vec<Value> { vec![] } }
impl Fault for std::num::ParseIntError { fn frames(&self) -> Vec<Value> { vec![] } }
impl<E: Fault> Fault for Box<E> { fn frames(&self) -> Vec<Value> { (**self).frames() } }

impl Fault for CryptoError { fn frames(&self) -> Vec<Value> { match self {
    CryptoError::IOError(_) => frame!(self, "x.io"), CryptoError::DecryptionError(_) => frame!(self, "x.dec"), CryptoError::FromUtf8Error(_) => frame!(self, "x.utf8"),
} } }
// ------------------------------------------------ data files
impl Fault for PE { fn frames(&self) -> Vec<Value> { match self {
    PE::ProjectParseError(e) => e.frames(), PE::FileParseError(e) => e.frames(), PE::LibraryParseError(e) => e.frames(), PE::ResourceParseError(e) => e.frames(),
    PE::ViewParseError(e) => e.frames(), PE::LogicParseError(e) => e.frames(), PE::ResourceFilesParseError(e) => e.frames(),
} } }
impl Fault for FileParseError { fn frames(&self) -> Vec<Value> { match self {
    FileParseError::FileItemParseError { line, content, .. } => frame!(self, "file.item", line: s(line), at: at(content)),
} } }
impl Fault for ResourceParseError { fn frames(&self) -> Vec<Value> { match self {
    ResourceParseError::ResourceItemParseError { section, line, .. } => frame!(self, "resource.item", line: s(line),
        section: match section { ResourceSection::Images => "images", ResourceSection::Sounds => "sounds", ResourceSection::Fonts => "fonts", ResourceSection::None => "" }),
} } }
impl Fault for LibraryParseError { fn frames(&self) -> Vec<Value> { match self {
    LibraryParseError::EOFAfterHeader { header } => frame!(self, "library.eof", header: header),
    LibraryParseError::LibraryItemParseError { header, line, .. } => frame!(self, "library.item", header: header, line: s(line)),
    LibraryParseError::MissingItem { header } => frame!(self, "library.missing", header: header),
} } }
impl Fault for ViewParseError { fn frames(&self) -> Vec<Value> { match self {
    ViewParseError::InvalidHeader { line, content } => frame!(self, "view.header", line: s(line), at: at(content)),
    ViewParseError::LayoutParseError { screen_name, container_name, source } => frame!(self, "view.layout", screen: screen_name, cont: container_name; source),
    ViewParseError::FabParseError { screen_name, line, content, .. } => frame!(self, "view.fab", screen: screen_name, line: s(line), at: at(content)),
    ViewParseError::EOFAfterFabHeader { screen_name, line } => frame!(self, "view.eof", screen: screen_name, line: s(line)),
} } }
impl Fault for LayoutParseError { fn frames(&self) -> Vec<Value> {
    frame!(self, "layout", line: s(self.line), at: at(&self.content), before: self.view_before.as_ref().map(|v| format!("={}", v.id)).unwrap_or("-".into()))
} }
impl Fault for l::LogicParseError { fn frames(&self) -> Vec<Value> { use l::LogicParseError as E; match self {
    E::VariablePoolParseError { screen_name, line, source } => frame!(self, "logic.vars", screen: screen_name, line: s(line); source),
    E::ListVariablePoolParseError { screen_name, line, source } => frame!(self, "logic.lists", screen: screen_name, line: s(line); source),
    E::ComponentPoolParseError { screen_name, line, source } => frame!(self, "logic.comps", screen: screen_name, line: s(line); source),
    E::EventPoolParseError { screen_name, line, source } => frame!(self, "logic.events", screen: screen_name, line: s(line); source),
    E::MoreBlockPoolParseError { screen_name, line, source } => frame!(self, "logic.mbs", screen: screen_name, line: s(line); source),
    E::BlockContainerHeaderParseError { line, source } => frame!(self, "logic.header", line: s(line); source),
    E::BlockContainerParseError { screen_name, container_name, line, source } => frame!(self, "logic.blocks", screen: screen_name, cont: container_name, line: s(line); source),
} } }
macro_rules! pool { ($t:ty) => { impl Fault for $t { fn frames(&self) -> Vec<Value> { frame!(self, "pool", count: s(self.count), at: at(&self.content); self.source) } } } }
pool!(l::variable::VariablePoolParseError);
pool!(l::list_variable::ListVariablePoolParseError);
pool!(l::component::ComponentPoolParseError);
pool!(l::more_block::MoreBlockPoolParseError);
pool!(l::event::EventPoolParseError);
impl Fault for l::BlockContainerParseError { fn frames(&self) -> Vec<Value> { frame!(self, "blocks", count: s(self.block_count)) } }
impl Fault for l::variable::InvalidVariableTypeError { fn frames(&self) -> Vec<Value> { frame!(self, "vt", value: s(self.value)) } }
impl Fault for l::variable::VariableParseError { fn frames(&self) -> Vec<Value> { use l::variable::VariableParseError as E; match self {
    E::MalformedVariable { content } => frame!(self, "var.colon", content: content), E::MalformedVariableType { content, .. } => frame!(self, "var.int", content: content),
    E::InvalidVariableType(e) => frame!(self, "var.type"; e),
} } }
impl Fault for l::list_variable::ListVariableParseError { fn frames(&self) -> Vec<Value> { use l::list_variable::ListVariableParseError as E; match self {
    E::MissingColon => frame!(self, "list.colon"), E::VariableTypeIsNotInt(_) => frame!(self, "list.int"), E::InvalidVariableType(e) => frame!(self, "list.type"; e),
} } }
impl Fault for l::more_block::MoreBlockParseError { fn frames(&self) -> Vec<Value> { match self { l::more_block::MoreBlockParseError::MalformedMoreBlock { content } => frame!(self, "mb.colon", content: content) } } }
impl Fault for l::BlockContainerHeaderParseError { fn frames(&self) -> Vec<Value> { use l::BlockContainerHeaderParseError as E; match self {
    E::DoesntStartWithAtSign => frame!(self, "head.at"), E::NoScreenName => frame!(self, "head.screen"), E::NoContainerName => frame!(self, "head.cont"),
} } }
// ------------------------------------------------ code, layouts, tables
impl Fault for CE { fn frames(&self) -> Vec<Value> { match self {
    CE::BlockNotFound { block_id } => frame!(self, "c.notfound", id: s(block_id)), CE::InvalidBlockId { value } => frame!(self, "c.badid", value: value),
    CE::UnknownSpecParam { name, full } => frame!(self, "c.unknown", name: name, full: full), CE::RanOutOfArgs => frame!(self, "c.ranout"),
    CE::InvalidNumberArgument { value } => frame!(self, "c.number", value: value), CE::InvalidBooleanArgument { value } => frame!(self, "c.bool", value: value),
} } }
impl Fault for BE { fn frames(&self) -> Vec<Value> { match self {
    BE::MalformedBlockId { id, .. } => frame!(self, "b.badid", id: id), BE::BlockNotFound { id } => frame!(self, "b.notfound", id: s(id)),
    BE::Substack1ParseError { id, sub_stack1_pointer, source } => frame!(self, "b.ss1", id: s(id), ptr: s(sub_stack1_pointer); source),
    BE::Substack2ParseError { id, sub_stack2_pointer, source } => frame!(self, "b.ss2", id: s(id), ptr: s(sub_stack2_pointer); source),
    BE::InvalidType { source } => frame!(self, "b.type"; source), BE::BlockContentParseError { source } => frame!(self, "b.content"; source),
} } }
impl Fault for InvalidBlockType { fn frames(&self) -> Vec<Value> { frame!(self, "btype", type: &self.block_type, tn: &self.type_name) } }
impl Fault for UnknownColor { fn frames(&self) -> Vec<Value> { frame!(self, "cat", color: crate::model::pcolor(&self.color)) } }
impl Fault for UnknownComponentType { fn frames(&self) -> Vec<Value> { frame!(self, "comp", type: s(self.component_type), id: &self.component_id) } }
impl Fault for UnknownEventType { fn frames(&self) -> Vec<Value> { frame!(self, "event", type: s(self.event_type), name: &self.event_name) } }
impl Fault for ViewTypeConversionError { fn frames(&self) -> Vec<Value> { match self {
    ViewTypeConversionError::UnknownViewType { view_type, view_id } => frame!(self, "kind.type", type: s(view_type), id: view_id),
    ViewTypeConversionError::ResNameNotPresent { view_id } => frame!(self, "kind.res", id: view_id),
} } }
impl Fault for ParseLayoutError { fn frames(&self) -> Vec<Value> { match self {
    ParseLayoutError::NoParentField { view_id } => frame!(self, "tree.noparent", id: view_id),
    ParseLayoutError::NonexistentParent { view_id, parent_id } => frame!(self, "tree.parent", id: view_id, parent: parent_id),
} } }
// ------------------------------------------------ projects and resources
impl Fault for SE { fn frames(&self) -> Vec<Value> { match self {
    SE::MoreBlockSpecParseError { moreblock_id, source } => frame!(self, "s.mb", id: moreblock_id; source),
    SE::BlocksParseError { container_name, source } => frame!(self, "s.blocks", cont: container_name; source),
    SE::UnknownEventType(e) => frame!(self, "s.event"; e), SE::UnknownComponentType(e) => frame!(self, "s.comp"; e), SE::LayoutParseError(e) => frame!(self, "s.layout"; e),
} } }
impl Fault for AE { fn frames(&self) -> Vec<Value> { match self {
    AE::ScreenConstructionError { java_screen_name, layout_screen_name, source } => frame!(self, "p.screen", java: java_screen_name, layout: layout_screen_name; source),
    AE::MissingCustomViewLayout { custom_view_id } => frame!(self, "p.cvmissing", id: custom_view_id),
    AE::CustomViewParseLayoutError { custom_view_id, source } => frame!(self, "p.cvlayout", id: custom_view_id; source),
    AE::InvalidUseYNValue { library_name, value } => frame!(self, "p.yn", lib: library_name, value: value),
    AE::MissingResourceFile { res_name, res_full_name, res_type } => frame!(self, "p.res", name: res_name, full: res_full_name, t: format!("{:?}", res_type)),
} } }
impl Fault for ResourceAdditionError { fn frames(&self) -> Vec<Value> { match self {
    ResourceAdditionError::IdTaken { id } => frame!(self, "r.taken", id: &id.0), ResourceAdditionError::FileDoesntExist { path: p } => frame!(self, "r.missing", p: path(p)),
} } }
impl Fault for ResourceFilesParseError { fn frames(&self) -> Vec<Value> { match self {
    ResourceFilesParseError::FileDoesntExist { path: p } => frame!(self, "r.missing", p: path(p)), ResourceFilesParseError::InvalidPath { path: p } => frame!(self, "r.place", p: path(p)),
} } }
