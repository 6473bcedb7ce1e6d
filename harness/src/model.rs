//! Builders (JSON -> real objects) and projections (real objects -> JSON) for every public model.
//! Every scalar is a string in the JSON. Field by field, no serde derive and no conversion of the
//! crate under test is used here.
use serde_json::{json, Map, Value};
use std::path::PathBuf;
use swrs::api;
use swrs::api::block::*;
use swrs::api::component::ComponentKind;
use swrs::api::screen::{Event, EventType, MoreBlock, Screen};
use swrs::api::view::{SidesValue, View, ViewType};
use swrs::color::Color;
use swrs::parser;
use swrs::parser::file::{ActivityOptions, FileItem, FileType, KeyboardSetting, Theme};
use swrs::parser::file::Orientation as FOrientation;
use swrs::parser::library::{AdUnit, Library, LibraryItem};
use swrs::parser::logic::component::{Component, ComponentPool};
use swrs::parser::logic::event::{Event as PEvent, EventPool};
use swrs::parser::logic::list_variable::{ListVariable, ListVariablePool};
use swrs::parser::logic::more_block::{MoreBlock as PMoreBlock, MoreBlockPool};
use swrs::parser::logic::variable::{Variable, VariablePool, VariableType};
use swrs::parser::logic::{Block as PBlock, BlockContainer, BlockContainerHeader, Logic, ScreenLogic};
use swrs::parser::project::{Project, ProjectColorPalette};
use swrs::parser::resource::{Resource, ResourceItem};
use swrs::parser::view::models::image::ImageScaleType;
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::layout::{Orientation, Size};
use swrs::parser::view::models::text::{ImeOption, InputType, TextType};
use swrs::parser::view::models::{AndroidView, ChoiceMode, ImageConfig, LayoutConfig, SpinnerMode, TextConfig};
use swrs::parser::view::{Layout, View as PView};
use swrs::parser::{ResourceFileWrapper, ResourceFiles, ResourceType};
use swrs::LinkedHashMap;

// ---------------------------------------------------------------- helpers

pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or_else(|| panic!("harness: no string `{}` in {}", k, v))
}
pub fn so(v: &Value, k: &str) -> String { st(v, k).to_string() }
pub fn ar<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v.get(k).and_then(|x| x.as_array()).unwrap_or_else(|| panic!("harness: no array `{}` in {}", k, v))
}
pub fn ob<'a>(v: &'a Value, k: &str) -> &'a Value { v.get(k).unwrap_or_else(|| panic!("harness: no `{}` in {}", k, v)) }
pub fn nm<T: std::str::FromStr>(v: &Value, k: &str) -> T {
    st(v, k).parse::<T>().unwrap_or_else(|_| panic!("harness: bad number `{}` in {}", k, v))
}
pub fn bo(v: &Value, k: &str) -> bool {
    match st(v, k) { "true" => true, "false" => false, _ => panic!("harness: bad bool {} in {}", k, v) }
}
pub fn opt(v: &Value, k: &str) -> Option<String> {
    let s = st(v, k);
    if s == "-" { None } else { Some(s.strip_prefix('=').unwrap_or_else(|| panic!("harness: bad opt {}", s)).to_string()) }
}
pub fn popt(o: &Option<String>) -> Value { match o { None => json!("-"), Some(s) => json!(format!("={}", s)) } }
pub fn color(s: &str) -> Color {
    let i: i32 = s.parse().expect("harness: colour");
    let u = i as u32;
    Color::from_argb((u >> 24) as u8, (u >> 16) as u8, (u >> 8) as u8, u as u8)
}
pub fn pcolor(c: &Color) -> String {
    let u = (c.alpha() as u32) << 24 | (c.red() as u32) << 16 | (c.green() as u32) << 8 | (c.blue() as u32);
    format!("{}", u as i32)
}
pub fn arr<T, F: Fn(&T) -> Value>(v: &[T], f: F) -> Value { Value::Array(v.iter().map(f).collect()) }

macro_rules! names {
    ($from:ident, $to:ident, $t:ty, $($name:literal => $var:path),+ $(,)?) => {
        pub fn $from(s: &str) -> $t { match s { $($name => $var,)+ _ => panic!("harness: bad {} {}", stringify!($t), s) } }
        pub fn $to(v: &$t) -> &'static str { match v { $($var => $name,)+ } }
    }
}
names!(choice_of, choice_to, ChoiceMode, "None" => ChoiceMode::None, "Single" => ChoiceMode::Single, "Multi" => ChoiceMode::Multi);
names!(spin_of, spin_to, SpinnerMode, "Dialog" => SpinnerMode::Dialog, "Dropdown" => SpinnerMode::Dropdown);
names!(scale_of, scale_to, ImageScaleType, "Center" => ImageScaleType::Center, "FitXy" => ImageScaleType::FitXy,
    "FitStart" => ImageScaleType::FitStart, "FitCenter" => ImageScaleType::FitCenter, "FitEnd" => ImageScaleType::FitEnd,
    "CenterCrop" => ImageScaleType::CenterCrop, "CenterInside" => ImageScaleType::CenterInside);
names!(lori_of, lori_to, Orientation, "Vertical" => Orientation::Vertical, "Unspecified" => Orientation::Unspecified, "Horizontal" => Orientation::Horizontal);
names!(ime_of, ime_to, ImeOption, "Normal" => ImeOption::Normal, "None" => ImeOption::None, "Go" => ImeOption::Go,
    "Search" => ImeOption::Search, "Send" => ImeOption::Send, "Next" => ImeOption::Next, "Done" => ImeOption::Done);
names!(input_of, input_to, InputType, "NumberDecimal" => InputType::NumberDecimal, "NumberSigned" => InputType::NumberSigned,
    "NumberSignedDecimal" => InputType::NumberSignedDecimal, "Password" => InputType::Password, "Phone" => InputType::Phone, "Text" => InputType::Text);
names!(tstyle_of, tstyle_to, TextType, "Normal" => TextType::Normal, "Bold" => TextType::Bold, "Italic" => TextType::Italic, "BoldItalic" => TextType::BoldItalic);
names!(ftype_of, ftype_to, FileType, "Activity" => FileType::Activity, "CustomView" => FileType::CustomView, "Drawer" => FileType::Drawer);
names!(kbd_of, kbd_to, KeyboardSetting, "Unspecified" => KeyboardSetting::Unspecified, "Visible" => KeyboardSetting::Visible, "Hidden" => KeyboardSetting::Hidden);
names!(fori_of, fori_to, FOrientation, "Portrait" => FOrientation::Portrait, "Landscape" => FOrientation::Landscape, "Both" => FOrientation::Both);
names!(theme_of, theme_to, Theme, "None" => Theme::None, "Default" => Theme::Default, "Actionbar" => Theme::Actionbar, "Fullscreen" => Theme::Fullscreen);
names!(vt_of, vt_to, VariableType, "Boolean" => VariableType::Boolean, "Integer" => VariableType::Integer, "String" => VariableType::String, "HashMap" => VariableType::HashMap);
names!(rt_of, rt_to, ResourceType, "Image" => ResourceType::Image, "Sound" => ResourceType::Sound, "Font" => ResourceType::Font, "CustomIcon" => ResourceType::CustomIcon);
names!(cat_of, cat_to, BlockCategory, "Variable" => BlockCategory::Variable, "List" => BlockCategory::List, "Control" => BlockCategory::Control,
    "Operator" => BlockCategory::Operator, "Math" => BlockCategory::Math, "File" => BlockCategory::File, "ViewFunc" => BlockCategory::ViewFunc,
    "ComponentFunc" => BlockCategory::ComponentFunc, "MoreBlock" => BlockCategory::MoreBlock);

pub fn size_of(s: &str) -> Size {
    match s { "match" => Size::MatchParent, "wrap" => Size::WrapContent, n => Size::Fixed(n.parse().expect("harness: size")) }
}
pub fn size_to(s: &Size) -> String {
    match s { Size::MatchParent => "match".into(), Size::WrapContent => "wrap".into(), Size::Fixed(n) => format!("{}", n) }
}

// ---------------------------------------------------------------- raw views

pub fn b_av(v: &Value) -> AndroidView {
    AndroidView {
        ad_size: so(v, "adSize"), ad_unit_id: so(v, "adUnitId"), alpha: nm(v, "alpha"), checked: bo(v, "checked"),
        choice_mode: choice_of(st(v, "choiceMode")), clickable: bo(v, "clickable"), custom_view: so(v, "customView"),
        divider_height: nm(v, "dividerHeight"), enabled: bo(v, "enabled"), first_day_of_week: nm(v, "firstDayOfWeek"),
        id: so(v, "id"),
        image: ImageConfig { res_name: opt(v, "image.resName"), rotate: nm(v, "image.rotate"), scale_type: scale_of(st(v, "image.scaleType")) },
        indeterminate: bo(v, "indeterminate"), index: nm(v, "index"),
        layout: LayoutConfig {
            background_color: color(st(v, "layout.backgroundColor")), gravity: Gravity(nm(v, "layout.gravity")),
            height: size_of(st(v, "layout.height")), layout_gravity: Gravity(nm(v, "layout.layoutGravity")),
            margin_bottom: nm(v, "layout.marginBottom"), margin_left: nm(v, "layout.marginLeft"),
            margin_right: nm(v, "layout.marginRight"), margin_top: nm(v, "layout.marginTop"),
            orientation: lori_of(st(v, "layout.orientation")),
            padding_bottom: nm(v, "layout.paddingBottom"), padding_left: nm(v, "layout.paddingLeft"),
            padding_right: nm(v, "layout.paddingRight"), padding_top: nm(v, "layout.paddingTop"),
            weight: nm(v, "layout.weight"), weight_sum: nm(v, "layout.weightSum"), width: size_of(st(v, "layout.width")),
        },
        max: nm(v, "max"), parent: opt(v, "parent"), parent_type: nm(v, "parentType"), pre_id: opt(v, "preId"),
        pre_index: nm(v, "preIndex"), pre_parent: opt(v, "preParent"), pre_parent_type: nm(v, "preParentType"),
        progress: nm(v, "progress"), progress_style: so(v, "progressStyle"), scale_x: nm(v, "scaleX"), scale_y: nm(v, "scaleY"),
        spinner_mode: spin_of(st(v, "spinnerMode")),
        text: TextConfig {
            hint: so(v, "text.hint"), hint_color: color(st(v, "text.hintColor")), ime_option: ime_of(st(v, "text.imeOption")),
            input_type: input_of(st(v, "text.inputType")), line: nm(v, "text.line"), single_line: bo(v, "text.singleLine"),
            text: so(v, "text.text"), text_color: color(st(v, "text.textColor")), text_font: so(v, "text.textFont"),
            text_size: nm(v, "text.textSize"), text_type: tstyle_of(st(v, "text.textType")),
        },
        translation_x: nm(v, "translationX"), translation_y: nm(v, "translationY"), r#type: nm(v, "type"),
    }
}

pub fn p_av(v: &AndroidView) -> Value {
    let s = |x: String| Value::String(x);
    let mut m = Map::new();
    let mut put = |k: &str, x: Value| { m.insert(k.to_string(), x); };
    put("adSize", s(v.ad_size.clone())); put("adUnitId", s(v.ad_unit_id.clone())); put("alpha", s(format!("{}", v.alpha)));
    put("checked", s(format!("{}", v.checked))); put("choiceMode", json!(choice_to(&v.choice_mode)));
    put("clickable", s(format!("{}", v.clickable))); put("customView", s(v.custom_view.clone()));
    put("dividerHeight", s(format!("{}", v.divider_height))); put("enabled", s(format!("{}", v.enabled)));
    put("firstDayOfWeek", s(format!("{}", v.first_day_of_week))); put("id", s(v.id.clone()));
    put("image.resName", popt(&v.image.res_name)); put("image.rotate", s(format!("{}", v.image.rotate)));
    put("image.scaleType", json!(scale_to(&v.image.scale_type)));
    put("indeterminate", s(format!("{}", v.indeterminate))); put("index", s(format!("{}", v.index)));
    put("layout.backgroundColor", s(pcolor(&v.layout.background_color))); put("layout.gravity", s(format!("{}", v.layout.gravity.0)));
    put("layout.height", s(size_to(&v.layout.height))); put("layout.layoutGravity", s(format!("{}", v.layout.layout_gravity.0)));
    put("layout.marginBottom", s(format!("{}", v.layout.margin_bottom))); put("layout.marginLeft", s(format!("{}", v.layout.margin_left)));
    put("layout.marginRight", s(format!("{}", v.layout.margin_right))); put("layout.marginTop", s(format!("{}", v.layout.margin_top)));
    put("layout.orientation", json!(lori_to(&v.layout.orientation)));
    put("layout.paddingBottom", s(format!("{}", v.layout.padding_bottom))); put("layout.paddingLeft", s(format!("{}", v.layout.padding_left)));
    put("layout.paddingRight", s(format!("{}", v.layout.padding_right))); put("layout.paddingTop", s(format!("{}", v.layout.padding_top)));
    put("layout.weight", s(format!("{}", v.layout.weight))); put("layout.weightSum", s(format!("{}", v.layout.weight_sum)));
    put("layout.width", s(size_to(&v.layout.width)));
    put("max", s(format!("{}", v.max))); put("parent", popt(&v.parent)); put("parentType", s(format!("{}", v.parent_type)));
    put("preId", popt(&v.pre_id)); put("preIndex", s(format!("{}", v.pre_index))); put("preParent", popt(&v.pre_parent));
    put("preParentType", s(format!("{}", v.pre_parent_type))); put("progress", s(format!("{}", v.progress)));
    put("progressStyle", s(v.progress_style.clone())); put("scaleX", s(format!("{}", v.scale_x))); put("scaleY", s(format!("{}", v.scale_y)));
    put("spinnerMode", json!(spin_to(&v.spinner_mode)));
    put("text.hint", s(v.text.hint.clone())); put("text.hintColor", s(pcolor(&v.text.hint_color)));
    put("text.imeOption", json!(ime_to(&v.text.ime_option))); put("text.inputType", json!(input_to(&v.text.input_type)));
    put("text.line", s(format!("{}", v.text.line))); put("text.singleLine", s(format!("{}", v.text.single_line)));
    put("text.text", s(v.text.text.clone())); put("text.textColor", s(pcolor(&v.text.text_color)));
    put("text.textFont", s(v.text.text_font.clone())); put("text.textSize", s(format!("{}", v.text.text_size)));
    put("text.textType", json!(tstyle_to(&v.text.text_type)));
    put("translationX", s(format!("{}", v.translation_x))); put("translationY", s(format!("{}", v.translation_y)));
    put("type", s(format!("{}", v.r#type)));
    Value::Object(m)
}

// ---------------------------------------------------------------- API views
// {"id","bg","h","w","pt","pr","pb","pl","mt","mr","mb","ml","weight","weightSum","lgrav",
//  "kind":{"k":name,"f":{...}} , "kids":[..], "raw":{...}}
// kind name "Err" when the kind is not known (the error value itself is not compared)

pub fn b_kind(v: &Value) -> Option<ViewType> {
    let f = ob(v, "f");
    Some(match st(v, "k") {
        "LinearLayout" => ViewType::LinearLayout { orientation: lori_of(st(f, "orientation")), gravity: Gravity(nm(f, "gravity")) },
        "ScrollView" => ViewType::ScrollView { orientation: lori_of(st(f, "orientation")), gravity: Gravity(nm(f, "gravity")) },
        "Button" => ViewType::Button { text: so(f, "text"), text_color: color(st(f, "textColor")), text_size: nm(f, "textSize"), text_style: tstyle_of(st(f, "textStyle")) },
        "TextView" => ViewType::TextView { text: so(f, "text"), text_color: color(st(f, "textColor")), text_size: nm(f, "textSize"),
            single_line: bo(f, "singleLine"), text_font: so(f, "textFont"), text_style: tstyle_of(st(f, "textStyle")), lines: nm(f, "lines") },
        "EditText" => ViewType::EditText { text: so(f, "text"), text_color: color(st(f, "textColor")), text_size: nm(f, "textSize"),
            single_line: bo(f, "singleLine"), text_font: so(f, "textFont"), text_style: tstyle_of(st(f, "textStyle")), lines: nm(f, "lines"),
            hint: so(f, "hint"), hint_color: color(st(f, "hintColor")), ime_option: ime_of(st(f, "imeOption")), input_type: input_of(st(f, "inputType")) },
        "ImageView" => ViewType::ImageView { image_res_name: so(f, "resName"), image_scale_type: scale_of(st(f, "scaleType")) },
        "WebView" => ViewType::WebView,
        "ProgressBar" => ViewType::ProgressBar { max_progress: nm(f, "max"), progress: nm(f, "progress"), indeterminate: bo(f, "indeterminate"), progress_style: so(f, "progressStyle") },
        "ListView" => ViewType::ListView { divider_height: nm(f, "dividerHeight"), custom_view: so(f, "customView") },
        "Spinner" => ViewType::Spinner { spinner_mode: spin_of(st(f, "spinnerMode")) },
        "CheckBox" => ViewType::CheckBox { checked: bo(f, "checked"), text: so(f, "text"), text_color: color(st(f, "textColor")), text_size: nm(f, "textSize"),
            text_font: so(f, "textFont"), text_style: tstyle_of(st(f, "textStyle")) },
        "Switch" => ViewType::Switch { checked: bo(f, "checked"), text: so(f, "text"), text_color: color(st(f, "textColor")), text_size: nm(f, "textSize"),
            text_font: so(f, "textFont"), text_style: tstyle_of(st(f, "textStyle")) },
        "SeekBar" => ViewType::SeekBar { max_progress: nm(f, "max"), progress: nm(f, "progress") },
        "CalendarView" => ViewType::CalendarView { first_day_of_week: nm(f, "firstDayOfWeek") },
        "Fab" => ViewType::Fab { image_res_name: so(f, "resName") },
        "AdView" => ViewType::AdView { adview_size: so(f, "adSize") },
        "MapView" => ViewType::MapView,
        "Err" => return None,
        o => panic!("harness: view kind {}", o),
    })
}

pub fn p_kind(k: &ViewType) -> Value {
    let n = |x: &dyn std::fmt::Display| Value::String(format!("{}", x));
    let (name, f) = match k {
        ViewType::LinearLayout { orientation, gravity } => ("LinearLayout", json!({"orientation": lori_to(orientation), "gravity": n(&gravity.0)})),
        ViewType::ScrollView { orientation, gravity } => ("ScrollView", json!({"orientation": lori_to(orientation), "gravity": n(&gravity.0)})),
        ViewType::Button { text, text_color, text_size, text_style } => ("Button", json!({"text": text, "textColor": pcolor(text_color), "textSize": n(text_size), "textStyle": tstyle_to(text_style)})),
        ViewType::TextView { text, text_color, text_size, single_line, text_font, text_style, lines } => ("TextView",
            json!({"text": text, "textColor": pcolor(text_color), "textSize": n(text_size), "singleLine": n(single_line), "textFont": text_font, "textStyle": tstyle_to(text_style), "lines": n(lines)})),
        ViewType::EditText { text, text_color, text_size, single_line, text_font, text_style, lines, hint, hint_color, ime_option, input_type } => ("EditText",
            json!({"text": text, "textColor": pcolor(text_color), "textSize": n(text_size), "singleLine": n(single_line), "textFont": text_font, "textStyle": tstyle_to(text_style), "lines": n(lines),
                   "hint": hint, "hintColor": pcolor(hint_color), "imeOption": ime_to(ime_option), "inputType": input_to(input_type)})),
        ViewType::ImageView { image_res_name, image_scale_type } => ("ImageView", json!({"resName": image_res_name, "scaleType": scale_to(image_scale_type)})),
        ViewType::WebView => ("WebView", json!({"_": ""})),
        ViewType::ProgressBar { max_progress, progress, indeterminate, progress_style } => ("ProgressBar",
            json!({"max": n(max_progress), "progress": n(progress), "indeterminate": n(indeterminate), "progressStyle": progress_style})),
        ViewType::ListView { divider_height, custom_view } => ("ListView", json!({"dividerHeight": n(divider_height), "customView": custom_view})),
        ViewType::Spinner { spinner_mode } => ("Spinner", json!({"spinnerMode": spin_to(spinner_mode)})),
        ViewType::CheckBox { checked, text, text_color, text_size, text_font, text_style } => ("CheckBox",
            json!({"checked": n(checked), "text": text, "textColor": pcolor(text_color), "textSize": n(text_size), "textFont": text_font, "textStyle": tstyle_to(text_style)})),
        ViewType::Switch { checked, text, text_color, text_size, text_font, text_style } => ("Switch",
            json!({"checked": n(checked), "text": text, "textColor": pcolor(text_color), "textSize": n(text_size), "textFont": text_font, "textStyle": tstyle_to(text_style)})),
        ViewType::SeekBar { max_progress, progress } => ("SeekBar", json!({"max": n(max_progress), "progress": n(progress)})),
        ViewType::CalendarView { first_day_of_week } => ("CalendarView", json!({"firstDayOfWeek": n(first_day_of_week)})),
        ViewType::Fab { image_res_name } => ("Fab", json!({"resName": image_res_name})),
        ViewType::AdView { adview_size } => ("AdView", json!({"adSize": adview_size})),
        ViewType::MapView => ("MapView", json!({"_": ""})),
    };
    json!({"k": name, "f": f})
}

pub fn b_view(v: &Value) -> View {
    let raw = b_av(ob(v, "raw"));
    let kind = ob(v, "kind");
    View {
        id: so(v, "id"), background_color: color(st(v, "bg")), height: size_of(st(v, "h")), width: size_of(st(v, "w")),
        padding: SidesValue { top: nm(v, "pt"), right: nm(v, "pr"), bottom: nm(v, "pb"), left: nm(v, "pl") },
        margin: SidesValue { top: nm(v, "mt"), right: nm(v, "mr"), bottom: nm(v, "mb"), left: nm(v, "ml") },
        weight: nm(v, "weight"), weight_sum: nm(v, "weightSum"), layout_gravity: Gravity(nm(v, "lgrav")),
        view: b_kind(kind).ok_or_else(|| swrs::api::view::ViewTypeConversionError::UnknownViewType { view_type: raw.r#type, view_id: raw.id.clone() }),
        children: ar(v, "kids").iter().map(b_view).collect(),
        raw,
    }
}

pub fn p_view(v: &View) -> Value {
    json!({
        "id": v.id, "bg": pcolor(&v.background_color), "h": size_to(&v.height), "w": size_to(&v.width),
        "pt": v.padding.top.to_string(), "pr": v.padding.right.to_string(), "pb": v.padding.bottom.to_string(), "pl": v.padding.left.to_string(),
        "mt": v.margin.top.to_string(), "mr": v.margin.right.to_string(), "mb": v.margin.bottom.to_string(), "ml": v.margin.left.to_string(),
        "weight": v.weight.to_string(), "weightSum": v.weight_sum.to_string(), "lgrav": v.layout_gravity.0.to_string(),
        "kind": match &v.view { Ok(k) => p_kind(k), Err(_) => json!({"k": "Err", "f": {"_": ""}}) },
        "kids": arr(&v.children, p_view),
        "raw": p_av(&v.raw),
    })
}

// ---------------------------------------------------------------- flat blocks

pub fn int_or(s: &str) -> (i64, bool) {
    // the upper half is carried as the negative numbers (the integers of the model have 32 bits)
    match s.parse::<u32>() { Ok(u) => (u as i32 as i64, true), _ => (-1, false) }
}

pub fn p_param(p: &str) -> Value {
    let n = p.parse::<f64>().map(|f| format!("{}", f)).unwrap_or_else(|_| "-".into());
    let (r, rk) = match p.strip_prefix('@') {
        None => (-1, "no"),
        Some(x) => { let (i, ok) = int_or(x); (i, if ok { "ref" } else { "bad" }) }
    };
    json!({"s": p, "n": n, "num": if p.parse::<f64>().is_ok() { "1" } else { "0" }, "r": r, "rk": rk})
}

pub fn b_flat(v: &Value) -> PBlock {
    PBlock {
        color: color(st(v, "color")), id: so(v, "id"), next_block: ob(v, "next").as_i64().expect("next") as i32, op_code: so(v, "op"),
        parameters: ar(v, "params").iter().map(|p| so(p, "s")).collect(), spec: so(v, "spec"),
        sub_stack1: ob(v, "ss1").as_i64().expect("ss1") as i32, sub_stack2: ob(v, "ss2").as_i64().expect("ss2") as i32,
        r#type: so(v, "type"), type_name: so(v, "tn"),
    }
}

pub fn p_flat(b: &PBlock) -> Value {
    let (idn, idok) = int_or(&b.id);
    json!({
        "color": pcolor(&b.color), "id": b.id, "idn": idn, "idok": if idok { "1" } else { "0" }, "next": b.next_block, "op": b.op_code,
        "params": arr(&b.parameters, |p| p_param(p)), "spec": b.spec, "words": crate::lex::words(&b.spec),
        "ss1": b.sub_stack1, "ss2": b.sub_stack2, "type": b.r#type, "tn": b.type_name,
    })
}
pub fn b_cont(v: &Value) -> BlockContainer { BlockContainer(v.as_array().expect("flat").iter().map(b_flat).collect()) }
pub fn p_cont(c: &BlockContainer) -> Value { arr(&c.0, p_flat) }

// ---------------------------------------------------------------- API blocks
// item: {"k":"text|s|d|b|m", "nm":"", "vk":"text|val|blk|ph|empty", "v":"", "w":[words], "b":[block]}

pub fn b_item(v: &Value) -> SpecItem {
    let name = st(v, "nm");
    let on = if name.is_empty() { None } else { Some(name.to_string()) };
    fn av<T: std::fmt::Debug + Clone + PartialEq>(v: &Value, f: impl Fn(&str) -> T) -> ArgValue<T> {
        match st(v, "vk") {
            "val" => ArgValue::Value(f(st(v, "v"))),
            "blk" => ArgValue::Block(b_block(&ar(v, "b")[0])),
            "ph" => ArgValue::BlockPlaceholder { block_id: nm(v, "v") },
            "empty" => ArgValue::Empty,
            o => panic!("harness: vk {}", o),
        }
    }
    match st(v, "k") {
        "text" => SpecItem::Text(so(v, "v")),
        "s" => SpecItem::Parameter(Argument::String { name: on, value: av(v, |s| s.to_string()) }),
        "d" => SpecItem::Parameter(Argument::Number { name: on, value: av(v, |s| s.parse::<f64>().expect("num")) }),
        "b" => SpecItem::Parameter(Argument::Boolean { name: on, value: av(v, |s| s == "true") }),
        "m" => SpecItem::Parameter(Argument::Menu { name: name.to_string(), value: av(v, |s| s.to_string()) }),
        o => panic!("harness: item {}", o),
    }
}

pub fn p_item(i: &SpecItem) -> Value {
    fn av<T: std::fmt::Debug + Clone + PartialEq>(k: &str, nm: &str, v: &ArgValue<T>, f: impl Fn(&T) -> String) -> Value {
        match v {
            ArgValue::Value(x) => json!({"k": k, "nm": nm, "vk": "val", "v": f(x), "w": [], "b": []}),
            ArgValue::Block(b) => json!({"k": k, "nm": nm, "vk": "blk", "v": "", "w": [], "b": [p_block(b)]}),
            ArgValue::BlockPlaceholder { block_id } => json!({"k": k, "nm": nm, "vk": "ph", "v": block_id.to_string(), "w": [], "b": []}),
            ArgValue::Empty => json!({"k": k, "nm": nm, "vk": "empty", "v": "", "w": [], "b": []}),
        }
    }
    match i {
        SpecItem::Text(t) => json!({"k": "text", "nm": "", "vk": "text", "v": t, "w": crate::lex::words(t), "b": []}),
        SpecItem::Parameter(Argument::String { name, value }) => av("s", name.as_deref().unwrap_or(""), value, |s| s.clone()),
        SpecItem::Parameter(Argument::Number { name, value }) => av("d", name.as_deref().unwrap_or(""), value, |f| format!("{}", f)),
        SpecItem::Parameter(Argument::Boolean { name, value }) => av("b", name.as_deref().unwrap_or(""), value, |b| format!("{}", b)),
        SpecItem::Parameter(Argument::Menu { name, value }) => av("m", name, value, |s| s.clone()),
    }
}
pub fn p_arg(a: &Argument) -> Value { p_item(&SpecItem::Parameter(a.clone())) }
pub fn b_content(v: &Value) -> BlockContent { BlockContent { items: v.as_array().expect("items").iter().map(b_item).collect() } }
pub fn p_content(c: &BlockContent) -> Value { arr(&c.items, p_item) }

pub fn b_btype(kind: &str, tn: &str) -> BlockType {
    use ArgumentBlockReturnType as R;
    match kind {
        "Regular" => BlockType::Regular,
        "Boolean" => BlockType::Argument(R::Boolean), "String" => BlockType::Argument(R::String), "Number" => BlockType::Argument(R::Number),
        "View" => BlockType::Argument(R::View { type_name: tn.to_string() }), "Component" => BlockType::Argument(R::Component { type_name: tn.to_string() }),
        "ListString" => BlockType::Argument(R::List { inner_type: ListItem::String }), "ListNumber" => BlockType::Argument(R::List { inner_type: ListItem::Number }),
        "OneNest" => BlockType::Control(BlockControl::OneNest), "TwoNest" => BlockType::Control(BlockControl::TwoNest), "Ending" => BlockType::Control(BlockControl::EndingBlock),
        o => panic!("harness: btype {}", o),
    }
}
pub fn p_btype(t: &BlockType) -> (&'static str, String) {
    use ArgumentBlockReturnType as R;
    match t {
        BlockType::Regular => ("Regular", "".into()),
        BlockType::Argument(R::Boolean) => ("Boolean", "".into()), BlockType::Argument(R::String) => ("String", "".into()), BlockType::Argument(R::Number) => ("Number", "".into()),
        BlockType::Argument(R::View { type_name }) => ("View", type_name.clone()), BlockType::Argument(R::Component { type_name }) => ("Component", type_name.clone()),
        BlockType::Argument(R::List { inner_type: ListItem::String }) => ("ListString", "".into()), BlockType::Argument(R::List { inner_type: ListItem::Number }) => ("ListNumber", "".into()),
        BlockType::Control(BlockControl::OneNest) => ("OneNest", "".into()), BlockType::Control(BlockControl::TwoNest) => ("TwoNest", "".into()), BlockType::Control(BlockControl::EndingBlock) => ("Ending", "".into()),
    }
}

// "ss1n" is "1" when the sub stack is to be built as Some(empty) although it has no blocks
pub fn b_block(v: &Value) -> Block {
    let ss = |k: &str| { let l = ar(v, k); if l.is_empty() && v.get("some").and_then(|x| x.as_str()) != Some("1") { None } else { Some(Blocks(l.iter().map(b_block).collect())) } };
    Block { sub_stack1: ss("ss1"), sub_stack2: ss("ss2"), color: color(st(v, "color")), op_code: so(v, "op"), content: b_content(ob(v, "items")), block_type: b_btype(st(v, "kind"), st(v, "tn")) }
}
pub fn p_block(b: &Block) -> Value {
    let (k, tn) = p_btype(&b.block_type);
    let ss = |s: &Option<Blocks>| match s { None => json!([]), Some(b) => p_blocks(b) };
    json!({"op": b.op_code, "color": pcolor(&b.color), "kind": k, "tn": tn, "items": p_content(&b.content), "ss1": ss(&b.sub_stack1), "ss2": ss(&b.sub_stack2)})
}
pub fn b_blocks(v: &Value) -> Blocks { Blocks(v.as_array().expect("forest").iter().map(b_block).collect()) }
pub fn p_blocks(b: &Blocks) -> Value { arr(&b.0, p_block) }

// ---------------------------------------------------------------- parser-level models

pub fn split_ts(ts: u64) -> (String, String) { let t = ts as i64; (t.div_euclid(86400).to_string(), t.rem_euclid(86400).to_string()) }
pub fn join_ts(v: &Value) -> u64 { (nm::<i64>(v, "days") * 86400 + nm::<i64>(v, "secs")) as u64 }

pub fn b_project(v: &Value) -> Project {
    Project {
        id: nm(v, "id"), app_name: so(v, "appName"), workspace_name: so(v, "wsName"), package_name: so(v, "pkgName"), version_code: nm(v, "verCode"),
        version_name: so(v, "verName"), date_created: join_ts(v), custom_icon: bo(v, "customIcon"),
        color_palette: ProjectColorPalette { color_primary: color(st(v, "cPrimary")), color_primary_dark: color(st(v, "cPrimaryDark")), color_accent: color(st(v, "cAccent")),
            color_control_normal: color(st(v, "cNormal")), color_control_highlight: color(st(v, "cHighlight")) },
        sketchware_version: nm(v, "swVer"),
    }
}
pub fn p_project(p: &Project) -> Value {
    let (d, s) = split_ts(p.date_created);
    let c = &p.color_palette;
    json!({"id": p.id.to_string(), "appName": p.app_name, "wsName": p.workspace_name, "pkgName": p.package_name, "verCode": p.version_code.to_string(),
        "verName": p.version_name, "days": d, "secs": s, "customIcon": p.custom_icon.to_string(), "cPrimary": pcolor(&c.color_primary), "cPrimaryDark": pcolor(&c.color_primary_dark),
        "cAccent": pcolor(&c.color_accent), "cNormal": pcolor(&c.color_control_normal), "cHighlight": pcolor(&c.color_control_highlight), "swVer": p.sketchware_version.to_string()})
}

pub fn b_fitem(v: &Value) -> FileItem {
    FileItem { filename: so(v, "name"), file_type: ftype_of(st(v, "ftype")), keyboard_setting: kbd_of(st(v, "kbd")),
        options: ActivityOptions { toolbar_enabled: bo(v, "toolbar"), fullscreen_enabled: bo(v, "fullscreen"), drawer_enabled: bo(v, "drawer"), fab_enabled: bo(v, "fab") },
        orientation: fori_of(st(v, "orientation")), theme: theme_of(st(v, "theme")) }
}
pub fn p_fitem(i: &FileItem) -> Value {
    json!({"name": i.filename, "ftype": ftype_to(&i.file_type), "kbd": kbd_to(&i.keyboard_setting), "toolbar": i.options.toolbar_enabled.to_string(),
        "fullscreen": i.options.fullscreen_enabled.to_string(), "drawer": i.options.drawer_enabled.to_string(), "fab": i.options.fab_enabled.to_string(),
        "orientation": fori_to(&i.orientation), "theme": theme_to(&i.theme)})
}
pub fn b_file(v: &Value) -> parser::file::File {
    parser::file::File { activities: ar(v, "activities").iter().map(b_fitem).collect(), custom_views: ar(v, "customViews").iter().map(b_fitem).collect() }
}
pub fn p_file(f: &parser::file::File) -> Value { json!({"activities": arr(&f.activities, p_fitem), "customViews": arr(&f.custom_views, p_fitem)}) }

pub fn b_lib(v: &Value) -> LibraryItem {
    LibraryItem { ad_units: ar(v, "adUnits").iter().map(|a| AdUnit { id: so(a, "id"), name: so(a, "name") }).collect(), data: so(v, "data"), lib_type: nm(v, "libType"),
        reserved1: so(v, "reserved1"), reserved2: so(v, "reserved2"), reserved3: so(v, "reserved3"),
        test_devices: ar(v, "testDevices").iter().map(|s| s.as_str().unwrap().to_string()).collect(), use_yn: so(v, "useYn") }
}
pub fn p_lib(l: &LibraryItem) -> Value {
    json!({"adUnits": arr(&l.ad_units, |a| json!({"id": a.id, "name": a.name})), "data": l.data, "libType": l.lib_type.to_string(), "reserved1": l.reserved1,
        "reserved2": l.reserved2, "reserved3": l.reserved3, "testDevices": l.test_devices, "useYn": l.use_yn})
}
pub fn b_library(v: &Value) -> Library { Library { firebase_db: b_lib(ob(v, "firebaseDB")), compat: b_lib(ob(v, "compat")), admob: b_lib(ob(v, "admob")), google_map: b_lib(ob(v, "googleMap")) } }
pub fn p_library(l: &Library) -> Value { json!({"firebaseDB": p_lib(&l.firebase_db), "compat": p_lib(&l.compat), "admob": p_lib(&l.admob), "googleMap": p_lib(&l.google_map)}) }

pub fn b_ritem(v: &Value) -> ResourceItem { ResourceItem { full_name: so(v, "fullName"), name: so(v, "name"), r#type: nm(v, "type") } }
pub fn p_ritem(r: &ResourceItem) -> Value { json!({"fullName": r.full_name, "name": r.name, "type": r.r#type.to_string()}) }
pub fn b_resource(v: &Value) -> Resource {
    Resource { images: ar(v, "images").iter().map(b_ritem).collect(), sounds: ar(v, "sounds").iter().map(b_ritem).collect(), fonts: ar(v, "fonts").iter().map(b_ritem).collect() }
}
pub fn p_resource(r: &Resource) -> Value { json!({"images": arr(&r.images, p_ritem), "sounds": arr(&r.sounds, p_ritem), "fonts": arr(&r.fonts, p_ritem)}) }

pub fn b_pview(v: &Value) -> PView {
    let mut layouts = LinkedHashMap::new();
    for l in ar(v, "layouts") { layouts.insert(so(l, "name"), Layout(ar(l, "views").iter().map(b_av).collect())); }
    let mut fabs = LinkedHashMap::new();
    for l in ar(v, "fabs") { fabs.insert(so(l, "name"), b_av(ob(l, "view"))); }
    PView { layouts, fabs }
}
pub fn p_pview(v: &PView) -> Value {
    json!({"layouts": v.layouts.iter().map(|(n, l)| json!({"name": n, "views": arr(&l.0, p_av)})).collect::<Vec<_>>(),
        "fabs": v.fabs.iter().map(|(n, a)| json!({"name": n, "view": p_av(a)})).collect::<Vec<_>>()})
}

pub fn b_vars(v: &[Value]) -> LinkedHashMap<String, Variable> {
    let mut m = LinkedHashMap::new();
    for x in v { m.insert(so(x, "name"), Variable { name: so(x, "name"), r#type: vt_of(st(x, "type")) }); }
    m
}
pub fn b_lists(v: &[Value]) -> LinkedHashMap<String, ListVariable> {
    let mut m = LinkedHashMap::new();
    for x in v { m.insert(so(x, "name"), ListVariable { name: so(x, "name"), r#type: vt_of(st(x, "type")) }); }
    m
}
// the key and the stored name are both shown
pub fn p_vars(m: &LinkedHashMap<String, Variable>) -> Value { Value::Array(m.iter().map(|(k, v)| json!({"name": k, "own": v.name, "type": vt_to(&v.r#type)})).collect()) }
pub fn p_lists(m: &LinkedHashMap<String, ListVariable>) -> Value { Value::Array(m.iter().map(|(k, v)| json!({"name": k, "own": v.name, "type": vt_to(&v.r#type)})).collect()) }

pub fn b_comp(v: &Value) -> Component { Component { id: so(v, "id"), param1: so(v, "p1"), param2: so(v, "p2"), param3: so(v, "p3"), r#type: nm(v, "type") } }
pub fn p_comp(c: &Component) -> Value { json!({"id": c.id, "p1": c.param1, "p2": c.param2, "p3": c.param3, "type": c.r#type.to_string()}) }
pub fn b_pevent(v: &Value) -> PEvent { PEvent { event_name: so(v, "name"), event_type: nm(v, "etype"), target_id: so(v, "target"), target_type: nm(v, "ttype") } }
pub fn p_pevent(e: &PEvent) -> Value { json!({"name": e.event_name, "etype": e.event_type.to_string(), "target": e.target_id, "ttype": e.target_type.to_string()}) }

// the pieces of data files, each on its own
pub fn items(v: &Value) -> &[Value] { v.as_array().expect("harness: items") }
pub fn b_layout(v: &Value) -> Layout { Layout(items(v).iter().map(b_av).collect()) }
pub fn p_layout(l: &Layout) -> Value { arr(&l.0, p_av) }
pub fn b_var(v: &Value) -> Variable { Variable { name: so(v, "name"), r#type: vt_of(st(v, "type")) } }
pub fn p_var(v: &Variable) -> Value { json!({"name": v.name, "own": v.name, "type": vt_to(&v.r#type)}) }
pub fn b_list(v: &Value) -> ListVariable { ListVariable { name: so(v, "name"), r#type: vt_of(st(v, "type")) } }
pub fn p_list(v: &ListVariable) -> Value { json!({"name": v.name, "own": v.name, "type": vt_to(&v.r#type)}) }
pub fn b_varpool(v: &Value) -> VariablePool { VariablePool(b_vars(items(v))) }
pub fn p_varpool(p: &VariablePool) -> Value { p_vars(&p.0) }
pub fn b_listpool(v: &Value) -> ListVariablePool { ListVariablePool(b_lists(items(v))) }
pub fn p_listpool(p: &ListVariablePool) -> Value { p_lists(&p.0) }
pub fn b_comppool(v: &Value) -> ComponentPool { ComponentPool(items(v).iter().map(b_comp).collect()) }
pub fn p_comppool(p: &ComponentPool) -> Value { arr(&p.0, p_comp) }
pub fn b_eventpool(v: &Value) -> EventPool { EventPool(items(v).iter().map(b_pevent).collect()) }
pub fn p_eventpool(p: &EventPool) -> Value { arr(&p.0, p_pevent) }
pub fn b_pmb(v: &Value) -> PMoreBlock { PMoreBlock { id: so(v, "id"), spec: so(v, "spec") } }
pub fn p_pmb(m: &PMoreBlock) -> Value { json!({"id": m.id, "own": m.id, "spec": m.spec, "words": crate::lex::words(&m.spec)}) }
pub fn b_mbpool(v: &Value) -> MoreBlockPool {
    let mut m = LinkedHashMap::new();
    for x in items(v) { m.insert(so(x, "id"), b_pmb(x)); }
    MoreBlockPool(m)
}
pub fn p_mbpool(p: &MoreBlockPool) -> Value { Value::Array(p.0.iter().map(|(k, m)| json!({"id": k, "own": m.id, "spec": m.spec, "words": crate::lex::words(&m.spec)})).collect()) }
pub fn b_header(v: &Value) -> BlockContainerHeader { BlockContainerHeader { screen_name: so(v, "screen"), container_name: so(v, "cont") } }
pub fn p_header(h: &BlockContainerHeader) -> Value { json!({"screen": h.screen_name, "cont": h.container_name}) }

// pools: {"some":"1|0","l":[...]}
fn pool<'a>(v: &'a Value, k: &str) -> Option<&'a Vec<Value>> { let p = ob(v, k); if st(p, "some") == "1" { Some(ar(p, "l")) } else { None } }
fn ppool(v: Option<Value>) -> Value { match v { None => json!({"some": "0", "l": []}), Some(l) => json!({"some": "1", "l": l}) } }

pub fn b_slogic(v: &Value) -> ScreenLogic {
    let mut bc = LinkedHashMap::new();
    for c in ar(v, "conts") { bc.insert(so(c, "id"), b_cont(ob(c, "flat"))); }
    ScreenLogic {
        name: so(v, "name"), block_containers: bc,
        variables: pool(v, "vars").map(|l| VariablePool(b_vars(l))),
        list_variables: pool(v, "lists").map(|l| ListVariablePool(b_lists(l))),
        components: pool(v, "comps").map(|l| ComponentPool(l.iter().map(b_comp).collect())),
        events: pool(v, "events").map(|l| EventPool(l.iter().map(b_pevent).collect())),
        more_blocks: pool(v, "mbs").map(|l| {
            let mut m = LinkedHashMap::new();
            for x in l { m.insert(so(x, "id"), PMoreBlock { id: so(x, "id"), spec: so(x, "spec") }); }
            MoreBlockPool(m)
        }),
    }
}
pub fn p_slogic(key: &str, s: &ScreenLogic) -> Value {
    json!({"name": key, "own": s.name,
        "conts": s.block_containers.iter().map(|(k, c)| json!({"id": k, "flat": p_cont(c)})).collect::<Vec<_>>(),
        "vars": ppool(s.variables.as_ref().map(|p| p_vars(&p.0))), "lists": ppool(s.list_variables.as_ref().map(|p| p_lists(&p.0))),
        "comps": ppool(s.components.as_ref().map(|p| arr(&p.0, p_comp))), "events": ppool(s.events.as_ref().map(|p| arr(&p.0, p_pevent))),
        "mbs": ppool(s.more_blocks.as_ref().map(|p| Value::Array(p.0.iter().map(|(k, m)| json!({"id": k, "own": m.id, "spec": m.spec, "words": crate::lex::words(&m.spec)})).collect())))})
}
pub fn b_logic(v: &Value) -> Logic {
    let mut m = LinkedHashMap::new();
    for s in ar(v, "screens") { m.insert(so(s, "name"), b_slogic(s)); }
    Logic { screens: m }
}
pub fn p_logic(l: &Logic) -> Value { json!({"screens": l.screens.iter().map(|(k, s)| p_slogic(k, s)).collect::<Vec<_>>()}) }

// ---------------------------------------------------------------- resources

pub fn b_rf(v: &Value, base: &PathBuf) -> ResourceFileWrapper {
    match st(v, "k") {
        "path" => ResourceFileWrapper::Path(base.join(st(v, "id"))),
        "str" => ResourceFileWrapper::StringId { id: so(v, "id"), res_full_name: so(v, "fn"), res_type: rt_of(st(v, "t")) },
        "u32" => ResourceFileWrapper::U32Id { id: nm(v, "id"), res_full_name: so(v, "fn"), res_type: rt_of(st(v, "t")) },
        o => panic!("harness: rf {}", o),
    }
}
pub fn p_rf(r: &ResourceFileWrapper, base: &PathBuf) -> Value {
    match r {
        ResourceFileWrapper::Path(p) => json!({"k": "path", "id": p.strip_prefix(base).unwrap_or(p).to_str().unwrap_or("?"), "fn": "", "t": "-"}),
        ResourceFileWrapper::StringId { id, res_full_name, res_type } => json!({"k": "str", "id": id, "fn": res_full_name, "t": rt_to(res_type)}),
        ResourceFileWrapper::U32Id { id, res_full_name, res_type } => json!({"k": "u32", "id": id.to_string(), "fn": res_full_name, "t": rt_to(res_type)}),
    }
}
/// maps are shown as lists sorted by key: their order carries no meaning
pub fn p_rfiles(r: &ResourceFiles, base: &PathBuf) -> Value {
    let m = |h: &std::collections::HashMap<String, ResourceFileWrapper>| {
        let mut k: Vec<_> = h.iter().collect();
        k.sort_by(|a, b| a.0.cmp(b.0));
        Value::Array(k.into_iter().map(|(n, f)| json!({"key": n, "file": p_rf(f, base)})).collect())
    };
    json!({"icon": match &r.custom_icon { None => json!([]), Some(i) => json!([p_rf(i, base)]) }, "images": m(&r.images), "sounds": m(&r.sounds), "fonts": m(&r.fonts)})
}
pub fn p_store(r: &api::Resources, base: &PathBuf) -> Value {
    let m = |h: &LinkedHashMap<api::ResourceId, ResourceFileWrapper>| Value::Array(h.iter().map(|(k, f)| json!({"id": k.0, "file": p_rf(f, base)})).collect());
    json!({"images": m(r.get_images()), "sounds": m(r.get_sounds()), "fonts": m(r.get_fonts())})
}

// ---------------------------------------------------------------- API project

pub fn b_ck(v: &Value) -> ComponentKind {
    let p = so(v, "p");
    match st(v, "kind") {
        "Intent" => ComponentKind::Intent, "SharedPreferences" => ComponentKind::SharedPreferences { path: p }, "Calendar" => ComponentKind::Calendar,
        "Vibrator" => ComponentKind::Vibrator, "Timer" => ComponentKind::Timer, "FirebaseDatabase" => ComponentKind::FirebaseDatabase { path: p },
        "Dialog" => ComponentKind::Dialog, "MediaPlayer" => ComponentKind::MediaPlayer, "SoundPool" => ComponentKind::SoundPool,
        "ObjectAnimator" => ComponentKind::ObjectAnimator, "Gyroscope" => ComponentKind::Gyroscope, "FirebaseAuth" => ComponentKind::FirebaseAuth,
        "InterstitialAd" => ComponentKind::InterstitialAd, "FirebaseStorage" => ComponentKind::FirebaseStorage { path: p }, "Camera" => ComponentKind::Camera,
        "FilePicker" => ComponentKind::FilePicker { mime_type: p }, "RequestNetwork" => ComponentKind::RequestNetwork, "TextToSpeech" => ComponentKind::TextToSpeech,
        "SpeechToText" => ComponentKind::SpeechToText, "BluetoothConnect" => ComponentKind::BluetoothConnect, "LocationManager" => ComponentKind::LocationManager,
        o => panic!("harness: component {}", o),
    }
}
pub fn p_ck(k: &ComponentKind) -> (&'static str, String) {
    match k {
        ComponentKind::Intent => ("Intent", "".into()), ComponentKind::SharedPreferences { path } => ("SharedPreferences", path.clone()), ComponentKind::Calendar => ("Calendar", "".into()),
        ComponentKind::Vibrator => ("Vibrator", "".into()), ComponentKind::Timer => ("Timer", "".into()), ComponentKind::FirebaseDatabase { path } => ("FirebaseDatabase", path.clone()),
        ComponentKind::Dialog => ("Dialog", "".into()), ComponentKind::MediaPlayer => ("MediaPlayer", "".into()), ComponentKind::SoundPool => ("SoundPool", "".into()),
        ComponentKind::ObjectAnimator => ("ObjectAnimator", "".into()), ComponentKind::Gyroscope => ("Gyroscope", "".into()), ComponentKind::FirebaseAuth => ("FirebaseAuth", "".into()),
        ComponentKind::InterstitialAd => ("InterstitialAd", "".into()), ComponentKind::FirebaseStorage { path } => ("FirebaseStorage", path.clone()), ComponentKind::Camera => ("Camera", "".into()),
        ComponentKind::FilePicker { mime_type } => ("FilePicker", mime_type.clone()), ComponentKind::RequestNetwork => ("RequestNetwork", "".into()), ComponentKind::TextToSpeech => ("TextToSpeech", "".into()),
        ComponentKind::SpeechToText => ("SpeechToText", "".into()), ComponentKind::BluetoothConnect => ("BluetoothConnect", "".into()), ComponentKind::LocationManager => ("LocationManager", "".into()),
    }
}

pub fn b_etype(v: &Value) -> EventType {
    match st(v, "et") {
        "view" => EventType::ViewEvent { id: so(v, "target") },
        "component" => EventType::ComponentEvent { id: so(v, "target"), component_type: nm(v, "ctype") },
        "activity" => EventType::ActivityEvent,
        o => panic!("harness: event type {}", o),
    }
}
pub fn p_etype(t: &EventType) -> (&'static str, String, String) {
    match t {
        EventType::ViewEvent { id } => ("view", id.clone(), "0".into()),
        EventType::ComponentEvent { id, component_type } => ("component", id.clone(), component_type.to_string()),
        EventType::ActivityEvent => ("activity", "".into(), "0".into()),
    }
}
pub fn b_event(v: &Value) -> Event { Event { name: so(v, "name"), event_type: b_etype(v), code: b_blocks(ob(v, "code")) } }
pub fn p_event(e: &Event) -> Value { let (k, t, c) = p_etype(&e.event_type); json!({"name": e.name, "et": k, "target": t, "ctype": c, "code": p_blocks(&e.code)}) }
pub fn b_mb(v: &Value) -> MoreBlock { MoreBlock { name: so(v, "id"), spec: b_content(ob(v, "items")), code: b_blocks(ob(v, "code")) } }
pub fn p_mb(k: &str, m: &MoreBlock) -> Value { json!({"id": k, "own": m.name, "items": p_content(&m.spec), "code": p_blocks(&m.code)}) }

pub fn b_screen(v: &Value) -> Screen {
    let mut mbs = LinkedHashMap::new();
    for m in ar(v, "mbs") { mbs.insert(so(m, "id"), b_mb(m)); }
    let mut comps = LinkedHashMap::new();
    for c in ar(v, "comps") { comps.insert(so(c, "id"), b_ck(c)); }
    Screen {
        layout_name: so(v, "layoutName"), java_name: so(v, "javaName"), layout: ar(v, "layout").iter().map(b_view).collect(),
        variables: b_vars(ar(v, "vars")), list_variables: b_lists(ar(v, "lists")), more_blocks: mbs, components: comps,
        events: ar(v, "events").iter().map(b_event).collect(), fab: ar(v, "fab").first().map(b_view),
        fullscreen_enabled: bo(v, "fullscreenOn"), toolbar_enabled: bo(v, "toolbarOn"), drawer_enabled: bo(v, "drawerOn"), fab_enabled: bo(v, "fabOn"),
        orientation: fori_of(st(v, "orientation")), theme: theme_of(st(v, "theme")), keyboard_setting: kbd_of(st(v, "kbd")),
    }
}
pub fn p_screen(s: &Screen) -> Value {
    json!({
        "layoutName": s.layout_name, "javaName": s.java_name, "layout": arr(&s.layout, p_view), "vars": p_vars(&s.variables), "lists": p_lists(&s.list_variables),
        "mbs": s.more_blocks.iter().map(|(k, m)| p_mb(k, m)).collect::<Vec<_>>(),
        "comps": s.components.iter().map(|(k, c)| { let (n, p) = p_ck(c); json!({"id": k, "kind": n, "p": p}) }).collect::<Vec<_>>(),
        "events": arr(&s.events, p_event), "fab": match &s.fab { None => json!([]), Some(f) => json!([p_view(f)]) },
        "fullscreenOn": s.fullscreen_enabled.to_string(), "toolbarOn": s.toolbar_enabled.to_string(), "drawerOn": s.drawer_enabled.to_string(), "fabOn": s.fab_enabled.to_string(),
        "orientation": fori_to(&s.orientation), "theme": theme_to(&s.theme), "kbd": kbd_to(&s.keyboard_setting),
    })
}

pub fn b_meta(v: &Value) -> api::Metadata {
    api::Metadata { local_id: nm(v, "id"), name: so(v, "appName"), workspace_name: so(v, "wsName"), package_name: so(v, "pkgName"), time_created: join_ts(v),
        sketchware_version: nm(v, "swVer"), version_name: so(v, "verName"), version_code: nm(v, "verCode") }
}
pub fn b_colors(v: &Value) -> api::Colors {
    api::Colors { color_primary: color(st(v, "cPrimary")), color_primary_dark: color(st(v, "cPrimaryDark")), color_accent: color(st(v, "cAccent")),
        color_control_normal: color(st(v, "cNormal")), color_control_highlight: color(st(v, "cHighlight")) }
}
/// libs: {"compat":"true|false","firebase":[{projectId,appId,apiKey,bucket}],"admob":[{adUnits,testDevices}],"gmap":[{apiKey}]}
pub fn b_libs(v: &Value) -> api::Libraries {
    api::Libraries {
        app_compat_enabled: bo(v, "compat"),
        firebase: ar(v, "firebase").first().map(|f| api::library::Firebase { project_id: so(f, "projectId"), app_id: so(f, "appId"), api_key: so(f, "apiKey"), storage_bucket: so(f, "bucket") }),
        ad_mob: ar(v, "admob").first().map(|f| api::library::AdMob { ad_units: ar(f, "adUnits").iter().map(|a| AdUnit { id: so(a, "id"), name: so(a, "name") }).collect(),
            test_devices: ar(f, "testDevices").iter().map(|s| s.as_str().unwrap().to_string()).collect() }),
        google_map: ar(v, "gmap").first().map(|f| api::library::GoogleMap { api_key: so(f, "apiKey") }),
    }
}
pub fn p_libs(l: &api::Libraries) -> Value {
    json!({"compat": l.app_compat_enabled.to_string(),
        "firebase": l.firebase.iter().map(|f| json!({"projectId": f.project_id, "appId": f.app_id, "apiKey": f.api_key, "bucket": f.storage_bucket})).collect::<Vec<_>>(),
        "admob": l.ad_mob.iter().map(|f| json!({"adUnits": arr(&f.ad_units, |a| json!({"id": a.id, "name": a.name})), "testDevices": f.test_devices})).collect::<Vec<_>>(),
        "gmap": l.google_map.iter().map(|f| json!({"apiKey": f.api_key})).collect::<Vec<_>>()})
}

pub fn p_api(p: &api::SketchwareProject, base: &PathBuf) -> Value {
    p_parts(&p.metadata, &p.colors, &p.screens, &p.custom_views, &p.libraries, &p.resources, &p.custom_icon, base)
}
pub fn p_parts(m: &api::Metadata, c: &api::Colors, screens: &Vec<Screen>, cviews: &Vec<api::CustomView>, libs: &api::Libraries, res: &api::Resources, icon: &Option<ResourceFileWrapper>, base: &PathBuf) -> Value {
    let (d, s) = split_ts(m.time_created);
    json!({
        "meta": {"id": m.local_id.to_string(), "appName": m.name, "wsName": m.workspace_name, "pkgName": m.package_name, "days": d, "secs": s,
                 "swVer": m.sketchware_version.to_string(), "verName": m.version_name, "verCode": m.version_code.to_string()},
        "colors": {"cPrimary": pcolor(&c.color_primary), "cPrimaryDark": pcolor(&c.color_primary_dark), "cAccent": pcolor(&c.color_accent),
                   "cNormal": pcolor(&c.color_control_normal), "cHighlight": pcolor(&c.color_control_highlight)},
        "screens": arr(screens, p_screen),
        "cviews": arr(cviews, |v| json!({"name": v.res_name, "layout": arr(&v.layout, p_view)})),
        "libs": p_libs(libs), "res": p_store(res, base),
        "icon": match icon { None => json!([]), Some(i) => json!([p_rf(i, base)]) },
    })
}
