//! Uses of every macro form; the expansions are what the G checks analyse. Never run.
#![allow(dead_code, unused, non_camel_case_types)]
use std::collections::HashMap;
use std::rc::Rc;
use vertigo::{
    bind, bind_rc, bind_spawn, component, css, css_block, document, dom, dom_element, window, AutoJsJson, Computed, Css, DomElement, DomNode,
    DropFileEvent, JsValue, KeyDownEvent, Value,
};

// ------------------------------------------------------------------ dom!
pub fn tree(a: String, b: Computed<String>, c: Value<i32>, s: String) -> DomNode {
    dom! {
        <div id={a} title="fixed" data-extra={b}>
            "first"
            <p class="x"><b>{s}</b>"tail"</p>
            {c}
            <br/>
            "last"
        </div>
    }
}

pub fn element(a: String, name: String) -> DomElement {
    dom_element! {
        <section {name} aria-label={a}>
            <i></i>
            <u/>
        </section>
    }
}

pub fn roots(x: String) -> DomNode {
    dom! {
        <h1>"one"</h1>
        <h2>{x}</h2>
        <h3/>
    }
}

pub fn spread(items: Vec<DomNode>, pre: String) -> DomNode {
    dom! {
        <ul>
            <li>{pre}</li>
            {..items}
            <li/>
        </ul>
    }
}

pub fn mouse(a: Rc<dyn Fn()>, b: Rc<dyn Fn() -> bool>, c: Rc<dyn Fn() -> bool>, d: Rc<dyn Fn()>, e: Rc<dyn Fn()>, f: Rc<dyn Fn()>, g: Rc<dyn Fn()>) -> DomElement {
    dom_element! {
        <div on_click={a} on_mouse_down={b} on_mouse_up={c} on_mouse_enter={d} on_mouse_leave={e} on_blur={f} on_load={g} />
    }
}

pub fn keys(
    a: Rc<dyn Fn(String)>,
    b: Rc<dyn Fn(String)>,
    c: Rc<dyn Fn(KeyDownEvent) -> bool>,
    d: Rc<dyn Fn(KeyDownEvent) -> bool>,
    e: Rc<dyn Fn(DropFileEvent)>,
) -> DomElement {
    dom_element! {
        <input on_input={a} on_change={b} on_key_down={c} hook_key_down={d} on_dropfile={e} />
    }
}

pub fn short(on_click: Rc<dyn Fn()>, on_input: Rc<dyn Fn(String)>, css: Css, title: String) -> DomElement {
    dom_element! {
        <input {on_click} {title} {css} {on_input} />
    }
}

pub fn styled(c: Css, d: Computed<Css>, waiting: fn(bool) -> Css) -> DomElement {
    dom_element! {
        <div css={c} vertigo-suspense={waiting}><p css={d}/></div>
    }
}

#[component]
pub fn Part(first: String, second: Value<i32>, third: Computed<Option<String>>, fourth: u8) {
    dom! {
        <div title={first} alt={third} size={fourth}>{second}</div>
    }
}

#[component]
pub fn Wrap<T: Clone + 'static>(one: Vec<T>, two: String) {
    use_both(one, two)
}

pub fn use_both<T>(one: Vec<T>, two: String) -> DomElement {
    DomElement::new("x")
}

pub fn components(a: String, second: Value<i32>, r: Value<i32>, t: Computed<Option<String>>, t2: Computed<Option<String>>) -> DomNode {
    dom! {
        <div>
            <Part first={a} {second} third={t} fourth={9} />
            <Part first="lit" second={&r} third={&t2} fourth={} />
            "after"
        </div>
    }
}

pub fn component_root(first: String, second: Value<i32>, third: Computed<Option<String>>) -> DomNode {
    dom! { <Part {first} {&second} {third} fourth={Default::default()} /> }
}

pub mod kit {
    use vertigo::{component, dom};
    pub mod small {
        use vertigo::{component, dom};
        #[component]
        pub fn Label(text: String) {
            dom! { <b>{text}</b> }
        }
    }
}

pub fn path_components(a: String, b: String) -> DomNode {
    dom! { <div><kit::small::Label text={a} /><p><crate::kit::small::Label text={b} /></p></div> }
}

pub fn path_root(a: String) -> DomNode {
    dom! { <kit::small::Label text={a} /> }
}

// ------------------------------------------------------------------ JSON
#[derive(AutoJsJson)]
pub struct Record {
    pub name: String,
    pub r#type: u32,
    pub inner: Option<Record2>,
    #[js_json(default = 7)]
    pub level: i32,
}

#[derive(AutoJsJson)]
pub struct Record2 {
    pub list: Vec<i64>,
    pub ok: bool,
}

#[derive(AutoJsJson)]
pub struct Nothing {}

#[derive(AutoJsJson)]
pub struct Single(pub Vec<String>);

#[derive(AutoJsJson)]
pub struct Triple(pub u32, pub String, pub bool);

#[derive(AutoJsJson)]
pub enum Choice {
    Empty,
    r#Raw,
    One(String),
    Two(u32, bool),
    Named { left: String, r#right: u64 },
    Last,
}

#[derive(AutoJsJson)]
pub enum Preset {
    On {
        label: String,
        #[js_json(default = 7)]
        level: i32,
    },
}

// ------------------------------------------------------------------ bind!
pub struct Holder {
    pub field: Value<i32>,
}

pub fn take0(f: impl Fn() + 'static) -> i32 {
    0
}
pub fn take1(f: impl Fn(i32) -> u32 + 'static) -> i32 {
    1
}
pub fn seen(a: &Value<i32>, b: &Rc<String>, c: &Value<i32>, d: i32) -> u32 {
    2
}
pub async fn later(a: Value<i32>, b: Rc<String>) {}

pub fn bound0(a: &Value<i32>, b: &Rc<String>, h: &Holder) -> i32 {
    take0(bind!(a, b, h.field, || {
        seen(&a, &b, &field, 1);
    }))
}

pub fn bound1(a: &Value<i32>, b: &Rc<String>, h: &Holder) -> i32 {
    take1(bind!(a, b, h.field, |x: i32| seen(&a, &b, &field, x)))
}

pub fn bound_block(a: &Value<i32>, b: &Rc<String>) -> impl std::future::Future<Output = ()> {
    bind!(a, b, async move {
        later(a, b).await;
    })
}

pub fn bound_spawn(a: &Value<i32>, b: &Rc<String>) -> i32 {
    take0(bind_spawn!(a, b, async move {
        later(a, b).await;
    }))
}

pub fn bound_rc(a: &Value<i32>, b: &Rc<String>) -> Rc<dyn Fn(i32) -> u32> {
    bind_rc!(a, b, |x: i32| -> u32 { seen(&a, &b, &a, x) })
}

// ------------------------------------------------------------------ css!
pub fn css_fixed() -> Css {
    css! {"
        color: red;
        margin: 1px 2px;
        border-image: url('pic.png');
        :hover { color: blue; }
        @media screen and (min-width: 600px) { width: 10px; height: 5%; };
        animation: 1.0s infinite ease-in-out {
            0% { opacity: 0; }
            100% { opacity: 1; }
        };
    "}
}

pub fn css_params(first: i32, second: String, third: &str) -> Css {
    css! {"
        width: { first }px;
        color: {second};
        height: { first }px;
        background: url({third});
        :hover { color: {second}; }
    "}
}

pub fn css_reference(other: Css, first: i32) -> Css {
    css! {"
        color: red;
        :hover [other] { width: {first}px; }
    "}
}

pub fn css_inline(second: String) -> Css {
    css! {"
        border: 1px solid {second};
        width: calc(100% - {second});
    "}
}

pub fn css_named(first: u32, aa: u32, second: String, ab: u32) -> Css {
    css! {"
        width: {first};
        border: {aa}px solid {ab};
        color: {second};
    "}
}

#[allow(clippy::too_many_arguments)]
pub fn css_many(n0: u32, n1: u32, n2: u32, n3: u32, n4: u32, n5: u32, n6: u32, n7: u32, n8: u32, n9: u32, n10: u32, n11: u32, n12: u32, n13: u32, n14: u32, n15: u32, n16: u32, n17: u32, n18: u32, n19: u32, n20: u32, n21: u32, n22: u32, n23: u32, n24: u32, n25: u32, n26: u32, n27: u32) -> Css {
    css! {"
        width: {n0};
        width: {n1};
        width: {n2};
        width: {n3};
        width: {n4};
        width: {n5};
        width: {n6};
        width: {n7};
        width: {n8};
        width: {n9};
        width: {n10};
        width: {n11};
        width: {n12};
        width: {n13};
        width: {n14};
        width: {n15};
        width: {n16};
        width: {n17};
        width: {n18};
        width: {n19};
        width: {n20};
        width: {n21};
        width: {n22};
        width: {n23};
        width: {n24};
        width: {n25};
        width: {n26};
        width: {n27};
    "}
}

pub fn css_units(first: u32, second: u32) -> Css {
    css! {"
        width: {first}em;
        height: {second}%;
        margin: {first}rem {second}vh;
        padding: {first}px {second};
        grid-area: {first}/{second};
        :hover { width: {second}em; }
    "}
}

pub fn css_url(first: String) -> Css {
    css! {"
        background: url('{first}.png');
    "}
}

pub fn css_text() -> &'static str {
    css_block! {"
        color: green;
        :focus { color: black; }
    "}
}

// ------------------------------------------------------------------ browser access
pub fn access_call(a: String, b: i32) -> JsValue {
    window!("scrollTo()", a, b)
}

pub fn access_get() -> JsValue {
    document!("title")
}

// ------------------------------------------------------------------ entry point
#[vertigo::main]
pub fn app() -> DomNode {
    dom! { <div/> }
}

fn main() {}
