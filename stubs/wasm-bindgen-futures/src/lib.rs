//! What the sources of the wasm binding need of wasm-bindgen-futures, to be type-checked without it.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use wasm_bindgen::JsValue;

pub fn future_to_promise<F>(_future: F) -> js_sys::Promise
where
    F: Future<Output = Result<JsValue, JsValue>> + 'static,
{
    unimplemented!()
}

pub struct JsFuture(js_sys::Promise);

impl From<js_sys::Promise> for JsFuture {
    fn from(p: js_sys::Promise) -> JsFuture {
        JsFuture(p)
    }
}

impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        unimplemented!()
    }
}
pub use js_sys;
