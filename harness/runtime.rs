//! Stand-ins for what compiled programs provide.
extern crate alloc;

use ffi::{Any, Arc, ByteString, Closure, List};

#[ffi::any]
#[derive(Clone, Copy)]
pub struct Number(pub f64);

#[ffi::any]
#[derive(Clone)]
pub struct Text(pub ByteString);

#[ffi::any]
#[derive(Clone)]
pub struct Fault(pub ffi::Error);

#[ffi::any]
#[derive(Clone)]
pub struct Nothing;

struct Node(Option<(Any, List)>);

#[repr(C)]
struct Inner {
    node: Closure<Node>,
}

fn node(node: Node) -> List {
    unsafe {
        core::mem::transmute(Arc::new(Inner {
            node: Closure::new(core::ptr::null(), node),
        }))
    }
}

/// The elements of a list.
pub fn elements(list: &List) -> alloc::vec::Vec<Any> {
    let mut elements = alloc::vec![];
    let mut list = list;
    loop {
        let inner: &Arc<Inner> = unsafe { core::mem::transmute(list) };
        match unsafe { &(*inner.node.payload()).0 } {
            None => return elements,
            Some((first, rest)) => {
                elements.push(first.clone());
                list = rest;
            }
        }
    }
}

#[no_mangle]
extern "C" fn pen_ffi_list_create() -> List {
    node(Node(None))
}

#[no_mangle]
extern "C" fn pen_ffi_list_prepend(first: Any, rest: List) -> List {
    node(Node(Some((first, rest))))
}

#[no_mangle]
extern "C" fn pen_ffi_number_to_any(number: ffi::Number) -> Any {
    Number(number.into()).into()
}

#[no_mangle]
extern "C" fn pen_ffi_string_to_any(string: ByteString) -> Any {
    Text(string).into()
}

#[no_mangle]
extern "C" fn pen_ffi_error_to_any(error: ffi::Error) -> Any {
    Fault(error).into()
}

#[no_mangle]
extern "C" fn pen_ffi_none_to_any(_: ffi::None) -> Any {
    Nothing.into()
}
