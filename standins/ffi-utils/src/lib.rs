//! Stand-in of ffi-utils (snips-utils-rs, not available offline): conversion of C pointers and
//! errors.
use failure::format_err;
use std::ffi::{CStr, CString};

pub type Result<T> = std::result::Result<T, failure::Error>;

#[repr(C)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SNIPS_RESULT {
    SNIPS_RESULT_OK = 0,
    SNIPS_RESULT_KO = 1,
}

#[repr(C)]
#[derive(Debug)]
pub struct CStringArray {
    pub data: *const *const libc::c_char,
    pub size: libc::c_int,
}

pub trait RawPointerConverter<T>: Sized {
    fn into_raw_pointer(self) -> *const T;
    unsafe fn from_raw_pointer(input: *const T) -> Result<Self>;
    unsafe fn drop_raw_pointer(input: *const T) -> Result<()> {
        Self::from_raw_pointer(input).map(|_| ())
    }
}

pub trait RawBorrow<T> {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a Self>;
}

impl<U> RawPointerConverter<U> for U {
    fn into_raw_pointer(self) -> *const U {
        Box::into_raw(Box::new(self))
    }
    unsafe fn from_raw_pointer(input: *const U) -> Result<U> {
        if input.is_null() {
            return Err(format_err!("could not take raw pointer, unexpected null pointer"));
        }
        Ok(*Box::from_raw(input as *mut U))
    }
}

impl RawPointerConverter<libc::c_char> for CString {
    fn into_raw_pointer(self) -> *const libc::c_char {
        self.into_raw()
    }
    unsafe fn from_raw_pointer(input: *const libc::c_char) -> Result<CString> {
        if input.is_null() {
            return Err(format_err!("could not take raw pointer, unexpected null pointer"));
        }
        Ok(CString::from_raw(input as *mut libc::c_char))
    }
}

impl<U> RawBorrow<U> for U {
    unsafe fn raw_borrow<'a>(input: *const U) -> Result<&'a U> {
        input.as_ref().ok_or_else(|| format_err!("could not borrow, unexpected null pointer"))
    }
}

impl RawBorrow<libc::c_char> for CStr {
    unsafe fn raw_borrow<'a>(input: *const libc::c_char) -> Result<&'a CStr> {
        if input.is_null() {
            Err(format_err!("could not borrow, unexpected null pointer"))
        } else {
            Ok(CStr::from_ptr(input))
        }
    }
}

pub fn point_to_string(pointer: *mut *const libc::c_char, string: String) -> Result<()> {
    unsafe { *pointer = CString::new(string)?.into_raw_pointer() }
    Ok(())
}

#[macro_export]
macro_rules! create_rust_string_from {
    ($pointer:expr) => {{
        unsafe { <::std::ffi::CStr as $crate::RawBorrow<libc::c_char>>::raw_borrow($pointer) }?
            .to_str()
            .with_context(|_| "Could not convert pointer to rust str")?
            .to_owned()
    }};
}

#[macro_export]
macro_rules! wrap {
    ($e:expr) => {
        match $e {
            Ok(_) => $crate::SNIPS_RESULT::SNIPS_RESULT_OK,
            Err(e) => {
                LAST_ERROR.with(|p| p.replace(Some(format!("{}", e))));
                $crate::SNIPS_RESULT::SNIPS_RESULT_KO
            }
        }
    };
}

#[macro_export]
macro_rules! generate_error_handling {
    ($get_error_name:ident) => {
        thread_local! {
            pub(crate) static LAST_ERROR: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
        }
        #[no_mangle]
        pub extern "C" fn $get_error_name(error: *mut *const libc::c_char) -> $crate::SNIPS_RESULT {
            wrap!($crate::point_to_string(error, LAST_ERROR.with(|p| p.borrow().clone().unwrap_or_else(|| "No error message".to_string()))))
        }
    };
}
