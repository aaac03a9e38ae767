//! Offline stand-in for `dyn-clone` 1.0 (same technique as the original crate).
mod sealed { pub trait Sealed {} impl<T: Clone> Sealed for T {} impl Sealed for str {} impl<T: Clone> Sealed for [T] {} pub struct Private; }
#[doc(hidden)]
pub use sealed::Private;
#[doc(hidden)]
pub mod __private { pub use std::boxed::Box; pub use std::clone::Clone; pub use std::marker::{Send, Sync}; pub use std::rc::Rc; pub use std::sync::Arc; }
pub trait DynClone: sealed::Sealed {
    #[doc(hidden)]
    fn __clone_box(&self, _: Private) -> *mut ();
}
impl<T: Clone> DynClone for T {
    fn __clone_box(&self, _: Private) -> *mut () { Box::<T>::into_raw(Box::new(self.clone())) as *mut () }
}
pub fn clone<T: Clone>(t: &T) -> T { t.clone() }
pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat_ptr = t as *const T;
    unsafe {
        let data_ptr = &mut fat_ptr as *mut *const T as *mut *mut ();
        assert_eq!(*data_ptr as *const (), t as *const T as *const ());
        *data_ptr = <T as DynClone>::__clone_box(t, Private);
    }
    unsafe { Box::from_raw(fat_ptr as *mut T) }
}
#[macro_export]
macro_rules! clone_trait_object {
    ($($t:tt)*) => {
        impl<'clone> $crate::__private::Clone for $crate::__private::Box<dyn $($t)* + 'clone> {
            fn clone(&self) -> Self { $crate::clone_box(&**self) }
        }
        impl<'clone> $crate::__private::Clone for $crate::__private::Box<dyn $($t)* + $crate::__private::Send + 'clone> {
            fn clone(&self) -> Self { $crate::clone_box(&**self) }
        }
    };
}
