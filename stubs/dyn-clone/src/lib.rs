//! Stand-in for dyn-clone 1.0.
pub trait DynClone {
    #[doc(hidden)]
    fn __clone_box(&self) -> *mut ();
}
impl<T: Clone> DynClone for T {
    fn __clone_box(&self) -> *mut () {
        Box::into_raw(Box::new(self.clone())) as *mut ()
    }
}
pub fn clone<T: Clone>(t: &T) -> T {
    t.clone()
}
pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat_ptr = t as *const T;
    // SAFETY: as in dyn-clone: replace the data pointer of the fat pointer by the clone's.
    unsafe {
        let data_ptr = &mut fat_ptr as *mut *const T as *mut *mut ();
        assert_eq!(*data_ptr as *const (), t as *const T as *const ());
        *data_ptr = t.__clone_box();
        Box::from_raw(fat_ptr as *mut T)
    }
}
#[macro_export]
macro_rules! clone_trait_object {
    ($t:path) => {
        impl<'clone> ::core::clone::Clone for ::std::boxed::Box<dyn $t + 'clone> {
            fn clone(&self) -> Self {
                $crate::clone_box(&**self)
            }
        }
        impl<'clone> ::core::clone::Clone for ::std::boxed::Box<dyn $t + ::core::marker::Send + 'clone> {
            fn clone(&self) -> Self {
                $crate::clone_box(&**self)
            }
        }
    };
}
