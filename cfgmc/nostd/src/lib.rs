//! Only compiles when nothing below pulls in std: the panic handler may exist once.
#![no_std]
use core::cmp::Ordering;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, ArrayViewMut1};

#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    loop {}
}

pub fn in_place(mut v: ArrayViewMut1<'_, u32>, i: usize) -> bool {
    v.sort_unstable();
    v.sort_unstable_by(|a, b| b.cmp(a));
    v.sort_unstable_by_key(|a| a % 3);
    v.reverse();
    v.select_nth_unstable(i);
    v.partition_dedup();
    v.contains(&3) && v.is_sorted() && v.binary_search(&4).is_ok() && v.partition_point(|x| *x < 4) > 2
}

pub fn many(v: &mut Array1<u32>, idx: &Array1<usize>) {
    struct Nowhere;
    impl<'a> Extend<(usize, &'a mut u32)> for Nowhere {
        fn extend<T: IntoIterator<Item = (usize, &'a mut u32)>>(&mut self, _: T) {}
    }
    v.select_many_nth_unstable(idx, &mut Nowhere);
    v.select_many_nth_unstable_by(idx, &mut Nowhere, |a, b| if a < b { Ordering::Less } else { Ordering::Greater });
}

#[cfg(feature = "alloc")]
pub fn stable(mut v: ArrayViewMut1<'_, u32>) {
    v.sort();
    v.sort_by(|a, b| b.cmp(a));
    v.sort_by_key(|a| a % 3);
}
