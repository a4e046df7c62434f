//! Under the symbolic executor every allocation is an object of its own.
#[cfg(lsx)]
mod a {
    use std::alloc::*;
    extern "C" {
        fn lsx_alloc(n: usize) -> *mut u8;
        fn lsx_free(p: *mut u8);
        fn lsx_realloc(p: *mut u8, n: usize) -> *mut u8;
    }
    struct Al;
    unsafe impl GlobalAlloc for Al {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            lsx_alloc(l.size())
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            lsx_alloc(l.size())
        }
        unsafe fn dealloc(&self, p: *mut u8, _l: Layout) {
            lsx_free(p)
        }
        unsafe fn realloc(&self, p: *mut u8, _l: Layout, n: usize) -> *mut u8 {
            lsx_realloc(p, n)
        }
    }
    #[global_allocator]
    static A: Al = Al;
}
