//! Stackful coroutines, so that a task can be suspended anywhere (x86-64 System V).
use std::sync::Mutex;

std::arch::global_asm!(
    ".global vsched_switch",
    "vsched_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global vsched_entry",
    "vsched_entry:",
    "mov rdi, r13",
    "call r12",
    "ud2",
);
extern "C" {
    fn vsched_switch(save: *mut usize, to: usize);
    fn vsched_entry();
}

const SIZE: usize = 1 << 20;

pub struct Stack(*mut u8);
unsafe impl Send for Stack {}
static POOL: Mutex<Vec<Stack>> = Mutex::new(Vec::new());

impl Stack {
    fn get() -> Self {
        if let Some(s) = POOL.lock().unwrap().pop() {
            return s;
        }
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED, "no memory for a stack");
            //the lowest page stays out of reach
            libc::mprotect(p, 4096, libc::PROT_NONE);
            Self(p.cast())
        }
    }
    fn put(self) {
        POOL.lock().unwrap().push(self);
    }
}

pub struct Coro {
    stack: Option<Stack>,
    rsp: usize,
}

impl Coro {
    ///`f(arg)` must never return and never unwind; it ends by switching away for the last time.
    pub fn new(f: extern "C" fn(*mut u8), arg: *mut u8) -> Self {
        let stack = Stack::get();
        unsafe {
            let top = stack.0.add(SIZE).cast::<usize>();
            //what the first switch pops: r15 r14 r13 r12 rbx rbp, then the return address; and an end for anyone walking the stack
            let mut sp = top.sub(2);
            *sp = 0;
            sp = sp.sub(1);
            *sp = vsched_entry as *const () as usize;
            for v in [0, 0, f as *const () as usize, arg as usize, 0, 0] {
                sp = sp.sub(1);
                *sp = v;
            }
            Self { stack: Some(stack), rsp: sp as usize }
        }
    }
    ///Runs the coroutine until it switches back.
    ///
    /// # Safety
    /// Not from within a coroutine, and only if it is not done.
    pub unsafe fn resume(&mut self, home: *mut usize) {
        vsched_switch(home, self.rsp);
    }
    ///Gives control back to whoever resumed.
    ///
    /// # Safety
    /// Only from within this very coroutine.
    pub unsafe fn suspend(this: *mut Self, home: *const usize) {
        vsched_switch(&mut (*this).rsp, *home);
    }
    pub fn leak(&mut self) {
        std::mem::forget(self.stack.take());
    }
    pub fn finish(&mut self) {
        if let Some(s) = self.stack.take() {
            s.put();
        }
    }
}
