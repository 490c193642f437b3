//! Minimal stackful coroutines (x86_64 SysV).
use crate::engine::MAXT;
use core::arch::global_asm;

pub const STACK_BASE: usize = 0x2000_0000_0000;
pub const STACK_SIZE: usize = 0x8_0000; // 512 KB
const POISON_TOP: usize = 0x2000;

global_asm!(
    r#"
    .global mc_switch
    mc_switch:
        push rbp
        push rbx
        push r12
        push r13
        push r14
        push r15
        mov [rdi], rsp
        mov rsp, rsi
        pop r15
        pop r14
        pop r13
        pop r12
        pop rbx
        pop rbp
        ret
    .global mc_tramp
    mc_tramp:
        call mc_fiber_entry
        ud2
    "#
);

extern "C" {
    fn mc_switch(save: *mut usize, to: usize, escape: *mut u8);
    fn mc_tramp();
}

pub fn map() {
    unsafe {
        let p = libc::mmap(
            STACK_BASE as *mut _,
            STACK_SIZE * MAXT,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert_eq!(p as usize, STACK_BASE, "cannot map stacks");
        for i in 0..MAXT {
            // guard page at the low end
            libc::mprotect((STACK_BASE + i * STACK_SIZE) as *mut _, 4096, libc::PROT_NONE);
        }
    }
}

/// Prepare fiber `i`'s stack so that switching to the returned sp runs `mc_fiber_entry`.
pub fn prepare(i: usize) -> usize {
    unsafe {
        let top = STACK_BASE + (i + 1) * STACK_SIZE;
        core::ptr::write_bytes((top - POISON_TOP) as *mut u8, 0xDD, POISON_TOP);
        let sp = top - 72;
        let p = sp as *mut usize;
        for k in 0..6 {
            *p.add(k) = 0;
        }
        *p.add(6) = mc_tramp as usize;
        sp
    }
}

pub fn stack_of(addr: usize) -> Option<usize> {
    if addr >= STACK_BASE && addr < STACK_BASE + STACK_SIZE * MAXT {
        Some((addr - STACK_BASE) / STACK_SIZE)
    } else {
        None
    }
}

/// `escape` is only there so that the optimiser assumes that the engine changes during the switch.
#[inline]
pub unsafe fn switch(save: *mut usize, to: usize, escape: *mut crate::engine::Engine) {
    mc_switch(save, to, escape as *mut u8)
}
