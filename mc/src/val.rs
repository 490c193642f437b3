//! The element type used by the scenarios: every instance is registered, so that reads of
//! uninitialised or dropped elements, double drops, leaks and aliased access are noticed.
use crate::alloc::sys;
use crate::engine::{api::*, eng};

const MAGIC: u64 = 0x7A1E_55ED_0B5E_55ED;

pub struct Val {
    magic: u64,
    inst: usize,
    id: u32,
    check: u32,
    /// written by user code since created / recycled
    used: bool,
    /// recycle steps since last used (or created)
    recycles: u8,
}

impl Val {
    pub fn new(id: u32) -> Val {
        let inst = sys(|| {
            let e = eng();
            e.vals.push(1);
            e.live_vals += 1;
            e.vals.len() - 1
        });
        Val { magic: MAGIC, inst, id, check: !id, used: id != 0, recycles: 0 }
    }

    fn ok(&self, what: &str) {
        if self.magic != MAGIC || self.inst >= eng().vals.len() {
            violation(format!("{} an element that was never initialised or is already gone (magic {:#x})", what, self.magic));
        }
        if eng().vals[self.inst] != 1 {
            violation(format!("{} an element that was already dropped", what));
        }
        if self.check != !self.id {
            violation(format!("{} a torn element ({:#x}/{:#x})", what, self.id, self.check));
        }
    }

    pub fn id(&self) -> u32 {
        self.ok("read of");
        self.id
    }
    pub fn inst(&self) -> usize {
        self.inst
    }

    /// User code writes a message into the element.
    pub fn set(&mut self, id: u32) {
        self.ok("write to");
        self.id = id;
        self.check = !id;
        self.used = true;
        self.recycles = 0;
    }

    /// The recycle step of the policy.
    pub fn recycle(&mut self) {
        self.ok("recycling of");
        self.id = 0;
        self.check = !0;
        self.recycles += 1;
        user_hook(Hk::ElementRecycle, 0);
    }

    /// Check that the element is as a policy must hand it out for an in-place write.
    pub fn check_granted(&self) {
        self.ok("hand-out of");
        if self.id != 0 {
            violation(format!("a write reference exposes an earlier message ({:#x})", self.id));
        }
        if (self.used && self.recycles != 1) || self.recycles > 1 {
            violation(format!("an element was handed out after {} recycle steps since its last use", self.recycles));
        }
    }
}

impl Default for Val {
    fn default() -> Self {
        user_hook(Hk::ElementNew, 0);
        Val::new(0)
    }
}

impl Clone for Val {
    fn clone(&self) -> Self {
        self.ok("clone of");
        Val::new(self.id)
    }
    fn clone_from(&mut self, o: &Self) {
        o.ok("clone of");
        if o.id != 0 {
            violation("recycled from something other than the default value");
        }
        self.recycle();
    }
}

impl PartialEq for Val {
    fn eq(&self, o: &Self) -> bool {
        self.id() == o.id()
    }
}

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Val({:#x})", self.id)
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        self.ok("drop of");
        let e = eng();
        e.vals[self.inst] = 2;
        e.live_vals -= 1;
        self.magic = 0xdead_dead_dead_dead;
        user_hook(Hk::ElementDrop, 0);
    }
}

/// Exclusive-access monitor: covers the time a reference to the element is alive.
pub struct Held(usize);

pub fn hold(v: &Val) -> Held {
    let a = v as *const Val as usize;
    v.ok("reference to");
    sys(|| {
        let e = eng();
        if e.held.contains(&a) {
            e.fail("oracle", "two live references to the same slot".into());
        }
        e.held.push(a);
    });
    Held(a)
}

impl Drop for Held {
    fn drop(&mut self) {
        let a = self.0;
        eng().held.retain(|x| *x != a);
    }
}

/// A policy with the same observable contract as the default one that counts its calls.
#[derive(Clone, Debug, Default)]
pub struct Pol;

impl thingbuf::recycling::Recycle<Val> for Pol {
    fn new_element(&self) -> Val {
        if shared_peek("panic_new") > 0 {
            shared_add("panic_new", -1);
            throw();
        }
        shared_add("created", 1);
        Val::default()
    }
    fn recycle(&self, v: &mut Val) {
        if shared_peek("panic_recycle") > 0 {
            shared_add("panic_recycle", -1);
            throw();
        }
        shared_add("recycled", 1);
        v.recycle();
    }
}
