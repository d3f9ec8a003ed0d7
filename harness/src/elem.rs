//! Tracked elements: every element has an identity, a lifetime, a borrow state
//! and a race-detector location; every anomaly is reported at once.
use crate::rng::mix;
use crate::sched::{self, fail, judge, st, Quiet};
use std::cell::UnsafeCell;
use thingbuf::monitor::Obj;
use thingbuf::recycling::Recycle;

const ALIVE: u32 = 0xA11F_E5ED;
const DEAD: u32 = 0xDEAD_0BAD;

pub struct Elem {
    magic: u32,
    pub serial: u32,
    epoch: u32,
    msg: u64,
    check: u64,
    race: Obj,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Use {
    /// fresh from a constructor or recycled: may be handed to a producer
    Clean,
    /// carries, or carried, a message
    Used,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    alive: bool,
    pub held_by: Option<u8>,
    pub used: Use,
    /// made by the library through the policy (not by the harness)
    pub by_policy: bool,
    forgiven: bool,
    recycled: u32,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Faults {
    /// panic at the nth call (1-based) of the constructor / recycler; 0 = never
    pub new_at: u32,
    pub recycle_at: u32,
}

#[derive(Default)]
pub struct Registry {
    infos: Vec<Info>,
    pub news: u32,
    pub recycles: u32,
    pub drops: u32,
    /// elements made by the custom policy
    pub rec_news: u32,
    /// elements received by value
    pub by_value: u32,
    pub faults: Faults,
    pub faults_hit: u32,
    harness_new: bool,
    pub in_elem_fault: bool,
}

struct Global(UnsafeCell<Option<Registry>>);
unsafe impl Sync for Global {}
static REG: Global = Global(UnsafeCell::new(None));

pub fn reg() -> &'static mut Registry {
    unsafe { (*REG.0.get()).as_mut().unwrap() }
}

pub fn reset() {
    unsafe { *REG.0.get() = Some(Registry::default()) }
}

/// Payload of panics injected by the harness.
pub struct Injected;

fn checksum(msg: u64, serial: u32) -> u64 {
    mix(msg ^ (serial as u64) << 40)
}

impl Elem {
    fn make(by_policy: bool) -> Self {
        let _q = Quiet::new();
        let r = reg();
        let serial = r.infos.len() as u32;
        r.infos.push(Info {
            alive: true,
            held_by: None,
            used: Use::Clean,
            by_policy,
            recycled: 0,
            forgiven: false,
        });
        let e = Elem {
            magic: ALIVE,
            serial,
            epoch: st().epoch,
            msg: 0,
            check: checksum(0, serial),
            race: Obj::new(),
        };
        e.touch(true);
        e
    }

    /// A message made by the harness, to be sent by value.
    pub fn message(msg: u64) -> Self {
        let mut e = Self::make(false);
        e.msg = msg;
        e.check = checksum(msg, e.serial);
        reg().infos[e.serial as usize].used = Use::Used;
        e
    }

    fn touch(&self, write: bool) {
        let s = self.serial;
        sched::access(&self.race, write, || format!("element #{s}"));
    }

    /// Validates that this is a live element of this run.
    pub fn validate(&self, what: &str) {
        if self.magic != ALIVE || self.epoch != st().epoch {
            let state = if self.magic == DEAD { "already dropped" } else { "not an initialised element" };
            fail(
                "lifecycle",
                format!("{what}: {state} (magic {:#x}, serial {})", self.magic, self.serial),
            );
        }
        if !reg().infos.get(self.serial as usize).is_some_and(|i| i.alive) {
            fail("lifecycle", format!("{what}: element #{} is not alive", self.serial));
        }
    }

    /// Reads the message id, checking integrity.
    pub fn read(&self, what: &str) -> u64 {
        let _q = Quiet::new();
        self.validate(what);
        self.touch(false);
        if self.check != checksum(self.msg, self.serial) {
            fail("corrupt", format!("{what}: element #{} has torn contents", self.serial));
        }
        self.msg
    }

    /// Writes a message id in two steps with a scheduling point in between.
    pub fn write(&mut self, msg: u64, what: &str) {
        let _q = Quiet::new();
        self.validate(what);
        self.touch(true);
        self.msg = msg;
        sched::yield_point();
        self.touch(true);
        self.check = checksum(msg, self.serial);
        reg().infos[self.serial as usize].used = Use::Used;
    }

    pub fn info(&self) -> Info {
        reg().infos[self.serial as usize]
    }

    pub fn set_used(&self, u: Use) {
        reg().infos[self.serial as usize].used = u;
    }

    /// Exclusive borrow through a reference begins.
    pub fn hold(&self, what: &str) {
        let _q = Quiet::new();
        self.validate(what);
        let me = st().cur as u8;
        let i = &mut reg().infos[self.serial as usize];
        if let Some(o) = i.held_by {
            judge(
                "aliased",
                format!("{what}: task {me} was handed element #{} while task {o} still holds it", self.serial),
            );
        }
        i.held_by = Some(me);
        self.touch(true);
    }

    pub fn unhold(&self, what: &str) {
        let _q = Quiet::new();
        self.validate(what);
        self.touch(true);
        reg().infos[self.serial as usize].held_by = None;
    }

    fn reset_contents(&mut self) {
        let _q = Quiet::new();
        self.validate("recycling");
        self.touch(true);
        self.msg = 0;
        self.check = checksum(0, self.serial);
        let i = &mut reg().infos[self.serial as usize];
        if let Some(o) = i.held_by {
            judge("aliased", format!("element #{} recycled while task {o} holds it", self.serial));
        }
        i.used = Use::Clean;
        i.recycled += 1;
    }
}

fn count_new() {
    let r = reg();
    r.news += 1;
    if r.faults.new_at != 0 && r.news == r.faults.new_at {
        r.faults_hit += 1;
        let _q = Quiet::new();
        crate::sched::throw();
    }
}

fn count_recycle() {
    let r = reg();
    r.recycles += 1;
    if r.faults.recycle_at != 0 && r.recycles == r.faults.recycle_at {
        r.faults_hit += 1;
        let _q = Quiet::new();
        crate::sched::throw();
    }
}

impl Default for Elem {
    fn default() -> Self {
        count_new();
        Self::make(true)
    }
}

impl Clone for Elem {
    fn clone(&self) -> Self {
        let msg = self.read("clone");
        let mut e = Self::make(true);
        e.msg = msg;
        e.check = checksum(msg, e.serial);
        e
    }

    fn clone_from(&mut self, source: &Self) {
        let msg = source.read("clone_from");
        count_recycle();
        self.reset_contents();
        self.msg = msg;
        self.check = checksum(msg, self.serial);
    }
}

impl Drop for Elem {
    fn drop(&mut self) {
        let _q = Quiet::new();
        self.validate("drop");
        self.touch(true);
        let r = reg();
        let i = &mut r.infos[self.serial as usize];
        i.alive = false;
        r.drops += 1;
        // volatile, so that it is not optimised away
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}

/// Elements alive right now.
/// The program itself leaked this element.
pub fn forgive(serial: u32) {
    reg().infos[serial as usize].forgiven = true;
}

pub fn alive() -> Vec<u32> {
    reg()
        .infos
        .iter()
        .enumerate()
        .filter(|(_, i)| i.alive && !i.forgiven)
        .map(|(n, _)| n as u32)
        .collect()
}

/// A recycling policy that logs its calls.
#[derive(Debug)]
pub struct Rec;

impl Recycle<Elem> for Rec {
    fn new_element(&self) -> Elem {
        count_new();
        reg().rec_news += 1;
        Elem::make(true)
    }

    fn recycle(&self, element: &mut Elem) {
        count_recycle();
        element.reset_contents();
    }
}

impl std::fmt::Debug for Elem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Elem({})", self.msg)
    }
}

impl std::fmt::Display for Elem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.msg)
    }
}

/// `fmt::Write` parses digits as the message id.
impl std::fmt::Write for Elem {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let msg = s.parse().map_err(|_| std::fmt::Error)?;
        self.write(msg, "fmt::Write");
        Ok(())
    }
}
