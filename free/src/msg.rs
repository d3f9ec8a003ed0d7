//! Message types of many shapes, each able to carry (part of) a number and to
//! tell whether it is intact; all count how many of them exist.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BAD_DROPS: AtomicU64 = AtomicU64::new(0);

pub trait Msg: std::fmt::Debug + Default + Clone + Send + Sync + 'static {
    /// how many bits of the number survive
    const BITS: u32;
    const COUNTED: bool;
    const NAME: &'static str;
    fn put(&mut self, id: u64);
    fn get(&self) -> Result<u64, String>;
    fn is_default(&self) -> bool;
    fn make(id: u64) -> Self {
        let mut m = Self::default();
        m.put(id);
        m
    }
}

macro_rules! ints {
    ($($t:ident $bits:literal),*) => {$(
        impl Msg for $t {
            const BITS: u32 = $bits;
            const COUNTED: bool = false;
            const NAME: &'static str = stringify!($t);
            fn put(&mut self, id: u64) {
                *self = id as $t
            }
            fn get(&self) -> Result<u64, String> {
                Ok(*self as u64)
            }
            fn is_default(&self) -> bool {
                *self == 0
            }
        }
    )*};
}
ints!(u8 8, u16 16, u64 64, u128 64);

/// No size, no identity.
impl Msg for () {
    const BITS: u32 = 0;
    const COUNTED: bool = false;
    const NAME: &'static str = "()";
    fn put(&mut self, _: u64) {}
    fn get(&self) -> Result<u64, String> {
        Ok(0)
    }
    fn is_default(&self) -> bool {
        true
    }
}

/// No size, but it matters how often it is dropped.
#[derive(Debug)]
pub struct Token(());
impl Default for Token {
    fn default() -> Self {
        LIVE.fetch_add(1, Relaxed);
        Token(())
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        Token::default()
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
impl Msg for Token {
    const BITS: u32 = 0;
    const COUNTED: bool = true;
    const NAME: &'static str = "zero-sized with destructor";
    fn put(&mut self, _: u64) {}
    fn get(&self) -> Result<u64, String> {
        Ok(0)
    }
    fn is_default(&self) -> bool {
        true
    }
}

/// N words, all derived from the number; counts and checks its destruction.
#[derive(Debug)]
pub struct Words<const N: usize> {
    state: u64,
    w: [u64; N],
}
const ALIVE: u64 = 0x5eed_a11e_5eed_a11e;
const DEAD: u64 = 0xdead_dead_dead_dead;
impl<const N: usize> Default for Words<N> {
    fn default() -> Self {
        LIVE.fetch_add(1, Relaxed);
        Words { state: ALIVE, w: [0; N] }
    }
}
impl<const N: usize> Clone for Words<N> {
    fn clone(&self) -> Self {
        LIVE.fetch_add(1, Relaxed);
        Words { state: ALIVE, w: self.w }
    }
    fn clone_from(&mut self, o: &Self) {
        if self.state != ALIVE {
            BAD_DROPS.fetch_add(1, Relaxed);
        }
        self.w = o.w;
    }
}
impl<const N: usize> Drop for Words<N> {
    fn drop(&mut self) {
        let p = &mut self.state as *mut u64;
        unsafe {
            if p.read_volatile() != ALIVE {
                BAD_DROPS.fetch_add(1, Relaxed);
            }
            p.write_volatile(DEAD);
        }
        LIVE.fetch_sub(1, Relaxed);
    }
}
impl<const N: usize> Msg for Words<N> {
    const BITS: u32 = 64;
    const COUNTED: bool = true;
    const NAME: &'static str = "words";
    fn put(&mut self, id: u64) {
        for (i, w) in self.w.iter_mut().enumerate() {
            *w = id.wrapping_mul(i as u64 * 2 + 1);
        }
    }
    fn get(&self) -> Result<u64, String> {
        if self.state != ALIVE {
            return Err(format!("element is not alive (state {:#x})", self.state));
        }
        for (i, w) in self.w.iter().enumerate() {
            if *w != self.w[0].wrapping_mul(i as u64 * 2 + 1) {
                return Err(format!("torn contents: word 0 is {}, word {i} is {w}", self.w[0]));
            }
        }
        Ok(self.w[0])
    }
    fn is_default(&self) -> bool {
        self.w.iter().all(|w| *w == 0)
    }
}

/// Unusual alignment.
#[repr(align(256))]
#[derive(Debug, Default, Clone)]
pub struct Wide(u8, u64);
impl Msg for Wide {
    const BITS: u32 = 64;
    const COUNTED: bool = false;
    const NAME: &'static str = "256-byte aligned";
    fn put(&mut self, id: u64) {
        self.0 = id as u8;
        self.1 = id;
    }
    fn get(&self) -> Result<u64, String> {
        if (self as *const _ as usize) % 256 != 0 {
            return Err("misaligned element".into());
        }
        if self.0 != self.1 as u8 {
            return Err("torn contents".into());
        }
        Ok(self.1)
    }
    fn is_default(&self) -> bool {
        self.0 == 0 && self.1 == 0
    }
}

impl Msg for String {
    const BITS: u32 = 64;
    const COUNTED: bool = false;
    const NAME: &'static str = "String";
    fn put(&mut self, id: u64) {
        use std::fmt::Write;
        self.clear();
        write!(self, "{id}").unwrap();
    }
    fn get(&self) -> Result<u64, String> {
        if self.is_empty() {
            return Ok(0);
        }
        self.parse().map_err(|_| format!("corrupt string {self:?}"))
    }
    fn is_default(&self) -> bool {
        self.is_empty()
    }
}

/// Has a niche; owns memory.
impl Msg for Option<Box<(u64, u64)>> {
    const BITS: u32 = 64;
    const COUNTED: bool = false;
    const NAME: &'static str = "Option<Box>";
    fn put(&mut self, id: u64) {
        *self = Some(Box::new((id, !id)));
    }
    fn get(&self) -> Result<u64, String> {
        match self {
            None => Ok(0),
            Some(b) if b.1 == !b.0 => Ok(b.0),
            Some(b) => Err(format!("corrupt box {b:?}")),
        }
    }
    fn is_default(&self) -> bool {
        self.is_none()
    }
}
