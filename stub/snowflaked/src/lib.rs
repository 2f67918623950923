use std::time::{Duration, SystemTime, UNIX_EPOCH};
pub trait Snowflake: Sized { fn timestamp(&self) -> u64; }
impl Snowflake for u64 { fn timestamp(&self) -> u64 { *self >> 22 } }
impl Snowflake for i64 { fn timestamp(&self) -> u64 { (*self as u64) >> 22 } }
pub trait FromRaw { fn from_raw(v: u64) -> Self; }
impl FromRaw for u64 { fn from_raw(v: u64) -> Self { v } }
impl FromRaw for i64 { fn from_raw(v: u64) -> Self { v as i64 } }
pub mod sync {
    use super::*;
    use std::sync::atomic::{AtomicU64, Ordering};
    #[derive(Debug)]
    pub struct Generator { last: AtomicU64 }
    impl Generator {
        pub const fn new(_instance: u16) -> Self { Self { last: AtomicU64::new(0) } }
        pub fn generate<T: FromRaw>(&self) -> T {
            let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64;
            let base = now << 22;
            let mut cur = self.last.load(Ordering::SeqCst);
            loop {
                let next = if base > cur { base } else { cur + 1 };
                match self.last.compare_exchange(cur, next, Ordering::SeqCst, Ordering::SeqCst) {
                    Ok(_) => return T::from_raw(next),
                    Err(c) => cur = c,
                }
            }
        }
        pub fn epoch(&self) -> SystemTime { UNIX_EPOCH + Duration::ZERO }
    }
}
