//! Macros like the ones of `log`, remembering the messages of the programs.
pub use ::log::*;
pub static mut RECORD: bool = false;
/// (whether it is a warning or an error, text)
pub static mut MESSAGES: Vec<(bool, String)> = Vec::new();
pub fn push(warns: bool, text: String) { unsafe { MESSAGES.push((warns, text)); } }
macro_rules! says { ($($t:tt)*) => { if unsafe { crate::mlog::RECORD } { crate::mlog::push(false, format!($($t)*)) } } }
macro_rules! warns { ($($t:tt)*) => { if unsafe { crate::mlog::RECORD } { crate::mlog::push(true, format!($($t)*)) } } }
macro_rules! hides { ($($t:tt)*) => { if false { let _ = format!($($t)*); } } }
pub(crate) use {hides as debug, hides as trace, says as info, warns as error, warns as warn};
