//! Stand-in: the simulator installs its own panic hook, which this must not replace.
pub fn hook(_: &std::panic::PanicHookInfo) {}
pub fn set_once() {}
