//! color-eyre, except that it can be installed any number of times.
pub use real::*;

///The hooks would collect a backtrace for every error; the default ones do not.
pub fn install() -> Result<()> {
    Ok(())
}
