//! Stands in for the crate of this name in build scripts: a nightly compiler must not make old
//! dependencies use features that no longer exist.
pub struct Channel;
impl Channel {
    pub fn read() -> Option<Channel> {
        Some(Channel)
    }
    pub fn supports_features(&self) -> bool {
        false
    }
    pub fn is_nightly(&self) -> bool {
        false
    }
}
pub fn supports_feature(_: &str) -> Option<bool> {
    Some(false)
}
pub fn is_feature_flaggable() -> Option<bool> {
    Some(false)
}
pub fn is_min_version(_: &str) -> Option<bool> {
    Some(true)
}
pub fn is_max_version(_: &str) -> Option<bool> {
    Some(false)
}
