use super::*;
/// Debug text of the merge of these files, weakest first; None if the load is refused
pub fn load_files(files: &[PathBuf]) -> Option<String> {
    Manager::load(files).ok().map(|c| format!("{c:?}"))
}
/// Debug text of the configuration a daemon started with / without -c uses
pub fn effective(explicit: Option<&str>) -> Option<String> {
    Manager::new(explicit).ok().map(|m| format!("{:?}", *m.get()))
}
