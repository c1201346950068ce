//! Helpers to drive weaver_forge: in-memory template loader, snippets, full generations.
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use weaver_forge::config::{Params, WeaverConfig};
use weaver_forge::error::Error;
use weaver_forge::file_loader::{FileContent, FileLoader};
use weaver_forge::{OutputProcessor, OutputTarget};

pub struct Mem(pub BTreeMap<String, String>);
impl FileLoader for Mem {
    fn root(&self) -> &Path { Path::new("mem") }
    fn all_files(&self) -> Vec<PathBuf> { self.0.keys().map(PathBuf::from).collect() }
    fn load_file(&self, file: &str) -> Result<Option<FileContent>, Error> {
        Ok(self.0.get(file).map(|c| FileContent { path: PathBuf::from(file), content: c.clone() }))
    }
}
pub fn config(yaml: &Value) -> WeaverConfig {
    serde_yaml::from_str(&serde_yaml::to_string(yaml).unwrap()).unwrap()
}
/// Renders one in-memory template over a context.
pub fn snippet(cfg: &Value, template: &str, ctx: &Value) -> Result<String, String> {
    let l = Mem([("s.j2".to_owned(), template.to_owned())].into());
    let p = OutputProcessor::from_template_config(config(cfg), l, Params::default(), OutputTarget::Stdout).map_err(|e| e.to_string())?;
    p.generate_snippet(ctx, ".", "s.j2".to_owned()).map_err(|e| e.to_string())
}
