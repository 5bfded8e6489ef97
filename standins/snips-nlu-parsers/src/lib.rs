//! Environment stand-in for snips-nlu-parsers 0.4.3 (not available offline): entity extraction is
//! whatever the harness scripts, so it can be an arbitrary (symbolic) answer within the documented
//! contract. Everything that calls these functions is the repository's own code.
use serde::Deserialize;
use snips_nlu_ontology::{BuiltinEntity, BuiltinEntityKind};
use std::marker::PhantomData;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// A global of the environment. It has no lock: it must not be a point at which threads are switched,
/// and the harness lets only one thread run at a time.
pub struct Global<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub const fn new(value: T) -> Self {
        Global(std::cell::UnsafeCell::new(value))
    }
    pub fn lock(&self) -> std::result::Result<&mut T, ()> {
        Ok(unsafe { &mut *self.0.get() })
    }
}
extern "C-unwind" {
    fn __v_sync_point(kind: usize);
}
fn sync_point() {
    unsafe { __v_sync_point(2) }
}

pub type Result<T> = std::result::Result<T, failure::Error>;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct GazetteerEntityMatch<T> {
    pub value: String,
    pub resolved_value: T,
    pub alternative_resolved_values: Vec<T>,
    pub range: Range<usize>,
    pub entity_identifier: String,
}

#[derive(Debug, Clone, Deserialize)]
pub struct BuiltinParserMetadata {
    pub language: String,
    pub gazetteer_parser: Option<String>,
}

#[derive(Debug, Clone, Deserialize)]
pub struct GazetteerParserMetadata {
    pub parsers_metadata: Vec<GazetteerEntityParserMetadata>,
}

#[derive(Debug, Clone, Deserialize)]
pub struct GazetteerEntityParserMetadata {
    pub entity_identifier: String,
    pub entity_parser: String,
}

/// What the harness plugs in behind the two parsers.
pub mod env {
    use super::*;

    pub type BuiltinScript =
        dyn Fn(&str, Option<&[BuiltinEntityKind]>, usize) -> Result<Vec<BuiltinEntity>> + Send + Sync;
    pub type CustomScript =
        dyn Fn(&str, Option<&[String]>, usize) -> Result<Vec<GazetteerEntityMatch<String>>> + Send + Sync;

    pub(crate) static BUILTIN: Global<Option<Arc<BuiltinScript>>> = Global::new(None);
    pub(crate) static CUSTOM: Global<Option<Arc<CustomScript>>> = Global::new(None);
    /// the dumps of gazetteer parsers succeed that many times, then fail
    pub static FAIL_DUMP: Global<Option<usize>> = Global::new(None);
    pub static DUMPS: Global<Vec<gazetteer_entity_parser::Parser>> = Global::new(vec![]);

    pub fn script_builtin(script: Arc<BuiltinScript>) {
        *BUILTIN.lock().unwrap() = Some(script);
    }
    pub fn script_custom(script: Arc<CustomScript>) {
        *CUSTOM.lock().unwrap() = Some(script);
    }
    pub fn reset() {
        *BUILTIN.lock().unwrap() = None;
        *CUSTOM.lock().unwrap() = None;
        *FAIL_DUMP.lock().unwrap() = None;
        DUMPS.lock().unwrap().clear();
    }
}

pub struct BuiltinEntityParser {
    _path: PathBuf,
}

impl BuiltinEntityParser {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self> {
        Ok(BuiltinEntityParser { _path: path.as_ref().to_path_buf() })
    }
    pub fn extract_entities(
        &self,
        sentence: &str,
        filter_entity_kinds: Option<&[BuiltinEntityKind]>,
        max_alternative_resolved_values: usize,
    ) -> Result<Vec<BuiltinEntity>> {
        sync_point();
        let script = env::BUILTIN.lock().unwrap().clone();
        match script {
            Some(script) => script(sentence, filter_entity_kinds, max_alternative_resolved_values),
            None => Ok(vec![]),
        }
    }
}

pub struct GazetteerParser<V> {
    _path: PathBuf,
    _marker: PhantomData<V>,
}

impl GazetteerParser<String> {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self> {
        Ok(GazetteerParser { _path: path.as_ref().to_path_buf(), _marker: PhantomData })
    }
    pub fn extract_entities(
        &self,
        sentence: &str,
        filter_entity_kinds: Option<&[String]>,
        max_alternative_resolved_values: usize,
    ) -> Result<Vec<GazetteerEntityMatch<String>>> {
        sync_point();
        let script = env::CUSTOM.lock().unwrap().clone();
        match script {
            Some(script) => script(sentence, filter_entity_kinds, max_alternative_resolved_values),
            None => Ok(vec![]),
        }
    }
}

/// Gazetteer entity parser: a folder with one file, the number of a dump. The values of each dump are
/// kept in memory, so that they can be symbolic.
pub mod gazetteer_entity_parser {
    use super::{env, Result};
    use std::fs;
    use std::path::Path;

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct EntityValue {
        pub raw_value: String,
        pub resolved_value: String,
    }

    #[derive(Debug, Clone, PartialEq)]
    pub struct Parser {
        pub injected: Vec<EntityValue>,
        pub vanilla: Vec<EntityValue>,
    }

    impl Parser {
        pub fn from_folder<P: AsRef<Path>>(folder: P) -> Result<Self> {
            let id: usize = fs::read_to_string(folder.as_ref().join("parser"))?.parse()?;
            let dumps = env::DUMPS.lock().unwrap();
            dumps.get(id).cloned().ok_or_else(|| failure::format_err!("invalid parser"))
        }

        pub fn inject_new_values(
            &mut self,
            new_values: Vec<EntityValue>,
            prepend: bool,
            from_vanilla: bool,
        ) -> Result<()> {
            let previous =
                if from_vanilla { vec![] } else { std::mem::replace(&mut self.injected, vec![]) };
            self.injected = if prepend {
                new_values.into_iter().chain(previous).collect()
            } else {
                previous.into_iter().chain(new_values).collect()
            };
            Ok(())
        }

        pub fn dump<P: AsRef<Path>>(&self, folder: P) -> Result<()> {
            match env::FAIL_DUMP.lock().unwrap().as_mut() {
                Some(0) => return Err(failure::format_err!("cannot write gazetteer parser")),
                Some(n) => *n -= 1,
                None => (),
            }
            fs::create_dir(folder.as_ref())?;
            let mut dumps = env::DUMPS.lock().unwrap();
            fs::write(&folder.as_ref().join("parser"), format!("{}", dumps.len()))?;
            dumps.push(self.clone());
            Ok(())
        }
    }
}
