//! Environment stand-in for crfsuite-rs 0.3.3 (not available offline): the tagger answers what the
//! harness scripts, and records the features it was given.
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// A global of the environment. It has no lock: it must not be a point at which threads are switched,
/// and the harness lets only one thread run at a time.
pub struct Global<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub const fn new(value: T) -> Self {
        Global(std::cell::UnsafeCell::new(value))
    }
    pub fn lock(&self) -> std::result::Result<&mut T, ()> {
        Ok(unsafe { &mut *self.0.get() })
    }
}
extern "C-unwind" {
    fn __v_sync_point(kind: usize);
}
fn sync_point() {
    unsafe { __v_sync_point(2) }
}

pub type Result<T> = std::result::Result<T, failure::Error>;

#[derive(Debug, Clone, PartialEq)]
pub struct Attribute {
    pub name: String,
    pub value: f64,
}
impl Attribute {
    pub fn new<T: Into<String>>(name: T, value: f64) -> Self {
        Attribute { name: name.into(), value }
    }
}
impl<'a> From<&'a (String, String)> for Attribute {
    fn from(pair: &'a (String, String)) -> Self {
        Attribute { name: format!("{}:{}", pair.0, pair.1), value: 1.0 }
    }
}

pub mod env {
    use super::*;
    pub type TagScript = dyn Fn(usize) -> Vec<String> + Send + Sync;
    pub(crate) static TAG: Global<Option<Arc<TagScript>>> = Global::new(None);
    /// instead of the above: what the answers are, given the features
    pub type ModelTags = dyn Fn(&[Vec<Attribute>]) -> Vec<String> + Send + Sync;
    pub type ModelProbability = dyn Fn(&[Vec<Attribute>], &[String]) -> f64 + Send + Sync;
    pub(crate) static MODEL: Global<Option<(Arc<ModelTags>, Arc<ModelProbability>)>> = Global::new(None);
    pub(crate) static LABELS: Global<Vec<String>> = Global::new(Vec::new());
    pub(crate) static PROBABILITY: Global<f64> = Global::new(0.0);
    pub static LAST_FEATURES: Global<Vec<Vec<Attribute>>> = Global::new(Vec::new());
    pub static LAST_TAGS: Global<Vec<String>> = Global::new(Vec::new());

    pub fn script_tag(script: Arc<TagScript>) {
        *TAG.lock().unwrap() = Some(script);
    }
    pub fn script_model(tags: Arc<ModelTags>, probability: Arc<ModelProbability>) {
        *MODEL.lock().unwrap() = Some((tags, probability));
    }
    pub fn reset() {
        *TAG.lock().unwrap() = None;
        *MODEL.lock().unwrap() = None;
        LABELS.lock().unwrap().clear();
    }
    pub fn script_labels(labels: Vec<String>, probability: f64) {
        *LABELS.lock().unwrap() = labels;
        *PROBABILITY.lock().unwrap() = probability;
    }
}

/// can be given to another thread, but not be used by two at a time
pub struct Tagger {
    _path: PathBuf,
    /// the items set for `probability`
    items: std::cell::RefCell<Vec<Vec<Attribute>>>,
}

fn items<'a, A>(xseq: &'a [Vec<A>]) -> Vec<Vec<Attribute>>
where
    &'a A: Into<Attribute>,
{
    xseq.iter().map(|item| item.iter().map(|a| a.into()).collect()).collect()
}

impl Tagger {
    pub fn create_from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
        std::fs::File::open(path.as_ref())?;
        Ok(Tagger { _path: path.as_ref().to_path_buf(), items: Default::default() })
    }
    pub fn tag<'a, A>(&self, xseq: &'a [Vec<A>]) -> Result<Vec<String>>
    where
        &'a A: Into<Attribute>,
    {
        sync_point();
        let items = items(xseq);
        *env::LAST_FEATURES.lock().unwrap() = items.clone();
        // tagging sets the items too
        *self.items.borrow_mut() = items;
        sync_point();
        if let Some((tags, _)) = env::MODEL.lock().unwrap().clone() {
            return Ok(tags(&self.items.borrow()));
        }
        let script = env::TAG.lock().unwrap().clone();
        match script {
            Some(script) => Ok(script(xseq.len())),
            None => Err(failure::format_err!("no model")),
        }
    }
    pub fn labels(&self) -> Result<Vec<String>> {
        Ok(env::LABELS.lock().unwrap().clone())
    }
    pub fn set<'a, A>(&self, xseq: &'a [Vec<A>]) -> Result<()>
    where
        &'a A: Into<Attribute>,
    {
        sync_point();
        let items = items(xseq);
        *env::LAST_FEATURES.lock().unwrap() = items.clone();
        *self.items.borrow_mut() = items;
        Ok(())
    }
    /// Probability of a label sequence: an error unless every label is a label of the model and
    /// there is one per item.
    pub fn probability<T: AsRef<str>>(&self, tags: &[T]) -> Result<f64> {
        sync_point();
        let tags: Vec<String> = tags.iter().map(|t| t.as_ref().to_string()).collect();
        let labels = env::LABELS.lock().unwrap().clone();
        if tags.iter().any(|t| !labels.contains(t)) {
            return Err(failure::format_err!("unknown label"));
        }
        if tags.len() != self.items.borrow().len() {
            return Err(failure::format_err!("length mismatch"));
        }
        if let Some((_, probability)) = env::MODEL.lock().unwrap().clone() {
            return Ok(probability(&self.items.borrow(), &tags));
        }
        *env::LAST_TAGS.lock().unwrap() = tags;
        Ok(*env::PROBABILITY.lock().unwrap())
    }
    pub fn marginal<T: AsRef<str>>(&self, _tag: T, _position: i32) -> Result<f64> {
        Ok(*env::PROBABILITY.lock().unwrap())
    }
}
