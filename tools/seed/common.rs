//! Model and resources in a scratch folder, loaded by the real code.
#![allow(dead_code, unused_imports)]
pub use snips_nlu_lib::verif_hooks::*;
pub use snips_nlu_lib::*;
pub use snips_nlu_ontology::*;
pub use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
pub use std::collections::{HashMap, HashSet};
pub use std::ops::Range;
pub use std::path::PathBuf;
pub use std::sync::{Arc, Mutex};

pub fn root() -> PathBuf {
    std::env::current_dir().unwrap()
}
pub fn put(rel: &str, content: &str) -> PathBuf {
    let p = root().join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, content).unwrap();
    p
}
pub fn builtin(r: Range<usize>, kind: BuiltinEntityKind, v: f64) -> BuiltinEntity {
    BuiltinEntity { value: "v".to_string(), range: r, entity: number(v), alternatives: vec![], entity_kind: kind }
}
pub fn gazetteer(r: Range<usize>, id: &str, value: &str, resolved: &str) -> GazetteerEntityMatch<String> {
    GazetteerEntityMatch {
        value: value.to_string(),
        resolved_value: resolved.to_string(),
        alternative_resolved_values: vec![],
        range: r,
        entity_identifier: id.to_string(),
    }
}
/// finds `value` wherever the (cleaned, lower-case) text has it
pub fn script_gazetteer(words: &'static [(&'static str, &'static str)]) {
    pe::script_custom(Arc::new(move |t: &str, scope: Option<&[String]>, _: usize| {
        let mut v = vec![];
        for (entity, word) in words.iter() {
            if !scope.map(|s| s.iter().any(|x| x == entity)).unwrap_or(true) {
                continue;
            }
            for (b, _) in t.match_indices(word) {
                let a = t[..b].chars().count();
                v.push(gazetteer(a..a + word.chars().count(), entity, word, word));
            }
        }
        Ok(v)
    }));
}
type ParseFn = dyn Fn(&str, Option<&[&str]>) -> Result<InternalParsingResult> + Send + Sync;
type IntentsFn = dyn Fn(&str) -> Result<Vec<IntentClassifierResult>> + Send + Sync;
type SlotsFn = dyn Fn(&str, &str) -> Result<Vec<InternalSlot>> + Send + Sync;
pub struct Scripted {
    pub parse: Box<ParseFn>,
    pub intents: Box<IntentsFn>,
    pub slots: Box<SlotsFn>,
}
impl IntentParser for Scripted {
    fn parse(&self, input: &str, intents_whitelist: Option<&[&str]>) -> Result<InternalParsingResult> {
        (self.parse)(input, intents_whitelist)
    }
    fn get_intents(&self, input: &str) -> Result<Vec<IntentClassifierResult>> {
        (self.intents)(input)
    }
    fn get_slots(&self, input: &str, intent: &str) -> Result<Vec<InternalSlot>> {
        (self.slots)(input, intent)
    }
}
/// a parser that always answers the same
pub fn fixed(name: Option<&'static str>, score: f32, intents: Vec<(Option<&'static str>, f32)>) -> Box<dyn IntentParser> {
    Box::new(Scripted {
        parse: Box::new(move |_: &str, _: Option<&[&str]>| Ok(internal_parsing_result(name.map(|s| s.to_string()), score, vec![]))),
        intents: Box::new(move |_: &str| Ok(intents.iter().map(|(n, s)| intent(*n, *s)).collect())),
        slots: Box::new(|_: &str, _: &str| Ok(vec![])),
    }) as _
}
pub fn slot(value: &str, r: Range<usize>, entity: &str, name: &str) -> InternalSlot {
    InternalSlot { value: value.to_string(), char_range: r, entity: entity.to_string(), slot_name: name.to_string() }
}

pub struct Res<'a> {
    pub stop_words: &'a [&'a str],
    /// (stem, words)
    pub stems: &'a [(&'a str, &'a [&'a str])],
    pub gazetteers: &'a [(&'a str, &'a [&'a str])],
    pub clusters: &'a [(&'a str, &'a [(&'a str, &'a str)])],
}
pub const NO_RES: Res<'static> = Res { stop_words: &[], stems: &[], gazetteers: &[], clusters: &[] };

fn json_list(v: &[&str]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push('"');
        s.push_str(x);
        s.push('"');
    }
    s.push(']');
    s
}

/// writes the resources under `dir` and the entity parsers under `base`
pub fn write_resources(base: &str, r: &Res) {
    let dir = format!("{}/resources/en", base);
    let mut meta = String::from("{\"language\":\"en\"");
    if !r.stop_words.is_empty() {
        meta.push_str(",\"stop_words\":\"stop_words\"");
        let mut t = String::new();
        for w in r.stop_words {
            t.push_str(w);
            t.push('\n');
        }
        put(&format!("{}/stop_words.txt", dir), &t);
    }
    if !r.stems.is_empty() {
        meta.push_str(",\"stems\":\"stems\"");
        let mut t = String::new();
        for (s, ws) in r.stems {
            t.push_str(s);
            for w in ws.iter() {
                t.push(',');
                t.push_str(w);
            }
            t.push('\n');
        }
        put(&format!("{}/stemming/stems.txt", dir), &t);
    }
    if !r.gazetteers.is_empty() {
        let names: Vec<&str> = r.gazetteers.iter().map(|g| g.0).collect();
        meta.push_str(",\"gazetteers\":");
        meta.push_str(&json_list(&names));
        for (n, ws) in r.gazetteers {
            let mut t = String::new();
            for w in ws.iter() {
                t.push_str(w);
                t.push('\n');
            }
            put(&format!("{}/gazetteers/{}.txt", dir, n), &t);
        }
    }
    if !r.clusters.is_empty() {
        let names: Vec<&str> = r.clusters.iter().map(|g| g.0).collect();
        meta.push_str(",\"word_clusters\":");
        meta.push_str(&json_list(&names));
        for (n, ws) in r.clusters {
            let mut t = String::new();
            for (w, c) in ws.iter() {
                t.push_str(w);
                t.push('\t');
                t.push_str(c);
                t.push('\n');
            }
            put(&format!("{}/word_clusters/{}.txt", dir, n), &t);
        }
    }
    meta.push('}');
    put(&format!("{}/metadata.json", dir), &meta);
    put(
        &format!("{}/custom_entity_parser/metadata.json", base),
        "{\"language\":\"en\",\"parser_directory\":\"parser\",\"parser_usage\":1}",
    );
}

/// shared resources loaded by the repository's own loader
pub fn resources(r: &Res) -> Arc<SharedResources> {
    snips_nlu_parsers::env::reset();
    write_resources("res", r);
    let b = root().join("res");
    load_shared_resources(b.join("resources/en"), b.join("builtin_entity_parser"), b.join("custom_entity_parser"))
        .expect("resources")
}

pub fn entity(extensible: bool) -> Entity {
    Entity { automatically_extensible: extensible }
}

/// dataset: intents with (slot, entity), custom entities with their extensibility
pub fn dataset(intents: &[(&str, &[(&str, &str)])], entities: &[(&str, bool)]) -> DatasetMetadata {
    DatasetMetadata {
        language_code: "en".to_string(),
        entities: entities.iter().map(|(n, x)| (n.to_string(), entity(*x))).collect(),
        slot_name_mappings: intents
            .iter()
            .map(|(i, m)| {
                let m: HashMap<String, String> = m.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                (i.to_string(), m)
            })
            .collect(),
    }
}

pub fn intent(name: Option<&str>, score: f32) -> IntentClassifierResult {
    IntentClassifierResult { intent_name: name.map(|s| s.to_string()), confidence_score: score }
}

pub fn custom(s: &str) -> SlotValue {
    SlotValue::Custom(s.into())
}
pub fn number(v: f64) -> SlotValue {
    SlotValue::Number(NumberValue { value: v })
}

/// where the environment could pass control to another thread
#[no_mangle]
pub extern "C" fn __v_sync_point() {}
