//! Common environment: resources written to the (virtual) file system and loaded by the real code.
use crate::lib::verif_hooks::*;
use crate::lib::{DatasetMetadata, Entity, SharedResources};
use crate::rt::*;
use snips_nlu_ontology::*;
use std::collections::HashMap;
use std::sync::Arc;

pub struct Res<'a> {
    pub stop_words: &'a [&'a str],
    /// (stem, words)
    pub stems: &'a [(&'a str, &'a [&'a str])],
    pub gazetteers: &'a [(&'a str, &'a [&'a str])],
    pub clusters: &'a [(&'a str, &'a [(&'a str, &'a str)])],
}
pub const NO_RES: Res<'static> = Res { stop_words: &[], stems: &[], gazetteers: &[], clusters: &[] };

fn json_list(v: &[&str]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push('"');
        s.push_str(x);
        s.push('"');
    }
    s.push(']');
    s
}

/// writes the resources under `dir` and the entity parsers under `base`
pub fn write_resources(base: &str, r: &Res) {
    let dir = format!("{}/resources/en", base);
    let mut meta = String::from("{\"language\":\"en\"");
    if !r.stop_words.is_empty() {
        meta.push_str(",\"stop_words\":\"stop_words\"");
        let mut t = String::new();
        for w in r.stop_words {
            t.push_str(w);
            t.push('\n');
        }
        put(&format!("{}/stop_words.txt", dir), &t);
    }
    if !r.stems.is_empty() {
        meta.push_str(",\"stems\":\"stems\"");
        let mut t = String::new();
        for (s, ws) in r.stems {
            t.push_str(s);
            for w in ws.iter() {
                t.push(',');
                t.push_str(w);
            }
            t.push('\n');
        }
        put(&format!("{}/stemming/stems.txt", dir), &t);
    }
    if !r.gazetteers.is_empty() {
        let names: Vec<&str> = r.gazetteers.iter().map(|g| g.0).collect();
        meta.push_str(",\"gazetteers\":");
        meta.push_str(&json_list(&names));
        for (n, ws) in r.gazetteers {
            let mut t = String::new();
            for w in ws.iter() {
                t.push_str(w);
                t.push('\n');
            }
            put(&format!("{}/gazetteers/{}.txt", dir, n), &t);
        }
    }
    if !r.clusters.is_empty() {
        let names: Vec<&str> = r.clusters.iter().map(|g| g.0).collect();
        meta.push_str(",\"word_clusters\":");
        meta.push_str(&json_list(&names));
        for (n, ws) in r.clusters {
            let mut t = String::new();
            for (w, c) in ws.iter() {
                t.push_str(w);
                t.push('\t');
                t.push_str(c);
                t.push('\n');
            }
            put(&format!("{}/word_clusters/{}.txt", dir, n), &t);
        }
    }
    meta.push('}');
    put(&format!("{}/metadata.json", dir), &meta);
    put(
        &format!("{}/custom_entity_parser/metadata.json", base),
        "{\"language\":\"en\",\"parser_directory\":\"parser\",\"parser_usage\":1}",
    );
}

/// shared resources loaded by the repository's own loader
pub fn resources(r: &Res) -> Arc<SharedResources> {
    snips_nlu_parsers::env::reset();
    write_resources("res", r);
    let b = root().join("res");
    load_shared_resources(b.join("resources/en"), b.join("builtin_entity_parser"), b.join("custom_entity_parser"))
        .expect("resources")
}

pub fn entity(extensible: bool) -> Entity {
    Entity { automatically_extensible: extensible }
}

/// dataset: intents with (slot, entity), custom entities with their extensibility
pub fn dataset(intents: &[(&str, &[(&str, &str)])], entities: &[(&str, bool)]) -> DatasetMetadata {
    DatasetMetadata {
        language_code: "en".to_string(),
        entities: entities.iter().map(|(n, x)| (n.to_string(), entity(*x))).collect(),
        slot_name_mappings: intents
            .iter()
            .map(|(i, m)| {
                let m: HashMap<String, String> = m.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                (i.to_string(), m)
            })
            .collect(),
    }
}

pub fn intent(name: Option<&str>, score: f32) -> IntentClassifierResult {
    IntentClassifierResult { intent_name: name.map(|s| s.to_string()), confidence_score: score }
}

pub fn custom(s: &str) -> SlotValue {
    SlotValue::Custom(s.into())
}
pub fn number(v: f64) -> SlotValue {
    SlotValue::Number(NumberValue { value: v })
}

/// every slot is a non-empty part of the text, found where it says, in text order, without overlap
pub fn faithful(input: &str, slots: &[InternalSlot]) {
    let n = input.chars().count();
    for s in slots {
        check(s.char_range.start < s.char_range.end && s.char_range.end <= n, "a slot's range is a non-empty range of the text");
        check(s.value == input.chars().skip(s.char_range.start).take(s.char_range.end - s.char_range.start).collect::<String>(), "a slot's value is the text at its range");
    }
    for w in slots.windows(2) {
        check(w[0].char_range.end <= w[1].char_range.start, "slots come in text order and do not overlap");
    }
}
