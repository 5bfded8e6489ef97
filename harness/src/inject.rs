//! Entity injection.
use crate::env::*;
use crate::lib::injection::NluInjector;
use crate::lib::verif_hooks::load_engine_shared_resources;
use crate::rt::*;
use failure::Fail;
use snips_nlu_parsers::env as pe;
use snips_nlu_parsers::gazetteer_entity_parser::{EntityValue, Parser};

const CUSTOM: &str = "engine/custom";
const BUILTIN: &str = "engine/builtin";

fn value(raw: &str, resolved: &str) -> EntityValue {
    EntityValue { raw_value: raw.to_string(), resolved_value: resolved.to_string() }
}

fn metadata(entities: &[(&str, &str)]) -> String {
    let v: Vec<String> =
        entities.iter().map(|(e, p)| format!("{{\"entity_identifier\":\"{}\",\"entity_parser\":\"{}\"}}", e, p)).collect();
    format!("{{\"parsers_metadata\":[{}]}}", v.join(","))
}

/// (folder, entity) of every gazetteer parser of the engine
const PARSERS: [(&str, &str); 4] = [
    ("engine/custom/parser/p1", "e"),
    ("engine/custom/parser/p2", "eo"),
    ("engine/builtin/gazetteer/p1", "snips/musicArtist"),
    ("engine/builtin/gazetteer/p2", "snips/musicTrack"),
];

/// writes the engine; returns the state of its parsers
fn write_engine(usage: usize, stemmer: bool, gazetteer: bool) -> Vec<Parser> {
    pe::reset();
    let res = Res { stems: if stemmer { &[("x", &["b", "c"])] } else { &[] }, ..NO_RES };
    write_resources("engine", &res);
    put(
        "engine/nlu_engine.json",
        "{\"dataset_metadata\":{\"language_code\":\"en\",\"entities\":{\"e\":{\"automatically_extensible\":true},\"f\":{\"automatically_extensible\":true}},\"slot_name_mappings\":{}},\
         \"intent_parsers\":[],\"model_version\":\"0.20.0\",\"training_package_version\":\"0.20.0\",\"builtin_entity_parser\":\"builtin\",\"custom_entity_parser\":\"custom\"}",
    );
    put(
        &format!("{}/metadata.json", CUSTOM),
        &format!("{{\"language\":\"en\",\"parser_directory\":\"parser\",\"parser_usage\":{}}}", usage),
    );
    put(&format!("{}/parser/metadata.json", CUSTOM), &metadata(&[("eo", "p2"), ("e", "p1")]));
    put(
        &format!("{}/metadata.json", BUILTIN),
        if gazetteer { "{\"language\":\"en\",\"gazetteer_parser\":\"gazetteer\"}" } else { "{\"language\":\"en\",\"gazetteer_parser\":null}" },
    );
    put(
        &format!("{}/gazetteer/metadata.json", BUILTIN),
        &metadata(&[("snips/musicArtist", "p1"), ("snips/musicTrack", "p2")]),
    );
    let mut all = vec![];
    for (i, (folder, _)) in PARSERS.iter().enumerate() {
        let p = Parser {
            injected: vec![value(&format!("old{}", i), "Old")],
            vanilla: vec![value(&format!("vanilla{}", i), "Vanilla")],
        };
        p.dump(root().join(folder)).expect("dump");
        all.push(p);
    }
    all
}

/// the values in each parser, and nothing else beside the parsers
fn check_state(expected: &[Parser], label: &str, files: &str) {
    for ((folder, _), p) in PARSERS.iter().zip(expected) {
        let found = Parser::from_folder(root().join(folder));
        check(found.is_ok() && found.unwrap() == *p, label);
    }
    for (folder, n) in [("engine/custom/parser", 3), ("engine/builtin/gazetteer", 3), ("engine", 5)].iter() {
        check(std::fs::read_dir(root().join(folder)).unwrap().count() == *n, files);
    }
}

fn stem(word: &str) -> String {
    if word == "b" || word == "c" {
        "x".to_string()
    } else {
        word.to_string()
    }
}

/// the values an injected text stands for
fn values_of(texts: &[String], custom: bool, usage: usize) -> Vec<EntityValue> {
    let plain: Vec<EntityValue> = texts.iter().map(|t| value(&t.to_lowercase(), t)).collect();
    if !custom {
        return plain;
    }
    let stems: Vec<EntityValue> = texts
        .iter()
        .map(|t| {
            let words: Vec<String> =
                t.to_lowercase().split(|c| c == ' ' || c == ',').filter(|w| !w.is_empty()).map(stem).collect();
            value(&words.join(" "), t)
        })
        .collect();
    let all = match usage {
        0 => stems,
        1 => plain,
        _ => plain.into_iter().chain(stems).collect(),
    };
    if usage == 0 {
        return all;
    }
    let mut out: Vec<EntityValue> = vec![];
    for v in all {
        if !out.contains(&v) {
            out.push(v);
        }
    }
    out
}

fn text(name: &str) -> String {
    let mut s = any_text(name, 1, &[('A', 'D'), ('a', 'd'), ('É', 'Ê')]);
    match choose(&format!("{}.shape", name), bound(2, 3)) {
        0 => (),
        1 => s.push_str(&any_text(&format!("{}.2", name), 1, &[('a', 'c')])),
        _ => {
            s.push_str([", ", " "][choose(&format!("{}.sep", name), 2)]);
            s.push_str(&any_text(&format!("{}.2", name), 1, &[('a', 'c')]));
        }
    }
    s
}

/// injects and records the values in `state`
fn inject(state: &mut Vec<Parser>, usage: usize, own: bool, from_vanilla: bool, values: &[(usize, Vec<String>)]) {
    let mut injector = NluInjector::new(root().join("engine")).from_vanilla(from_vanilla);
    if !own {
        injector = injector.shared_resources(load_engine_shared_resources(root().join("engine")).expect("resources"));
    }
    for (target, texts) in values {
        for t in texts {
            injector = injector.add_value(PARSERS[*target].1.to_string(), t.clone());
        }
    }
    check(injector.inject().is_ok(), "injecting values of injectable entities succeeds");
    for (target, texts) in values {
        let mut v = values_of(texts, *target == 0, usage);
        if !from_vanilla {
            v.extend(state[*target].injected.clone());
        }
        state[*target].injected = v;
    }
    check_state(state, "the parsers hold the injected values before the previous ones", "nothing is left beside the parsers");
}

/// Injected values come first, previous ones are kept (or dropped with from_vanilla)
pub fn c20_values() {
    expect(&["stems", "no stems", "plain and stems", "builtin", "from vanilla", "resources of the engine"]);
    choose_map_order();
    let usage = choose("usage", 3);
    let own = choose_bool("own resources");
    let mut state = write_engine(usage, true, true);
    let n = 1 + choose("values", 2);
    let target = [0, 2][choose("entity", 2)];
    let from_vanilla = choose_bool("from vanilla");
    let mut values = vec![(target, (0..n).map(|_| text("value")).collect::<Vec<String>>())];
    if choose_bool("both") {
        values.push((2 - target, vec!["Dd".to_string()]));
    }
    inject(&mut state, usage, own, from_vanilla, &values);
    cover_if(target == 2, "builtin");
    cover_if(from_vanilla, "from vanilla");
    cover_if(own, "resources of the engine");
    cover(["stems", "no stems", "plain and stems"][usage]);
}

/// The same over several injections
pub fn c20_history() {
    expect(&["again", "from vanilla", "repeated value"]);
    map_order(0);
    let usage = 1 + choose("usage", 2);
    let mut state = write_engine(usage, true, true);
    let mut before: Option<(usize, String)> = None;
    for _ in 0..bound(3, 4) {
        let target = [0, 2][choose("entity", 2)];
        let from_vanilla = choose_bool("from vanilla");
        let t = any_text("value", 1, &[('A', 'C')]);
        inject(&mut state, usage, true, from_vanilla, &[(target, vec![t.clone()])]);
        cover_if(from_vanilla, "from vanilla");
        if let Some((b, u)) = before {
            cover_if(b == target, "again");
            cover_if(b == target && u == t && !from_vanilla, "repeated value");
        }
        before = Some((target, t));
    }
}

/// A refused injection changes nothing
pub fn c20_refused() {
    expect(&["not injectable", "no stemmer", "no gazetteer", "invalid metadata", "accepted"]);
    choose_map_order();
    let usage = choose("usage", 3);
    let stemmer = choose_bool("stemmer");
    let gazetteer = choose_bool("gazetteer");
    let mut state = write_engine(usage, stemmer, gazetteer);
    const NAMES: [&str; 8] =
        ["e", "snips/musicArtist", "f", "eo", "snips/number", "snips/city", "z", "snips/musicTrack"];
    let name = NAMES[choose("entity", NAMES.len())];
    let with = [None, Some("e"), Some("snips/musicArtist")][choose("with", 3)];
    let resources = load_engine_shared_resources(root().join("engine")).expect("resources");
    let broken = choose("broken", 4);
    match broken {
        1 => drop(put("engine/nlu_engine.json", "{}")),
        2 => drop(put(&format!("{}/metadata.json", CUSTOM), "{\"language\":\"en\"}")),
        3 => drop(put(&format!("{}/metadata.json", BUILTIN), "[")),
        _ => (),
    }
    let t = text("value");
    let mut injector = NluInjector::new(root().join("engine"))
        .shared_resources(resources)
        .add_value(name.to_string(), t.clone());
    if let Some(w) = with {
        injector = injector.add_value(w.to_string(), "D".to_string());
    }
    let result = injector.inject();
    let ok = |n: &str| match n {
        "e" => Ok(usage == 1 || stemmer),
        "snips/musicArtist" | "snips/musicTrack" => {
            if gazetteer {
                Ok(true)
            } else {
                Err(())
            }
        }
        _ => Err(()),
    };
    let all: Vec<Result<bool, ()>> = std::iter::once(name).chain(with).map(|n| ok(n)).collect();
    if broken > 0 {
        check(result.is_err(), "invalid metadata is refused");
        check(result.err().unwrap().cause().is_some(), "the error tells what was wrong with it");
        cover("invalid metadata");
    } else if all.iter().any(|a| a.is_err()) {
        let refused = match result {
            Err(ref e) => e.to_string().starts_with("Entity is not injectable"),
            Ok(()) => false,
        };
        check(refused, "an entity that cannot be injected is refused as such");
        cover("not injectable");
        cover_if(!gazetteer && name == "snips/musicArtist", "no gazetteer");
    } else if all.iter().any(|a| *a == Ok(false)) {
        check(result.is_err(), "stems cannot be injected without a stemmer");
        cover("no stemmer");
    } else {
        check(result.is_ok(), "an injectable entity is accepted");
        cover("accepted");
        let mut texts: Vec<(&str, Vec<String>)> = vec![(name, vec![t])];
        if let Some(w) = with {
            if w == name {
                texts[0].1.push("D".to_string());
            } else {
                texts.push((w, vec!["D".to_string()]));
            }
        }
        for (n, ts) in texts {
            let i = PARSERS.iter().position(|p| p.1 == n).unwrap();
            let mut v = values_of(&ts, i == 0, usage);
            v.extend(state[i].injected.clone());
            state[i].injected = v;
        }
    }
    check_state(&state, "a refused injection changes nothing", "nothing is left beside the parsers");
}

/// An entity keeps its values when its new parser cannot be written
pub fn c20_failing() {
    expect(&["failed", "failed after one"]);
    choose_map_order();
    let state = write_engine(1, false, true);
    let t = text("value");
    let allowed = choose("dumps", 2);
    *pe::FAIL_DUMP.lock().unwrap() = Some(allowed);
    let mut injector = NluInjector::new(root().join("engine")).add_value("e".to_string(), t.clone());
    let both = choose_bool("both");
    if both {
        injector = injector.add_value("snips/musicArtist".to_string(), t.clone());
    }
    let result = injector.inject();
    *pe::FAIL_DUMP.lock().unwrap() = None;
    check(result.is_ok() == (allowed > both as usize), "a failure to write is reported");
    let mut done = 0;
    for (i, (folder, _)) in PARSERS.iter().enumerate() {
        let found = Parser::from_folder(root().join(folder));
        check(found.is_ok(), "every parser can still be loaded");
        let found = found.unwrap();
        let mut new = state[i].clone();
        new.injected.insert(0, value(&t.to_lowercase(), &t));
        if found == new {
            check(i == 0 || (both && i == 2), "only the injected entities change");
            done += 1;
        } else {
            check(found == state[i], "an entity whose parser could not be written keeps its values");
        }
    }
    check(done == if both { allowed } else { allowed.min(1) }, "the parsers that could be written are updated");
    cover_if(result.is_err(), "failed");
    cover_if(done == 1 && result.is_err(), "failed after one");
}

/// Many values, long ones, over and over
pub fn c20_many() {
    let usage = choose("usage", 3);
    let mut state = write_engine(usage, true, true);
    let n = bound(300, 1000);
    let values: Vec<String> = (0..n).map(|i| format!("V{}É", i)).collect();
    let target = [0, 2][choose("entity", 2)];
    inject(&mut state, usage, true, false, &[(target, values)]);
    inject(&mut state, usage, true, choose_bool("from vanilla"), &[(target, vec!["Lé ".repeat(100).trim().to_string()]), (2 - target, vec!["x".to_string(); 1])]);
}
