//! Requests at the same time: two threads use one engine, or one of its parts.
use crate::env::*;
use crate::lib::verif_hooks::*;
use crate::lib::{CRFSlotFiller, SlotFiller, SnipsNluEngine, MODEL_VERSION};
use crate::model::*;
use crate::rt::*;
use crfsuite::Attribute;
use snips_nlu_ontology::*;
use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
use snips_nlu_utils::language::Language as L;
use snips_nlu_utils::token::tokenize;
use std::sync::Arc;

/// a tagger whose answers depend on the items it is given
fn script_tagger() {
    fn tag(item: &[Attribute]) -> String {
        base64::encode(if item.iter().any(|a| a.name == "ngram_1:b") { "B-s" } else { "O" })
    }
    crfsuite::env::reset();
    crfsuite::env::script_labels(["O", "B-s"].iter().map(|l| base64::encode(l)).collect(), 0.);
    crfsuite::env::script_model(
        Arc::new(|items: &[Vec<Attribute>]| items.iter().map(|i| tag(i)).collect()),
        Arc::new(|items: &[Vec<Attribute>], tags: &[String]| {
            let mut p = 1.;
            for (i, t) in items.iter().zip(tags.iter()) {
                p *= if tag(i) == *t { 0.75 } else { 0.125 };
            }
            p
        }),
    );
}

fn filler() -> CRFSlotFiller {
    let shared = resources(&NO_RES);
    put(
        "filler/slot_filler.json",
        "{\"language_code\":\"en\",\"intent\":\"A\",\"slot_name_mapping\":{\"s\":\"e\"},\"crf_model_file\":\"model.crfsuite\",\"config\":{\"tagging_scheme\":1,\"feature_factory_configs\":[{\"factory_name\":\"ngram\",\"offsets\":[0],\"args\":{\"n\":1,\"use_stemming\":false,\"common_words_gazetteer_name\":null}}]}}",
    );
    put("filler/model.crfsuite", "x");
    CRFSlotFiller::from_path(root().join("filler"), shared).expect("slot filler")
}

const TEXTS: [&str; 3] = ["b a", "a b", "é b b"];

#[derive(Clone, Copy)]
enum Tagging {
    Slots(usize),
    Probability(usize, usize),
}
fn any_tagging(name: &str) -> Tagging {
    let t = choose(&format!("{}.text", name), 3);
    match choose(&format!("{}.request", name), 3) {
        0 => Tagging::Slots(t),
        k => Tagging::Probability(t, k - 1),
    }
}
fn tagging(f: &CRFSlotFiller, t: Tagging) -> (Vec<InternalSlot>, f64) {
    match t {
        Tagging::Slots(t) => (f.get_slots(TEXTS[t]).expect("slots"), 0.),
        Tagging::Probability(t, first) => {
            let tokens = tokenize(TEXTS[t], L::EN);
            let tags = (0..tokens.len()).map(|i| if i == first { "B-s" } else { "O" }.to_string()).collect();
            (vec![], f.get_sequence_probability(&tokens, tags).expect("probability"))
        }
    }
}

/// C02: two threads and one slot filler
pub fn c02_filler() {
    expect(&["two lists of slots", "two probabilities", "slots and a probability"]);
    let f = filler();
    script_tagger();
    let (a, b) = (any_tagging("first"), any_tagging("second"));
    let alone = (tagging(&f, a), tagging(&f, b));
    let both = two_threads(bound(2, 4) as u64, || tagging(&f, a), || tagging(&f, b));
    cover(match (a, b) {
        (Tagging::Slots(_), Tagging::Slots(_)) => "two lists of slots",
        (Tagging::Probability(..), Tagging::Probability(..)) => "two probabilities",
        _ => "slots and a probability",
    });
    check(both.0 == alone.0, "an answer is the one given when nothing else is asked (first thread)");
    check(both.1 == alone.1, "an answer is the one given when nothing else is asked (second thread)");
}

/// C02: two threads and caching entity parsers
pub fn c02_entities() {
    expect(&["builtin", "custom", "same request"]);
    write_resources("c02", &NO_RES);
    pe::reset();
    let capacity = 1 + choose("capacity", 2);
    let (n, o) = (BuiltinEntityKind::Number, BuiltinEntityKind::Ordinal);
    let kinds = [None, Some(vec![n]), Some(vec![o])];
    let scopes = [None, Some(vec!["e".to_string()]), Some(vec!["f".to_string()])];
    let builtin = choose_bool("builtin");
    cover(if builtin { "builtin" } else { "custom" });
    let requests = |name: &str| -> Vec<(usize, usize, bool)> {
        (0..bound(1, 2) + choose(&format!("{}.more", name), 2))
            .map(|_| (choose(&format!("{}.text", name), 2), choose(&format!("{}.filter", name), 2), !builtin || choose_bool(&format!("{}.cached", name))))
            .collect()
    };
    let (a, b) = (requests("first"), requests("second"));
    cover_if(a[0] == b[0], "same request");
    let texts = ["a", "b c"];
    let preemptions = bound(2, 3) as u64;
    if builtin {
        let parser = CachingBuiltinEntityParser::from_path(root().join("builtin"), capacity).unwrap();
        pe::script_builtin(Arc::new(|t: &str, scope: Option<&[BuiltinEntityKind]>, k: usize| {
            Ok(vec![BuiltinEntity {
                value: t.to_string(),
                range: 0..1,
                entity: number(k as f64),
                alternatives: vec![],
                entity_kind: scope.and_then(|s| s.last().cloned()).unwrap_or(BuiltinEntityKind::Ordinal),
            }])
        }));
        let run = |r: &Vec<(usize, usize, bool)>| -> Vec<Vec<BuiltinEntity>> {
            r.iter().map(|(t, f, c)| parser.extract_entities(texts[*t], kinds[*f].as_ref().map(|v| &v[..]), *c, 0).unwrap()).collect()
        };
        let both = two_threads(preemptions, || run(&a), || run(&b));
        let expected = |r: &Vec<(usize, usize, bool)>, got: &Vec<Vec<BuiltinEntity>>| {
            check(r.len() == got.len(), "an answer for every request");
            for ((t, f, _), e) in r.iter().zip(got.iter()) {
                check(
                    e.len() == 1 && e[0].value == texts[*t] && e[0].entity_kind == kinds[*f].as_ref().map_or(o, |k| k[0]),
                    "every thread has the answers to its own requests",
                );
            }
        };
        expected(&a, &both.0);
        expected(&b, &both.1);
    } else {
        let parser = CachingCustomEntityParser::from_path(root().join("c02/custom_entity_parser"), capacity).unwrap();
        pe::script_custom(Arc::new(|t: &str, scope: Option<&[String]>, _: usize| {
            Ok(vec![GazetteerEntityMatch {
                value: t.to_string(),
                resolved_value: t.to_string(),
                alternative_resolved_values: vec![],
                range: 0..1,
                entity_identifier: scope.map_or("e", |s| s[0].as_str()).to_string(),
            }])
        }));
        let run = |r: &Vec<(usize, usize, bool)>| -> Vec<Vec<CustomEntity>> {
            r.iter().map(|(t, f, _)| parser.extract_entities(texts[*t], scopes[*f].as_ref().map(|v| &v[..]), 0).unwrap()).collect()
        };
        let both = two_threads(preemptions, || run(&a), || run(&b));
        let expected = |r: &Vec<(usize, usize, bool)>, got: &Vec<Vec<CustomEntity>>| {
            check(r.len() == got.len(), "an answer for every request");
            for ((t, f, _), e) in r.iter().zip(got.iter()) {
                check(
                    e.len() == 1 && e[0].value == texts[*t] && e[0].entity_identifier == scopes[*f].as_ref().map_or("e", |k| k[0].as_str()),
                    "every thread has the answers to its own requests",
                );
            }
        };
        expected(&a, &both.0);
        expected(&b, &both.1);
    }
}

#[derive(PartialEq)]
enum Answer {
    Parsed(IntentParserResult),
    Intents(Vec<IntentClassifierResult>),
    Slots(Vec<Slot>),
    Refused(String),
}

const INPUTS: [&str; 4] = ["hey", "a b", "b", "the b c"];

/// kind of request, text
type Request = (usize, usize);
fn any_request(name: &str) -> Request {
    (choose(&format!("{}.request", name), 4), choose(&format!("{}.text", name), bound(3, 4)))
}
fn answer(engine: &SnipsNluEngine, r: Request) -> Answer {
    let text = INPUTS[r.1];
    let refused = |e: failure::Error| Answer::Refused(e.to_string());
    match r.0 {
        0 => engine.parse(text, None, None).map_or_else(refused, Answer::Parsed),
        1 => engine.parse_with_alternatives(text, Some(vec!["A"]), None, 1, 1).map_or_else(refused, Answer::Parsed),
        2 => engine.get_slots(text, "A").map_or_else(refused, Answer::Slots),
        _ => engine.get_intents(text).map_or_else(refused, Answer::Intents),
    }
}
fn new_engine(parsers: &str) -> SnipsNluEngine {
    write_engine(&engine_files(MODEL_VERSION, parsers));
    script_tagger();
    pe::script_custom(Arc::new(|t: &str, scope: Option<&[String]>, k: usize| {
        let all = scope.map_or(true, |s| s.iter().any(|n| n == "e"));
        Ok(t.char_indices()
            .filter(|(_, c)| all && *c == 'b')
            .map(|(i, _)| {
                let at = t[..i].chars().count();
                GazetteerEntityMatch {
                    value: "b".to_string(),
                    resolved_value: format!("{} in {}", at, t),
                    alternative_resolved_values: if k > 0 { vec![t.to_string()] } else { vec![] },
                    range: at..at + 1,
                    entity_identifier: "e".to_string(),
                }
            })
            .collect())
    }));
    SnipsNluEngine::from_path(root().join("engine")).expect("engine")
}

/// C02: two threads and one engine
pub fn c02_engine() {
    expect(&["two parses", "slots and a parse", "intents and a parse", "slots found", "refused"]);
    let parsers = ["\"det\",\"proba\"", "\"lookup\",\"proba\""][choose("parsers", 2)];
    let (a, b) = (any_request("first"), any_request("second"));
    // each alone, with an engine of its own
    let alone = (answer(&new_engine(parsers), a), answer(&new_engine(parsers), b));
    let engine = new_engine(parsers);
    let both = two_threads(bound(1, 2) as u64, || answer(&engine, a), || answer(&engine, b));
    cover_if((a.0 < 2) & (b.0 < 2), "two parses");
    cover_if((a.0 == 2) & (b.0 < 2), "slots and a parse");
    cover_if((a.0 == 3) & (b.0 < 2), "intents and a parse");
    match &alone.0 {
        Answer::Parsed(p) => cover_if(!p.slots.is_empty(), "slots found"),
        Answer::Refused(_) => cover("refused"),
        _ => {}
    }
    check(both.0 == alone.0, "an answer is the one an engine of its own gives (first thread)");
    check(both.1 == alone.1, "an answer is the one an engine of its own gives (second thread)");
    // and afterwards
    check(answer(&engine, a) == alone.0, "an answer is still the same after other requests");
}
