//! Deterministic intent parser: regular expressions over the text and over the text whose
//! entities are replaced by placeholders.
use crate::env::*;
use crate::lib::verif_hooks::*;
use crate::lib::{DeterministicIntentParser, IntentParser};
use crate::rt::*;
use snips_nlu_ontology::*;
use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
use std::ops::Range;
use std::sync::Arc;

fn builtin(text: &str, r: Range<usize>, kind: BuiltinEntityKind) -> BuiltinEntity {
    BuiltinEntity { value: text.to_string(), range: r, entity: number(1.), alternatives: vec![], entity_kind: kind }
}
fn gazetteer(r: Range<usize>, id: &str) -> GazetteerEntityMatch<String> {
    GazetteerEntityMatch {
        value: "v".to_string(),
        resolved_value: "v".to_string(),
        alternative_resolved_values: vec![],
        range: r,
        entity_identifier: id.to_string(),
    }
}

fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\"))
}
fn obj<'a>(items: impl Iterator<Item = (&'a str, String)>) -> String {
    let v: Vec<String> = items.map(|(k, v)| format!("{}:{}", quote(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
fn arr<'a>(items: impl Iterator<Item = &'a &'a str>) -> String {
    let v: Vec<String> = items.map(|s| quote(s)).collect();
    format!("[{}]", v.join(","))
}

pub struct Model<'a> {
    pub patterns: &'a [(&'a str, &'a [&'a str])],
    pub groups: &'a [(&'a str, &'a str)],
    pub slots: &'a [(&'a str, &'a [(&'a str, &'a str)])],
    pub ignore_stop_words: Option<bool>,
    pub stop_words_whitelist: &'a [(&'a str, &'a [&'a str])],
}

pub fn write_model(dir: &str, m: &Model) {
    put(
        &format!("{}/intent_parser.json", dir),
        &format!(
            "{{\"language_code\":\"en\",\"patterns\":{},\"group_names_to_slot_names\":{},\"slot_names_to_entities\":{},\"stop_words_whitelist\":{},\"config\":{{{}}}}}",
            obj(m.patterns.iter().map(|(i, p)| (*i, arr(p.iter())))),
            obj(m.groups.iter().map(|(g, s)| (*g, quote(s)))),
            obj(m.slots.iter().map(|(i, s)| (*i, obj(s.iter().map(|(n, e)| (*n, quote(e))))))),
            obj(m.stop_words_whitelist.iter().map(|(i, w)| (*i, arr(w.iter())))),
            // absent: not ignored
            m.ignore_stop_words.map(|i| format!("\"ignore_stop_words\":{}", i)).unwrap_or_default(),
        ),
    );
}

fn load(m: &Model, r: &Res) -> DeterministicIntentParser {
    let shared = resources(r);
    write_model("det", m);
    DeterministicIntentParser::from_path(root().join("det"), shared).expect("deterministic parser")
}

fn chars(s: &str) -> usize {
    s.chars().count()
}
fn substring(s: &str, r: &Range<usize>) -> String {
    s.chars().skip(r.start).take(r.end - r.start).collect()
}

/// a separator the tokenizer drops
fn separator(name: &str) -> String {
    [" ", "  ", ", "][choose(name, bound(2, 3))].to_string()
}

fn any_case(name: &str, word: &str) -> String {
    let mut it = word.chars();
    let c = it.next().unwrap();
    let u = c.to_ascii_uppercase();
    let first = any_char(name, &[(c, c), (u, u)]);
    let mut s = String::new();
    s.push(first);
    s.push_str(it.as_str());
    s
}

/// C01: a text put together around known slot values is taken apart again.
/// "set ENTITY to on|off|LIGHT NUMBER", whose custom entity, literal value, second custom entity
/// and number each get a slot.
pub fn c01_structure() {
    expect(&["literal value", "second entity", "shorter overlapping entity", "literal value after three entities", "longer than its placeholder", "shorter than its placeholder"]);
    choose_map_order();
    let lead = [" ", ""][choose("lead", 2)];
    let n1 = 1 + choose("entity.len", bound(3, 5));
    let e1 = if n1 == 3 && choose_bool("entity.two_tokens") {
        format!("{} {}", any_text("entity", 1, &[('a', 'z')]), any_text("entity", 1, &[('é', 'ê')]))
    } else {
        any_text("entity", n1, &[('a', 'z'), ('é', 'ê')])
    };
    let second_is_entity = choose_bool("second.entity");
    let second = if second_is_entity { "kitchen lamp" } else { *pick("second", &["on", "off"]) };
    let num = any_text("number", 1 + choose("number.len", 2), &[('0', '9')]);
    let overlap = n1 > 1 && choose_bool("overlap");
    let mut text = String::from(lead);
    text.push_str(&any_case("case", "set"));
    let mut add = |t: &str, s: &str| {
        text.push_str(s);
        let a = chars(&text);
        text.push_str(t);
        a..chars(&text)
    };
    let r1 = add(&e1, &separator("sep"));
    add("To", " ");
    let r2 = add(second, &separator("sep"));
    let r3 = add(&num, if bound(0, 1) == 1 { separator("sep") } else { " ".to_string() }.as_str());
    let last = choose_bool("last");
    let r4 = if last { add("now", " ") } else { 0..0 };
    cover_if(last, "literal value after three entities");
    if lead.is_empty() {
        text.push_str(" ");
    }

    let (l1, l2) = (chars(&e1), chars(second));
    let r3b = r3.clone();
    let shared = load(
        &Model {
            patterns: &[("A", &["^\\s*set\\s*(?P<group0>%E%)\\s*to\\s*(?P<group1>on|off|%BIGLIGHT%)\\s*(?P<group2_1>%SNIPSNUMBER%)\\s*(?P<group3>now)?\\s*$"])],
            groups: &[("group0", "first"), ("group1", "second"), ("group2", "third"), ("group3", "last")],
            slots: &[("A", &[("first", "e"), ("second", "big light"), ("third", "snips/number"), ("last", "when")])],
            ignore_stop_words: None,
            stop_words_whitelist: &[],
        },
        &NO_RES,
    );
    pe::script_builtin(Arc::new(move |_: &str, scope: Option<&[BuiltinEntityKind]>, _: usize| {
        let yes = scope.map(|s| s.contains(&BuiltinEntityKind::Number)).unwrap_or(true);
        let mut v = if yes { vec![builtin("n", r3b.clone(), BuiltinEntityKind::Number)] } else { vec![] };
        // an entity the intent does not use
        if scope.map(|s| s.contains(&BuiltinEntityKind::Ordinal)).unwrap_or(true) {
            v.push(builtin("o", 0..r3b.end, BuiltinEntityKind::Ordinal));
        }
        Ok(v)
    }));
    // the gazetteer parser is given the tokens joined by single spaces: "set ENTITY to SECOND NUMBER"
    pe::script_custom(Arc::new(move |_: &str, scope: Option<&[String]>, _: usize| {
        let yes = |id: &str| scope.map(|s| s.iter().any(|x| x == id)).unwrap_or(true);
        let mut v = vec![];
        if yes("e") {
            if overlap {
                v.push(gazetteer(4..5, "e"));
            }
            v.push(gazetteer(4..4 + l1, "e"));
        }
        if second_is_entity && yes("big light") {
            v.push(gazetteer(4 + l1 + 4..4 + l1 + 4 + l2, "big light"));
        }
        // an entity the intent does not use
        if yes("other") {
            v.push(gazetteer(0..4 + l1 + 3, "other"));
        }
        Ok(v)
    }));
    let res = shared.parse(&text, None).unwrap();
    cover(if second_is_entity { "second entity" } else { "literal value" });
    cover_if(overlap, "shorter overlapping entity");
    cover_if(l2 > 10, "longer than its placeholder");
    cover_if(l1 < 3, "shorter than its placeholder");
    check(res.intent.intent_name.as_ref().map(|s| s.as_str()) == Some("A"), "a text built like a training utterance is recognised");
    check(res.intent.confidence_score == 1.0, "an unambiguous match has full confidence");
    let expected = [(r1, "first", "e"), (r2, "second", "big light"), (r3, "third", "snips/number"), (r4, "last", "when")];
    check(res.slots.len() == 3 + last as usize, "every slot of the utterance is found");
    for (s, (r, name, entity)) in res.slots.iter().zip(expected.iter()) {
        check(s.char_range == *r, "a slot has the place of its value in the text");
        check(s.slot_name == *name && s.entity == *entity, "a slot has the name and entity of its place in the pattern");
    }
    faithful(&text, &res.slots);
    let slots = shared.get_slots(&text, "A").unwrap();
    check(slots == res.slots, "asking for the slots of the intent gives the same slots");
}

/// C01: a pattern of plain words and values, whatever entities are found in the text
pub fn c01_literal() {
    expect(&["entity over the value", "entity elsewhere", "no entity"]);
    let mut text = String::from(["", " "][choose("lead", 2)]);
    text.push_str(&any_case("case", "set"));
    text.push_str(&separator("sep"));
    let start = chars(&text);
    text.push_str(pick("value", &["on", "été", "two x", "Two , X"]));
    let range = start..chars(&text);
    let n = chars(&text);
    let parser = load(
        &Model {
            patterns: &[("A", &["^\\s*(?P<group0>%SNIPSNUMBER%)\\s*$", "^\\s*set\\s*(?P<group0>on|été|two\\s*x)\\s*$"])],
            groups: &[("group0", "s")],
            slots: &[("A", &[("s", "snips/number")])],
            ignore_stop_words: None,
            stop_words_whitelist: &[],
        },
        &NO_RES,
    );
    let mut entities = vec![];
    for _ in 0..choose("entities", bound(2, 3)) {
        let a = choose("start", n);
        let b = a + 1 + choose("len", (n - a).min(5));
        // not the whole text
        assume(b - a < n - 1);
        cover(if a < range.end && b > range.start { "entity over the value" } else { "entity elsewhere" });
        entities.push(builtin("n", a..b, BuiltinEntityKind::Number));
    }
    cover_if(entities.is_empty(), "no entity");
    pe::script_builtin(Arc::new(move |_: &str, _: Option<&[BuiltinEntityKind]>, _: usize| Ok(entities.clone())));
    let res = parser.parse(&text, None).unwrap();
    check(res.intent.intent_name.as_ref().map(|s| s.as_str()) == Some("A"), "a text that is a pattern as it stands is recognised");
    check(res.slots.len() == 1 && res.slots[0].char_range == range, "its slot has the place of its value");
    faithful(&text, &res.slots);
}

/// C01: any short text, with an entity anywhere
pub fn c01_free() {
    expect(&["found", "not found", "found with entity"]);
    let n = 1 + choose("len", bound(4, 5));
    let text = any_text("text", n, &[('a', 'c'), (' ', ' '), ('é', 'é'), ('日', '日')]);
    let with_entity = choose_bool("entity");
    let (a, b) = if with_entity {
        let a = choose("entity.start", n);
        (a, a + 1 + choose("entity.len", n - a))
    } else {
        (0, 0)
    };
    let parser = load(
        &Model {
            patterns: &[("A", &["^\\s*(?P<group0>a|é|%SNIPSNUMBER%)\\s*(?P<group1>b|日|é)\\s*$", "^\\s*c(?P<group0>%SNIPSNUMBER%)\\s*(?P<group0_1>%SNIPSNUMBER%|c)\\s*$"])],
            groups: &[("group0", "x"), ("group1", "y")],
            slots: &[("A", &[("x", "snips/number"), ("y", "e")])],
            ignore_stop_words: None,
            stop_words_whitelist: &[],
        },
        &NO_RES,
    );
    pe::script_builtin(Arc::new(move |_: &str, _: Option<&[BuiltinEntityKind]>, _: usize| {
        Ok(if with_entity { vec![builtin("n", a..b, BuiltinEntityKind::Number)] } else { vec![] })
    }));
    let res = parser.parse(&text, None).unwrap();
    if res.intent.intent_name.is_none() {
        cover("not found");
        check(res.slots.is_empty() && res.intent.confidence_score == 1.0, "no slots without an intent");
        return;
    }
    cover(if with_entity { "found with entity" } else { "found" });
    check(res.slots.len() == 2, "every slot of the pattern is found");
    faithful(&text, &res.slots);
    for s in res.slots.iter() {
        let entity = if s.slot_name == "x" { "snips/number" } else { "e" };
        check(s.entity == entity, "a slot has the entity of its name");
        let literal = s.value == "a" || s.value == "b" || s.value == "é" || s.value == "日" || s.value == "c";
        check(literal || (with_entity && s.char_range == (a..b)), "a slot's value is a value of the pattern or an entity of the text");
    }
}

/// C01: overlapping groups keep the longest value
pub fn c01_overlap() {
    expect(&["nested group dropped", "single group"]);
    let text = any_text("text", bound(3, 4), &[('a', 'd'), (' ', ' ')]);
    let parser = load(
        &Model {
            patterns: &[("A", &["^(?P<group0>a(?P<group1>b+)c?)\\s*(?P<group2>d)?$", "^(?P<group0>a\\s*(?P<group1>d))(?P<group2>d|c)$"])],
            groups: &[("group0", "x"), ("group1", "y"), ("group2", "z")],
            slots: &[("A", &[("x", "e"), ("y", "e"), ("z", "e")])],
            ignore_stop_words: None,
            stop_words_whitelist: &[],
        },
        &NO_RES,
    );
    let res = parser.parse(&text, None).unwrap();
    faithful(&text, &res.slots);
    if res.intent.intent_name.is_some() {
        check(res.slots.iter().any(|s| s.slot_name == "x"), "the longest of overlapping slots is kept");
        check(!res.slots.iter().any(|s| s.slot_name == "y"), "a slot inside another one is dropped");
        let last = text.ends_with('d') || res.slots.iter().any(|s| s.slot_name == "z");
        cover(if last && res.slots.len() == 2 { "nested group dropped" } else { "single group" });
        if text.ends_with('d') {
            check(res.slots.len() == 2, "a slot outside the others is kept");
        }
    }
}

/// C07: ambiguous intents
pub fn c07_ambiguity() {
    expect(&["nothing matches", "one matches", "ambiguous", "fewest slots win", "filtered"]);
    choose_map_order();
    let c = any_text("letter", 1, &[('a', 'i')]);
    let text = format!("x {} y z", c);
    // intent, letters it matches, number of slots
    let all: Vec<(&str, &str, usize)> =
        vec![("A", "abfh", 1), ("B", "bcf", 0), ("C", "bdf", 2), ("D", "ef", 1), ("E", "gh", 3), ("F", "gi", 4)];
    let parser = load(
        &Model {
            patterns: &[
                ("A", &["^x (?P<group0>a|b|f|h) y z$"]),
                ("B", &["^x (b|c|f) y z$", "^x z$"]),
                ("C", &["^y$", "^(?P<group0>x) (?P<group1>b|d|f) y z$"]),
                ("D", &["^x (?P<group0>e|f) y z$"]),
                ("E", &["^(?P<group0>x) (?P<group1>g|h) (?P<group2>y) z$"]),
                ("F", &["^(?P<group0>x) (?P<group1>g|i) (?P<group2>y) (?P<group3>z)$"]),
            ],
            groups: &[("group0", "s"), ("group1", "t"), ("group2", "u"), ("group3", "v")],
            slots: &[
                ("A", &[("s", "e")]),
                ("B", &[]),
                ("C", &[("s", "e"), ("t", "e")]),
                ("D", &[("s", "e")]),
                ("E", &[("s", "e"), ("t", "e"), ("u", "e")]),
                ("F", &[("s", "e"), ("t", "e"), ("u", "e"), ("v", "e")]),
            ],
            ignore_stop_words: None,
            stop_words_whitelist: &[],
        },
        &NO_RES,
    );
    let letter = c.chars().next().unwrap();
    let matching: Vec<(&str, usize)> = all.iter().filter(|(_, l, _)| l.contains(letter)).map(|(i, _, n)| (*i, *n)).collect();
    let wl: Option<Vec<&str>> = match choose("filter", 5) {
        0 => None,
        1 => Some(vec!["A", "C"]),
        3 => Some(vec!["F", "E", "F"]),
        2 => Some(vec!["D", "A"]),
        _ => Some(vec![]),
    };
    cover_if(wl.is_some(), "filtered");
    let allowed: Vec<(&str, usize)> =
        matching.iter().filter(|(i, _)| wl.as_ref().map(|w| w.contains(i)).unwrap_or(true)).cloned().collect();
    let weight = |n: usize| 1. / (1. + n as f32);
    let total: f32 = allowed.iter().map(|(_, n)| weight(*n)).sum();
    let res = parser.parse(&text, wl.as_ref().map(|v| v.as_slice())).unwrap();
    // an intent wins when its share is more than half
    let winner = allowed.iter().find(|(_, n)| weight(*n) * 2. > total * 1.0001);
    match winner {
        None => {
            cover(if allowed.is_empty() { "nothing matches" } else { "ambiguous" });
            check(res.intent.intent_name.is_none(), "an ambiguous or unknown text has no intent");
            check(res.slots.is_empty() && res.intent.confidence_score == 1.0, "the empty intent has no slots and full confidence");
        }
        Some((i, n)) => {
            cover(if allowed.len() == 1 { "one matches" } else { "fewest slots win" });
            check(res.intent.intent_name.as_ref().map(|s| s.as_str()) == Some(*i), "the intent whose share is more than half is returned");
            check((res.intent.confidence_score - weight(*n) / total).abs() < 1e-5, "the confidence is the share of the intent");
            check(res.slots.len() == *n, "the slots of the returned intent come with it");
            faithful(&text, &res.slots);
        }
    }
    check(res.intent.confidence_score >= 0. && res.intent.confidence_score <= 1., "a confidence is in [0, 1]");

    let total: f32 = matching.iter().map(|(_, n)| weight(*n)).sum();
    let intents = parser.get_intents(&text).unwrap();
    check(intents.len() == all.len() + 1, "every intent and the empty intent are listed");
    for (i, l, n) in all.iter() {
        let found: Vec<&IntentClassifierResult> = intents.iter().filter(|r| r.intent_name.as_ref().map(|s| s.as_str()) == Some(*i)).collect();
        check(found.len() == 1, "every intent is listed once");
        let expected = if l.contains(letter) { weight(*n) / total } else { 0. };
        check((found[0].confidence_score - expected).abs() < 1e-5, "an intent's confidence is its share of the matching intents");
    }
    let none: Vec<&IntentClassifierResult> = intents.iter().filter(|r| r.intent_name.is_none()).collect();
    check(none.len() == 1 && none[0].confidence_score == 0., "the empty intent is listed once, with no confidence");
    for w in intents.windows(2) {
        check(w[0].confidence_score >= w[1].confidence_score, "intents come by decreasing confidence");
    }
    let sum: f32 = intents.iter().map(|r| r.confidence_score).sum();
    check(matching.is_empty() && sum == 0. || (sum - 1.).abs() < 1e-5, "confidences add up to one when anything matches");
    for (i, l, n) in all.iter() {
        let slots = parser.get_slots(&text, i).unwrap();
        check(slots.len() == if l.contains(letter) { *n } else { 0 }, "the slots of an intent do not depend on the other intents");
    }
    check(parser.get_slots(&text, "Z").is_err(), "slots of an unknown intent are an error");
}

/// C07: the first pattern of an intent that matches decides what its slots are
pub fn c07_order() {
    expect(&["first pattern", "second pattern", "third pattern", "no pattern", "several patterns"]);
    choose_map_order();
    const ALL: [&str; 3] = ["^(?P<group0>a|b) y$", "^(?P<group1>a|b|c) (?P<group2>y)$", "^(?P<group3>%E%) (y|z)$"];
    const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let order = ORDERS[choose("order", 6)];
    let patterns: Vec<&str> = order.iter().map(|i| ALL[*i]).collect();
    let c = any_text("letter", 1, &[('a', 'd'), ('A', 'D')]);
    let letter = c.to_lowercase();
    let with_entity = choose_bool("entity");
    let text = format!("{} y", c);
    let parser = load(
        &Model {
            patterns: &[("A", &patterns), ("B", &["^(?P<group4>a|b|c|d) (?P<group5>y)$"])],
            groups: &[("group0", "s"), ("group1", "t"), ("group2", "u"), ("group3", "v"), ("group4", "w"), ("group5", "x")],
            slots: &[
                ("A", &[("s", "e"), ("t", "e"), ("u", "e"), ("v", "e")]),
                ("B", &[("w", "e"), ("x", "e")]),
            ],
            ignore_stop_words: None,
            stop_words_whitelist: &[],
        },
        &NO_RES,
    );
    pe::script_custom(Arc::new(move |_: &str, _: Option<&[String]>, _: usize| {
        Ok(if with_entity { vec![gazetteer(0..1, "e")] } else { vec![] })
    }));
    let matches = |p: usize| match p {
        0 => letter == "a" || letter == "b",
        1 => letter != "d",
        _ => with_entity,
    };
    cover_if((0..3).filter(|p| matches(*p)).count() > 1, "several patterns");
    let position = order.iter().position(|p| matches(*p));
    cover(["first pattern", "second pattern", "third pattern", "no pattern"][position.unwrap_or(3)]);
    let names: &[&str] = position.map(|i| [&["s"][..], &["t", "u"], &["v"]][order[i]]).unwrap_or(&[]);
    let slots = parser.get_slots(&text, "A").unwrap();
    check(slots.iter().map(|s| s.slot_name.as_str()).eq(names.iter().cloned()), "the slots of an intent are those of its first pattern that matches");
    faithful(&text, &slots);
    let weight = position.map(|_| 1. / (1. + names.len() as f32)).unwrap_or(0.);
    for r in parser.get_intents(&text).unwrap().iter() {
        if r.intent_name.as_ref().map(|s| s == "A").unwrap_or(false) {
            check((r.confidence_score - weight / (weight + 1. / 3.)).abs() < 1e-5, "the confidence is the share of the intent");
        }
    }
    let res = parser.parse(&text, None).unwrap();
    let winner = if position.is_none() { Some("B") } else if names.len() == 1 { Some("A") } else { None };
    check(res.intent.intent_name.as_ref().map(|s| s.as_str()) == winner, "the intent whose share is more than half is returned");
}

/// C07: shares of many intents of one text, around a half
pub fn c07_shares() {
    expect(&["more than half", "exactly half", "less than half"]);
    choose_map_order();
    const LETTERS: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];
    const NAMES: [&str; 5] = ["A", "B", "C", "D", "E"];
    let groups: Vec<(String, String)> = (0..8).map(|i| (format!("group{}", i), format!("s{}", i))).collect();
    let groups: Vec<(&str, &str)> = groups.iter().map(|(g, s)| (g.as_str(), s.as_str())).collect();
    let slots: Vec<(&str, &str)> = groups.iter().map(|(_, s)| (*s, "e")).collect();
    // the number of slots of each intent, the smallest first
    let numbers: &[usize] = if bound(0, 1) == 1 { &[0, 1, 2, 3, 4, 5, 6, 7, 8] } else { &[0, 1, 2, 3, 5, 8] };
    let mut at = 0;
    let counts: Vec<usize> = (0..5)
        .map(|_| {
            at += choose("slots", numbers.len() - at);
            numbers[at]
        })
        .collect();
    let patterns: Vec<String> = counts
        .iter()
        .map(|n| {
            let words: Vec<String> = (0..8).map(|i| if i < *n { format!("(?P<group{}>{})", i, LETTERS[i]) } else { LETTERS[i].to_string() }).collect();
            format!("^{}$", words.join(" "))
        })
        .collect();
    let lists: Vec<[&str; 1]> = patterns.iter().map(|p| [p.as_str()]).collect();
    let patterns: Vec<(&str, &[&str])> = (0..5).map(|i| (NAMES[i], &lists[i][..])).collect();
    let intent_slots: Vec<(&str, &[(&str, &str)])> = NAMES.iter().map(|n| (*n, &slots[..])).collect();
    let parser = load(
        &Model { patterns: &patterns, groups: &groups, slots: &intent_slots, ignore_stop_words: None, stop_words_whitelist: &[] },
        &NO_RES,
    );
    let text = LETTERS.join(" ");
    let res = parser.parse(&text, None).unwrap();
    // 2520 is a multiple of 1..9
    let weight = |n: usize| 2520 / (n + 1);
    let total: usize = counts.iter().map(|n| weight(*n)).sum();
    let best = weight(counts[0]);
    if 2 * best > total {
        cover("more than half");
        check(res.intent.intent_name.as_ref().map(|n| n == "A").unwrap_or(false), "the intent whose share is more than half is returned");
        check((res.intent.confidence_score - best as f32 / total as f32).abs() < 1e-6, "the confidence is the share of the intent");
    } else {
        cover(if 2 * best == total { "exactly half" } else { "less than half" });
        check(res.intent.intent_name.is_none() && res.slots.is_empty(), "an ambiguous text has no intent");
    }
}

/// C13: stop words are ignored, except those an intent keeps, and do not move slots
pub fn c13_stop_words() {
    expect(&["stop word skipped", "stop word kept", "no stop word", "not ignored", "stop words disabled"]);
    let config = [Some(true), Some(false), None][choose("ignore_stop_words", 3)];
    let ignore = config == Some(true);
    // "à" is the stop word with its diacritic; its normalised form "a" is in the list
    let words = ["the", "à", "on", "É"];
    let mut text = String::new();
    let mut inserted: Vec<usize> = vec![];
    let sep = separator("sep");
    let mut stop = |text: &mut String, name: &str| {
        let k = choose(name, words.len() + 1);
        if k > 0 {
            text.push_str(&if k == 1 { any_case("case", words[0]) } else { words[k - 1].to_string() });
            text.push_str(&sep);
            inserted.push(k - 1);
        }
    };
    stop(&mut text, "before");
    text.push_str("set ");
    stop(&mut text, "between");
    let start = chars(&text);
    let value = match choose("words", 3) {
        0 => any_text("value", 1, &[('x', 'y'), ('ê', 'ê')]),
        1 => "x, Y".to_string(),
        _ => {
            inserted.push(0);
            "X, the  y".to_string()
        }
    };
    text.push_str(&value);
    let range = start..chars(&text);
    if chars(&value) == 1 && choose_bool("after") {
        text.push_str(" The");
        inserted.push(0);
    }
    // intent A keeps "on" and "the"; intent B keeps nothing
    let parser = load(
        &Model {
            patterns: &[
                ("A", &["^\\s*set\\s*(?P<group0>x\\s*y|x|y|ê)\\s*$"]),
                ("B", &["^\\s*set\\s*(?P<group0>x\\s*y|x|y|ê)\\s*$"]),
                ("C", &["^\\s*set\\s*on\\s*(?P<group0>x\\s*y|x|y|ê)\\s*$"]),
                ("D", &["^\\s*set\\s*(?P<group0>x\\s*y|x|y|ê)\\s*$"]),
            ],
            groups: &[("group0", "s")],
            slots: &[("A", &[("s", "e")]), ("B", &[("s", "e")]), ("C", &[("s", "e")]), ("D", &[("s", "e")])],
            ignore_stop_words: config,
            stop_words_whitelist: &[("A", &["on", "the"]), ("C", &["on"]), ("D", &["the", "a", "on"])],
        },
        &Res { stop_words: &["the", "a", "on"], ..NO_RES },
    );
    let none = inserted.is_empty();
    let removable = |kept: &[usize]| ignore && inserted.iter().all(|k| *k != 3 && !kept.contains(k));
    let a = none || removable(&[0, 2]);
    let b = none || removable(&[]);
    // intent D keeps them all
    let d = none;
    cover_if(none, "no stop word");
    cover_if(!none && b, "stop word skipped");
    cover_if(ignore && !a && b, "stop word kept");
    cover_if(inserted.contains(&3), "not ignored");
    cover_if(!ignore, "stop words disabled");
    for (intent, matches) in [("A", a), ("B", b), ("D", d)].iter() {
        let slots = parser.get_slots(&text, intent).unwrap();
        check(slots.len() == if *matches { 1 } else { 0 }, "stop words are skipped unless the intent keeps them");
        faithful(&text, &slots);
        for s in slots.iter() {
            check(s.char_range == range && s.value == value, "skipped stop words do not move slots");
        }
    }
}

// ---- many of everything

/// C01: a pattern of many slots
pub fn c01_many() {
    expect(&["all entities", "some literal"]);
    let n = bound(12, 25);
    let lead = [0, 300][choose("lead", 2)];
    // values as long as their placeholder (13), shorter, or longer
    let long = choose("long value", 3);
    let literal = [0, n / 2, n - 1, n][choose("literal", 4)];
    cover(if literal == n { "all entities" } else { "some literal" });
    let mut text = " ".repeat(lead);
    text.push_str("go");
    let mut ranges = vec![];
    for i in 0..n {
        text.push(' ');
        let a = chars(&text);
        if i == literal {
            text.push_str("été");
        } else if i % 3 == long {
            text.push_str("onehundredandtwentythousandé");
        } else {
            text.push_str(if i % 2 == 0 { "é" } else { "thirteenchars" });
        }
        ranges.push(a..chars(&text));
    }
    let mut pattern = "^\\s*go".to_string();
    let mut groups = vec![];
    let mut slots = vec![];
    for i in 0..n {
        pattern.push_str(&format!("\\s*(?P<group{}>%SNIPSNUMBER%|été)", i));
        groups.push((format!("group{}", i), format!("slot {}", i)));
        slots.push((format!("slot {}", i), "snips/number".to_string()));
    }
    pattern.push_str("\\s*$");
    let groups: Vec<(&str, &str)> = groups.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let slots: Vec<(&str, &str)> = slots.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let patterns = [pattern.as_str()];
    let parser = load(
        &Model { patterns: &[("A", &patterns)], groups: &groups, slots: &[("A", &slots)], ignore_stop_words: None, stop_words_whitelist: &[] },
        &NO_RES,
    );
    let r2 = ranges.clone();
    pe::script_builtin(Arc::new(move |_: &str, _: Option<&[BuiltinEntityKind]>, _: usize| {
        Ok(r2.iter().enumerate().filter(|(i, _)| *i != literal).map(|(_, r)| builtin("n", r.clone(), BuiltinEntityKind::Number)).collect())
    }));
    let res = parser.parse(&text, None).unwrap();
    check(res.intent.intent_name.as_ref().map(|s| s.as_str()) == Some("A"), "a text built like a training utterance is recognised");
    check(res.slots.len() == n, "every slot of the utterance is found");
    for (i, s) in res.slots.iter().enumerate() {
        check(s.char_range == ranges[i] && s.slot_name == format!("slot {}", i), "a slot has the place and name of its value in the text");
    }
    faithful(&text, &res.slots);
}

/// C07: many intents, of which any two match
pub fn c07_many() {
    expect(&["two match", "one matches"]);
    choose_map_order();
    let n = bound(40, 100);
    let letters: Vec<String> = (0..n).map(|i| format!("w{}", i)).collect();
    let names: Vec<String> = (0..n).map(|i| format!("intent {}", i)).collect();
    let (a, b) = ([0, n / 2, n - 1][choose("first", 3)], [1, n - 1][choose("second", 2)]);
    // intent a is matched by the last of many patterns, intent b has a slot
    let patterns: Vec<Vec<String>> = (0..n)
        .map(|i| {
            let mut v: Vec<String> = (0..10).map(|k| format!("^no {} {}$", i, k)).collect();
            v.push(if i == b { "^go (?P<group0>x)$".to_string() } else if i == a { "^go x$".to_string() } else { format!("^{}$", letters[i]) });
            v
        })
        .collect();
    let p2: Vec<Vec<&str>> = patterns.iter().map(|v| v.iter().map(|s| s.as_str()).collect()).collect();
    let p3: Vec<(&str, &[&str])> = (0..n).map(|i| (names[i].as_str(), p2[i].as_slice())).collect();
    let slot: [(&str, &str); 1] = [("s", "e")];
    let slots: Vec<(&str, &[(&str, &str)])> = (0..n).map(|i| (names[i].as_str(), if i == b { &slot[..] } else { &[] })).collect();
    let parser = load(
        &Model { patterns: &p3, groups: &[("group0", "s")], slots: &slots, ignore_stop_words: None, stop_words_whitelist: &[] },
        &NO_RES,
    );
    let res = parser.parse("go x", None).unwrap();
    let (winner, score, n_slots) = if a == b { (b, 1., 1) } else { (a, 2. / 3., 0) };
    cover(if a == b { "one matches" } else { "two match" });
    check(res.intent.intent_name.as_ref().map(|s| s.as_str()) == Some(names[winner].as_str()), "the intent whose share is more than half is returned");
    check((res.intent.confidence_score - score).abs() < 1e-5, "the confidence is the share of the intent");
    check(res.slots.len() == n_slots, "the slots of the returned intent come with it");
    let all = parser.get_intents("go x").unwrap();
    check(all.len() == n + 1, "every intent and the empty intent are listed");
    check(all.iter().filter(|r| r.confidence_score > 0.).count() == if a == b { 1 } else { 2 }, "only matching intents have a share");
    check(parser.get_slots("go x", &names[b]).unwrap().len() == 1, "the slots of an intent do not depend on the other intents");
    let other = parser.parse(&letters[(b + 2) % n], None).unwrap();
    let at = (b + 2) % n;
    check(
        at == a || other.intent.intent_name.as_ref().map(|s| s.as_str()) == Some(names[at].as_str()),
        "an utterance of one intent only is recognised",
    );
}

/// C13: many stop words around a slot
pub fn c13_many() {
    expect(&["slot found", "kept"]);
    let n = bound(60, 100);
    let words: Vec<String> = (0..n).map(|i| format!("st{}é", i)).collect();
    let normalized: Vec<String> = (0..n).map(|i| format!("st{}e", i)).collect();
    let list: Vec<&str> = normalized.iter().map(|s| s.as_str()).collect();
    let kept = [0, n / 2, n - 1][choose("kept", 3)];
    let without = choose_bool("without the kept word");
    let mut text = String::new();
    let before = choose("before", 3) * n / 2;
    let add = |text: &mut String, i: usize| {
        if !(without && i == kept) {
            text.push_str(&words[i]);
            text.push(' ');
        }
    };
    for i in 0..before {
        add(&mut text, i);
    }
    text.push_str("set ");
    for i in before..n {
        add(&mut text, i);
    }
    let start = chars(&text);
    text.push_str("ê");
    let whitelist = [list[kept]];
    let parser = load(
        &Model {
            patterns: &[("A", &["^\\s*set\\s*(?P<group0>x|ê)\\s*$"]), ("B", &["^\\s*set\\s*(?P<group0>x|ê)\\s*$"])],
            groups: &[("group0", "s")],
            slots: &[("A", &[("s", "e")]), ("B", &[("s", "e")])],
            ignore_stop_words: Some(true),
            stop_words_whitelist: &[("A", &whitelist)],
        },
        &Res { stop_words: &list, ..NO_RES },
    );
    for (intent, found) in [("A", without), ("B", true)].iter() {
        let slots = parser.get_slots(&text, intent).unwrap();
        cover(if *found { "slot found" } else { "kept" });
        check(slots.len() == *found as usize, "stop words are skipped unless the intent keeps them");
        faithful(&text, &slots);
        for s in slots.iter() {
            check(s.char_range == (start..start + 1), "skipped stop words do not move slots");
        }
    }
}
