//! Lookup intent parser: a table of normalised utterances with placeholders for entities.
use crate::env::*;
use crate::lib::verif_hooks::*;
use crate::lib::{IntentParser, LookupIntentParser};
use crate::rt::*;
use snips_nlu_ontology::*;
use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
use snips_nlu_utils::language::Language as L;
use snips_nlu_utils::string::hash_str_to_i32;
use snips_nlu_utils::token::tokenize_light;
use std::ops::Range;
use std::sync::Arc;

fn builtin(r: Range<usize>, kind: BuiltinEntityKind) -> BuiltinEntity {
    BuiltinEntity { value: "v".to_string(), range: r, entity: number(1.), alternatives: vec![], entity_kind: kind }
}
fn gazetteer(r: Range<usize>, id: &str) -> GazetteerEntityMatch<String> {
    GazetteerEntityMatch {
        value: "v".to_string(),
        resolved_value: "v".to_string(),
        alternative_resolved_values: vec![],
        range: r,
        entity_identifier: id.to_string(),
    }
}

struct Scope<'a> {
    intents: &'a [&'a str],
    builtin: &'a [&'a str],
    custom: &'a [&'a str],
}
struct Model<'a> {
    intents: &'a [&'a str],
    slots: &'a [&'a str],
    /// (utterance with placeholders, intent, slots)
    map: &'a [(&'a str, usize, &'a [usize])],
    scopes: &'a [Scope<'a>],
    ignore_stop_words: Option<bool>,
    whitelist: &'a [(&'a str, &'a [&'a str])],
}

fn list(v: &[&str]) -> String {
    let v: Vec<String> = v.iter().map(|s| format!("\"{}\"", s)).collect();
    format!("[{}]", v.join(","))
}

fn load(m: &Model, r: &Res) -> LookupIntentParser {
    let shared = resources(r);
    let map: Vec<String> = m
        .map
        .iter()
        .map(|(u, i, s)| {
            let key = hash_str_to_i32(&tokenize_light(u, L::EN).join(" ").to_lowercase());
            let s: Vec<String> = s.iter().map(|x| x.to_string()).collect();
            format!("\"{}\":[{},[{}]]", key, i, s.join(","))
        })
        .collect();
    let scopes: Vec<String> = m
        .scopes
        .iter()
        .map(|s| {
            format!(
                "{{\"intent_group\":{},\"entity_scope\":{{\"builtin\":{},\"custom\":{}}}}}",
                list(s.intents),
                list(s.builtin),
                list(s.custom)
            )
        })
        .collect();
    let whitelist: Vec<String> = m.whitelist.iter().map(|(i, w)| format!("\"{}\":{}", i, list(w))).collect();
    put(
        "lookup/intent_parser.json",
        &format!(
            "{{\"language_code\":\"en\",\"slots_names\":{},\"intents_names\":{},\"map\":{{{}}},\"entity_scopes\":[{}],\"stop_words_whitelist\":{{{}}},\"config\":{{{}}}}}",
            list(m.slots),
            list(m.intents),
            map.join(","),
            scopes.join(","),
            whitelist.join(","),
            // absent: not ignored
            m.ignore_stop_words.map(|i| format!("\"ignore_stop_words\":{}", i)).unwrap_or_default()
        ),
    );
    LookupIntentParser::from_path(root().join("lookup"), shared).expect("lookup parser")
}

fn chars(s: &str) -> usize {
    s.chars().count()
}
fn name(r: &IntentClassifierResult) -> Option<&str> {
    r.intent_name.as_ref().map(|s| s.as_str())
}

/// C14: an utterance of the table is recognised whatever its entity values, case and punctuation
pub fn c14_structure() {
    expect(&["all entities", "one entity is a plain word", "shorter overlapping entity", "filtered out"]);
    choose_map_order();
    let n1 = 1 + choose("entity.len", bound(2, 4));
    let e1 = any_text("entity", n1, &[('a', 'z'), ('é', 'ê')]);
    let num = any_text("number", 1 + choose("number.len", bound(1, 2)), &[('0', '9')]);
    let plain = choose_bool("plain");
    let overlap = n1 > 1 && choose_bool("overlap");
    let sep = [" ", ", "][choose("sep", 2)];
    let mut text = String::from([" ", ""][choose("lead", 2)]);
    text.push_str(["set", "Set"][choose("case", 2)]);
    text.push_str(sep);
    let a = chars(&text);
    text.push_str(&e1);
    let r1 = a..chars(&text);
    text.push_str(" To lamp");
    let r2 = chars(&text) - 4..chars(&text);
    text.push_str(sep);
    let a = chars(&text);
    text.push_str(&num);
    let r3 = a..chars(&text);
    let l1 = chars(&e1);
    let r3b = r3.clone();
    let map: &[(&str, usize, &[usize])] = if plain {
        // "lamp" is a value of the entity, but a plain word of this utterance
        &[("set %E% to lamp %SNIPSNUMBER%", 1, &[1, 0])]
    } else {
        &[("set %E% to %LIGHT% %SNIPSNUMBER%", 1, &[1, 2, 0])]
    };
    let parser = load(
        &Model {
            intents: &["other", "A"],
            slots: &["third", "first", "second"],
            map,
            scopes: &[Scope { intents: &["other"], builtin: &[], custom: &[] }, Scope { intents: &["A"], builtin: &["snips/number"], custom: &["e", "light"] }],
            ignore_stop_words: None,
            whitelist: &[],
        },
        &NO_RES,
    );
    pe::script_builtin(Arc::new(move |_: &str, scope: Option<&[BuiltinEntityKind]>, _: usize| {
        let yes = scope.map(|s| s.contains(&BuiltinEntityKind::Number)).unwrap_or(true);
        Ok(if yes { vec![builtin(r3b.clone(), BuiltinEntityKind::Number)] } else { vec![] })
    }));
    pe::script_custom(Arc::new(move |_: &str, scope: Option<&[String]>, _: usize| {
        let yes = |id: &str| scope.map(|s| s.iter().any(|x| x == id)).unwrap_or(true);
        let mut v = vec![];
        if yes("light") {
            v.push(gazetteer(4 + l1 + 4..4 + l1 + 8, "light"));
        }
        if yes("e") {
            if overlap {
                v.push(gazetteer(4..5, "e"));
            }
            v.push(gazetteer(4..4 + l1, "e"));
        }
        Ok(v)
    }));
    cover(if plain { "one entity is a plain word" } else { "all entities" });
    cover_if(overlap, "shorter overlapping entity");
    let filter = choose("filter", 3);
    let wl: Option<Vec<&str>> = [None, Some(vec!["A"]), Some(vec!["other"])][filter].clone();
    let res = parser.parse(&text, wl.as_ref().map(|v| v.as_slice())).unwrap();
    if filter == 2 {
        cover("filtered out");
        check(res.intent.intent_name.is_none() && res.slots.is_empty(), "a filtered intent is not returned");
        return;
    }
    check(name(&res.intent) == Some("A"), "an utterance of the table is recognised");
    check(res.intent.confidence_score == 1.0, "an unambiguous match has full confidence");
    let all = [(r1, "first", "e"), (r2, "second", "light"), (r3, "third", "snips/number")];
    let expected: Vec<_> = all.iter().filter(|e| !plain || e.1 != "second").collect();
    check(res.slots.len() == expected.len(), "every slot of the utterance is found");
    for (s, e) in res.slots.iter().zip(expected.iter()) {
        check(s.char_range == e.0, "a slot has the place of its value in the text");
        check(s.slot_name == e.1 && s.entity == e.2, "a slot has the name and entity of its place in the utterance");
    }
    faithful(&text, &res.slots);
    check(parser.get_slots(&text, "A").unwrap() == res.slots, "asking for the slots of the intent gives the same slots");
}

/// C14: any short text, with an entity anywhere, is recognised exactly when the table has it
pub fn c14_free() {
    expect(&["plain", "with entity", "unknown"]);
    let n = choose("len", bound(5, 6));
    let text = any_text("text", n, &[('a', 'b'), ('B', 'B'), (' ', ' '), ('!', '!'), ('é', 'é'), ('É', 'É')]);
    let with_entity = n > 0 && choose_bool("entity");
    let (a, b) = if with_entity {
        let a = choose("entity.start", n);
        (a, a + 1 + choose("entity.len", n - a))
    } else {
        (0, 0)
    };
    let parser = load(
        &Model {
            intents: &["A", "B"],
            slots: &["x"],
            map: &[("a b", 0, &[]), ("é", 1, &[]), ("a %SNIPSNUMBER%", 1, &[0]), ("%SNIPSNUMBER% !", 0, &[0])],
            scopes: &[Scope { intents: &["A", "B"], builtin: &["snips/number"], custom: &[] }],
            ignore_stop_words: None,
            whitelist: &[],
        },
        &NO_RES,
    );
    pe::script_builtin(Arc::new(move |_: &str, _: Option<&[BuiltinEntityKind]>, _: usize| {
        Ok(if with_entity { vec![builtin(a..b, BuiltinEntityKind::Number)] } else { vec![] })
    }));
    // oracle: the tokens of the text, of the text before and of the text after the entity
    let norm = |s: &str| -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut class = 0;
        for c in s.chars() {
            let k = if c == ' ' { 0 } else if c == '!' { 1 } else { 2 };
            if k > 0 {
                if k != class {
                    v.push(String::new());
                }
                let c = if c == 'B' { 'b' } else if c == 'É' { 'é' } else { c };
                v.last_mut().unwrap().push(c);
            }
            class = k;
        }
        v
    };
    let is = |v: &Vec<String>, w: &[&str]| v.len() == w.len() && v.iter().zip(w.iter()).all(|(a, b)| a.as_str() == *b);
    let whole = norm(&text);
    let part = |x: usize, y: usize| -> Vec<String> { norm(&text.chars().skip(x).take(y - x).collect::<String>()) };
    let (p_ab, p_e) = (is(&whole, &["a", "b"]), is(&whole, &["é"]));
    let (e_a, e_x) = if with_entity {
        // a token glued to the placeholder's own symbols would not be the same token
        let before_glued = a > 0 && text.chars().nth(a - 1) == Some('!');
        let after_glued = b < n && text.chars().nth(b) == Some('!');
        let (before, after) = (part(0, a), part(b, n));
        (is(&before, &["a"]) && after.is_empty() && !before_glued, before.is_empty() && is(&after, &["!"]) && !after_glued)
    } else {
        (false, false)
    };
    let res = parser.parse(&text, None).unwrap();
    faithful(&text, &res.slots);
    // plain A: 1, plain B: 1, entity: 1/2 each
    let (wa, wb) = (if p_ab { 2 } else { e_x as u32 }, if p_e { 2 } else { e_a as u32 });
    if wa == wb {
        cover_if(wa == 0, "unknown");
        check(res.intent.intent_name.is_none() && res.slots.is_empty(), "a text that is not in the table, or ambiguous, has no intent");
        check(res.intent.confidence_score == 1.0, "the empty intent has full confidence");
    } else {
        let (w, n) = if wa > wb { (wa, "A") } else { (wb, "B") };
        cover(if w == 2 { "plain" } else { "with entity" });
        check(name(&res.intent) == Some(n), "a text of the table has the intent of its utterance");
        let share = w as f32 / (wa + wb) as f32;
        check((res.intent.confidence_score - share).abs() < 1e-5, "the confidence is the share of the intent");
        check(res.slots.len() == if w == 2 { 0 } else { 1 }, "the interpretation with fewest slots is kept");
        for s in res.slots.iter() {
            check(s.char_range == (a..b) && s.slot_name == "x" && s.entity == "snips/number", "a slot is the entity of the text");
        }
    }
}

/// C14: values that are plain words of an utterance: any subset of them
pub fn c14_subsets() {
    expect(&["no entity", "one entity of many", "all entities", "two utterances"]);
    let n = 1 + choose("entities", bound(4, 5));
    let words = ["red", "éa", "tea", "x", "日本"];
    let ids = ["e", "e", "f", "e", "f"];
    let mask = choose("mask", 1 << n);
    // another utterance of the intent that the text matches too
    let second = if choose_bool("second") { Some(choose("second.mask", 1 << n)) } else { None };
    let utterance = |mask: usize| -> String {
        let mut s = String::from("go");
        for i in 0..n {
            s.push_str(" ");
            s.push_str(&if mask >> i & 1 == 1 { format!("%{}%", ids[i].to_uppercase()) } else { words[i].to_string() });
        }
        s
    };
    let slots = |mask: usize, first: usize| -> Vec<usize> { (0..mask.count_ones() as usize).map(|k| first + k).collect() };
    let (u1, s1) = (utterance(mask), slots(mask, 0));
    let (u2, s2) = (utterance(second.unwrap_or(mask)), slots(second.unwrap_or(mask), 0));
    let mut map: Vec<(&str, usize, &[usize])> = vec![(&u1, 0, &s1)];
    if u2 != u1 {
        map.push((&u2, 0, &s2));
        cover("two utterances");
    }
    let parser = load(
        &Model {
            intents: &["A"],
            slots: &["s0", "s1", "s2", "s3", "s4"],
            map: &map,
            scopes: &[Scope { intents: &["A"], builtin: &[], custom: &["e", "f"] }],
            ignore_stop_words: None,
            whitelist: &[],
        },
        &NO_RES,
    );
    // the words that are entities in both utterances can be anything
    let mut text = String::from("Go");
    let mut ranges = vec![];
    for i in 0..n {
        text.push_str([" ", ", "][i % 2]);
        let a = chars(&text);
        let anything = mask >> i & 1 == 1 && second.unwrap_or(mask) >> i & 1 == 1;
        text.push_str(&if anything { any_text("value", 2, &[('k', 'w')]) } else { words[i].to_string() });
        ranges.push(a..chars(&text));
    }
    let r2 = ranges.clone();
    pe::script_custom(Arc::new(move |_: &str, _: Option<&[String]>, _: usize| {
        // the gazetteer works on cleaned text: one space between tokens
        let mut at = 3;
        Ok((0..n)
            .map(|i| {
                let len = r2[i].end - r2[i].start;
                let g = gazetteer(at..at + len, ids[i]);
                at += len + 1;
                g
            })
            .collect())
    }));
    let res = parser.parse(&text, None).unwrap();
    check(name(&res.intent) == Some("A"), "an utterance is recognised whichever of its words are entities");
    let (m1, m2) = (mask.count_ones(), second.unwrap_or(mask).count_ones());
    let fewest = m1.min(m2);
    cover_if(fewest == 0, "no entity");
    cover_if(fewest == 1 && n > 2, "one entity of many");
    cover_if(fewest as usize == n && n > 1, "all entities");
    check(res.slots.len() == fewest as usize, "the interpretation with fewest slots is kept");
    let fits = |m: usize| {
        let places: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).collect();
        places.len() == res.slots.len()
            && places.iter().zip(res.slots.iter()).enumerate().all(|(k, (i, s))| {
                s.char_range == ranges[*i] && s.entity == ids[*i] && s.slot_name == format!("s{}", k)
            })
    };
    check(fits(mask) || fits(second.unwrap_or(mask)), "the slots are the entities of one utterance, in order");
    faithful(&text, &res.slots);
}

/// C14: ambiguity and listing of intents
pub fn c14_ambiguity() {
    expect(&["nothing matches", "one matches", "ambiguous", "fewest slots win", "filtered"]);
    choose_map_order();
    // entities of each intent's own scope decide what matches
    let found: Vec<bool> = (0..3).map(|_| any_bool("entity")).collect();
    let letter = any_text("letter", 1, &[('p', 's')]);
    let text = format!("go {} u v", letter);
    let f2 = found.clone();
    let parser = load(
        &Model {
            intents: &["A", "B", "C"],
            slots: &["x", "y", "z"],
            map: &[
                ("go p u v", 0, &[]),
                ("go q u v", 1, &[]),
                ("%SNIPSNUMBER% r u v", 0, &[0]),
                ("go p %SNIPSORDINAL% v", 1, &[1]),
                ("go r %SNIPSORDINAL% v", 1, &[1]),
                ("go %E% u %F%", 2, &[2, 0]),
            ],
            scopes: &[
                Scope { intents: &["A"], builtin: &["snips/number"], custom: &[] },
                Scope { intents: &["B"], builtin: &["snips/ordinal"], custom: &[] },
                Scope { intents: &["C"], builtin: &[], custom: &["e", "f"] },
            ],
            ignore_stop_words: None,
            whitelist: &[],
        },
        &NO_RES,
    );
    pe::script_builtin(Arc::new(move |_: &str, scope: Option<&[BuiltinEntityKind]>, _: usize| {
        let mut v = vec![];
        for k in scope.unwrap() {
            if *k == BuiltinEntityKind::Number && f2[0] {
                v.push(builtin(0..2, *k));
            }
            if *k == BuiltinEntityKind::Ordinal && f2[1] {
                v.push(builtin(5..6, *k));
            }
        }
        Ok(v)
    }));
    let f3 = found.clone();
    pe::script_custom(Arc::new(move |_: &str, scope: Option<&[String]>, _: usize| {
        let custom = scope.map(|s| s.iter().any(|x| x == "e")).unwrap_or(true);
        Ok(if custom && f3[2] { vec![gazetteer(3..4, "e"), gazetteer(7..8, "f")] } else { vec![] })
    }));
    let l = |c: &str| letter == c;
    let table: [(&str, Option<usize>); 3] = [
        ("A", if l("p") { Some(0) } else if l("r") && found[0] { Some(1) } else { None }),
        ("B", if l("q") { Some(0) } else if (l("p") || l("r")) && found[1] { Some(1) } else { None }),
        ("C", if found[2] { Some(2) } else { None }),
    ];
    let matching: Vec<(&str, usize)> = table.iter().filter_map(|(i, n)| n.map(|n| (*i, n))).collect();
    let wl: Option<Vec<&str>> = match choose("filter", 4) {
        0 => None,
        1 => Some(vec!["B", "A"]),
        2 => Some(vec![]),
        _ => Some(vec!["C"]),
    };
    cover_if(wl.is_some(), "filtered");
    // plain utterances are tried in every scope, so a scope's intents bound nothing but entities;
    // the whitelist bounds the scopes tried and the intents returned
    let allowed: Vec<(&str, usize)> =
        matching.iter().filter(|(i, _)| wl.as_ref().map(|w| w.contains(i)).unwrap_or(true)).cloned().collect();
    let weight = |n: usize| 1. / (1. + n as f32);
    let total: f32 = allowed.iter().map(|(_, n)| weight(*n)).sum();
    let res = parser.parse(&text, wl.as_ref().map(|v| v.as_slice())).unwrap();
    match allowed.iter().find(|(_, n)| weight(*n) * 2. > total * 1.0001) {
        None => {
            cover(if allowed.is_empty() { "nothing matches" } else { "ambiguous" });
            check(res.intent.intent_name.is_none() && res.slots.is_empty(), "an ambiguous or unknown text has no intent");
            check(res.intent.confidence_score == 1.0, "the empty intent has full confidence");
        }
        Some((i, n)) => {
            cover(if allowed.len() == 1 { "one matches" } else { "fewest slots win" });
            check(name(&res.intent) == Some(*i), "the intent whose share is more than half is returned");
            check((res.intent.confidence_score - weight(*n) / total).abs() < 1e-5, "the confidence is the share of the intent");
            check(res.slots.len() == *n, "the slots of the returned intent come with it");
            faithful(&text, &res.slots);
        }
    }
    let total: f32 = matching.iter().map(|(_, n)| weight(*n)).sum();
    let intents = parser.get_intents(&text).unwrap();
    check(intents.len() == 4, "every intent and the empty intent are listed");
    for (i, n) in table.iter() {
        let found: Vec<&IntentClassifierResult> = intents.iter().filter(|r| name(r) == Some(*i)).collect();
        check(found.len() == 1, "every intent is listed once");
        let expected = n.map(|n| weight(n) / total).unwrap_or(0.);
        check((found[0].confidence_score - expected).abs() < 1e-5, "an intent's confidence is its share of the matching intents");
        let slots = parser.get_slots(&text, i).unwrap();
        check(slots.len() == n.unwrap_or(0), "the slots of an intent do not depend on the other intents");
    }
    check(intents.iter().filter(|r| name(r).is_none() && r.confidence_score == 0.).count() == 1, "the empty intent is listed once, with no confidence");
    for w in intents.windows(2) {
        check(w[0].confidence_score >= w[1].confidence_score, "intents come by decreasing confidence");
    }
    check(parser.get_slots(&text, "Z").is_err(), "slots of an unknown intent are an error");
}

/// C14: shares of many intents of one text, around a half
pub fn c14_shares() {
    expect(&["more than half", "exactly half", "less than half"]);
    choose_map_order();
    const WORDS: [&str; 5] = ["a", "b", "c", "d", "e"];
    const NAMES: [&str; 5] = ["A", "B", "C", "D", "E"];
    const ENTITIES: [&str; 5] = ["ea", "eb", "ec", "ed", "ee"];
    // the number of slots of each intent, the smallest first
    let numbers: &[usize] = if bound(0, 1) == 1 { &[0, 1, 2, 3, 5] } else { &[0, 1, 5] };
    let mut at = 0;
    let counts: Vec<usize> = (0..5)
        .map(|_| {
            at += choose("slots", numbers.len() - at);
            numbers[at]
        })
        .collect();
    let utterances: Vec<String> = (0..5)
        .map(|i| {
            let placeholder = format!("%{}%", ENTITIES[i].to_uppercase());
            let words: Vec<&str> = (0..5).map(|w| if w < counts[i] { placeholder.as_str() } else { WORDS[w] }).collect();
            words.join(" ")
        })
        .collect();
    let slots: Vec<Vec<usize>> = counts.iter().map(|n| (0..*n).collect()).collect();
    // intents without slots have the same utterance: the table can only hold one
    assume(counts.iter().filter(|n| **n == 0).count() < 2);
    let map: Vec<(&str, usize, &[usize])> = (0..5).map(|i| (utterances[i].as_str(), i, &slots[i][..])).collect();
    let groups: Vec<([&str; 1], [&str; 1])> = (0..5).map(|i| ([NAMES[i]], [ENTITIES[i]])).collect();
    let scopes: Vec<Scope> = groups.iter().map(|(i, e)| Scope { intents: i, builtin: &[], custom: e }).collect();
    let parser = load(
        &Model { intents: &NAMES, slots: &["s0", "s1", "s2", "s3", "s4"], map: &map, scopes: &scopes, ignore_stop_words: None, whitelist: &[] },
        &NO_RES,
    );
    let c2 = counts.clone();
    pe::script_custom(Arc::new(move |_: &str, scope: Option<&[String]>, _: usize| {
        let mut v = vec![];
        for i in 0..5 {
            if scope.map(|s| s.iter().any(|x| x == ENTITIES[i])).unwrap_or(true) {
                v.extend((0..c2[i]).map(|w| gazetteer(2 * w..2 * w + 1, ENTITIES[i])));
            }
        }
        Ok(v)
    }));
    let text = WORDS.join(" ");
    let res = parser.parse(&text, None).unwrap();
    // 2520 is a multiple of 1..9
    let weight = |n: usize| 2520 / (n + 1);
    let total: usize = counts.iter().map(|n| weight(*n)).sum();
    let best = weight(counts[0]);
    if 2 * best > total {
        cover("more than half");
        check(name(&res.intent) == Some("A"), "the intent whose share is more than half is returned");
        check((res.intent.confidence_score - best as f32 / total as f32).abs() < 1e-6, "the confidence is the share of the intent");
    } else {
        cover(if 2 * best == total { "exactly half" } else { "less than half" });
        check(name(&res.intent).is_none() && res.slots.is_empty(), "an ambiguous text has no intent");
    }
}

/// C14: text with the characters of placeholders
pub fn c14_literal_placeholder() {
    expect(&["as typed", "other"]);
    let text = any_text("text", 3, &[('%', '%'), ('d', 'f'), (' ', ' ')]);
    let parser = load(
        &Model {
            intents: &["A"],
            slots: &["x"],
            map: &[("%E%", 0, &[0])],
            scopes: &[Scope { intents: &["A"], builtin: &[], custom: &["e"] }],
            ignore_stop_words: None,
            whitelist: &[],
        },
        &NO_RES,
    );
    let res = parser.parse(&text, None).unwrap();
    cover(if text == "%e%" { "as typed" } else { "other" });
    check(res.intent.intent_name.is_none() && res.slots.is_empty(), "a text without entities is not an utterance with entities");
}

/// C13: stop words of the lookup parser
pub fn c13_lookup_stop_words() {
    expect(&["stop word skipped", "stop word kept", "no stop word", "not ignored", "stop words disabled"]);
    let config = [Some(true), Some(false), None][choose("ignore_stop_words", 3)];
    let ignore = config == Some(true);
    let words = ["the", "à", "on", "é"];
    let mut text = String::new();
    let mut inserted: Vec<usize> = vec![];
    let mut stop = |text: &mut String, name: &str| {
        let k = choose(name, words.len() + 1);
        if k > 0 {
            text.push_str(if k == 1 && choose_bool("case") { "The" } else { words[k - 1] });
            text.push_str(" ");
            inserted.push(k - 1);
        }
    };
    stop(&mut text, "before");
    text.push_str("set ");
    stop(&mut text, "between");
    let start = chars(&text);
    text.push_str(&any_text("value", 1, &[('0', '9')]));
    let range = start..start + 1;
    stop(&mut text, "after");
    let r2 = range.clone();
    let owner = choose("intent", 3);
    // intent A keeps "on" and "the"; intent B keeps nothing, intent C everything
    let parser = load(
        &Model {
            intents: &["A", "B", "C"],
            slots: &["x"],
            map: &[("set %SNIPSNUMBER%", owner, &[0])],
            scopes: &[Scope { intents: &["A", "B", "C"], builtin: &["snips/number"], custom: &[] }],
            ignore_stop_words: config,
            whitelist: &[("A", &["on", "the"]), ("C", &["the", "a", "on"])],
        },
        &Res { stop_words: &["the", "a", "on"], ..NO_RES },
    );
    pe::script_builtin(Arc::new(move |_: &str, _: Option<&[BuiltinEntityKind]>, _: usize| {
        Ok(vec![builtin(r2.clone(), BuiltinEntityKind::Number)])
    }));
    let none = inserted.is_empty();
    let kept: &[usize] = [&[0, 2][..], &[], &[0, 1, 2]][owner];
    let skipped = ignore && inserted.iter().all(|k| *k != 3 && !kept.contains(k));
    let matches = none || skipped;
    cover_if(none, "no stop word");
    cover_if(!none && skipped, "stop word skipped");
    cover_if(ignore && !matches && owner == 0 && !inserted.contains(&3), "stop word kept");
    cover_if(inserted.contains(&3), "not ignored");
    cover_if(!ignore, "stop words disabled");
    let own = ["A", "B", "C"][owner];
    let other = ["B", "A", "B"][owner];
    let filters: [Option<&[&str]>; 3] = [None, Some(&[own]), Some(&["A", "B", "C"])];
    for filter in filters.iter() {
        let res = parser.parse(&text, *filter).unwrap();
        faithful(&text, &res.slots);
        if matches {
            check(name(&res.intent) == Some(own), "stop words are skipped");
            check(res.slots.len() == 1 && res.slots[0].char_range == range, "skipped stop words do not move slots");
        } else {
            check(res.intent.intent_name.is_none(), "other words, and stop words the intent keeps, are not skipped");
        }
    }
    let res = parser.parse(&text, Some(&[other])).unwrap();
    check(res.intent.intent_name.is_none(), "a filtered intent is not returned");
    let slots = parser.get_slots(&text, own).unwrap();
    check(slots.len() == matches as usize, "the slots of an intent follow its own stop words");
}

/// C14: a table of many utterances, intents and slots
pub fn c14_many() {
    expect(&["found", "unknown"]);
    let n = bound(150, 300);
    let intents: Vec<String> = (0..n).map(|i| format!("intent {}", i)).collect();
    let slots: Vec<String> = (0..2 * n).map(|i| format!("slot {}", i)).collect();
    let utterances: Vec<String> = (0..n).map(|i| format!("go u{} %E% %SNIPSNUMBER% z", i)).collect();
    let ids: Vec<[usize; 2]> = (0..n).map(|i| [2 * n - 1 - i, i]).collect();
    let map: Vec<(&str, usize, &[usize])> = (0..n).map(|i| (utterances[i].as_str(), n - 1 - i, &ids[i][..])).collect();
    let names: Vec<&str> = intents.iter().map(|s| s.as_str()).collect();
    let slot_names: Vec<&str> = slots.iter().map(|s| s.as_str()).collect();
    let parser = load(
        &Model {
            intents: &names,
            slots: &slot_names,
            map: &map,
            scopes: &[Scope { intents: &names, builtin: &["snips/number"], custom: &["e"] }],
            ignore_stop_words: None,
            whitelist: &[],
        },
        &NO_RES,
    );
    let at = [0, 43, 44, 128, n - 1, n][choose("utterance", 6)];
    let long = [1, 40][choose("value", 2)];
    let mut text = format!("go u{} ", at);
    let a = chars(&text);
    text.push_str(&"é".repeat(long));
    let e = a..a + long;
    text.push_str(" 12 z");
    let number = e.end + 1..e.end + 3;
    let (e2, n2) = (e.clone(), number.clone());
    pe::script_builtin(Arc::new(move |_: &str, _: Option<&[BuiltinEntityKind]>, _: usize| Ok(vec![builtin(n2.clone(), BuiltinEntityKind::Number)])));
    pe::script_custom(Arc::new(move |_: &str, _: Option<&[String]>, _: usize| Ok(vec![gazetteer(e2.clone(), "e")])));
    let res = parser.parse(&text, None).unwrap();
    check(parser.get_intents(&text).unwrap().len() == n + 1, "every intent and the empty intent are listed");
    if at == n {
        cover("unknown");
        check(name(&res.intent).is_none() && res.slots.is_empty(), "a text that is not in the table has no intent");
        return;
    }
    cover("found");
    check(name(&res.intent) == Some(names[n - 1 - at]), "a text of the table has the intent of its utterance");
    check(res.intent.confidence_score == 1.0, "an unambiguous match has full confidence");
    check(res.slots.len() == 2, "every slot of the utterance is found");
    check(res.slots[0].char_range == e && res.slots[0].slot_name == slots[2 * n - 1 - at] && res.slots[0].entity == "e", "a slot has the place, name and entity of its utterance");
    check(res.slots[1].char_range == number && res.slots[1].slot_name == slots[at] && res.slots[1].entity == "snips/number", "a slot has the place, name and entity of its utterance");
    faithful(&text, &res.slots);
    check(parser.get_slots(&text, names[n - 1 - at]).unwrap() == res.slots, "asking for the slots of the intent gives the same slots");
}
