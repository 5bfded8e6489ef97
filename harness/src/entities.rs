//! Entity parsers: places of the entities in the text as typed, and caches.
use crate::env::*;
use crate::lib::verif_hooks::*;
use crate::rt::*;
use snips_nlu_ontology::*;
use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

fn gazetteer(r: std::ops::Range<usize>, v: &str) -> GazetteerEntityMatch<String> {
    GazetteerEntityMatch {
        value: v.to_string(),
        resolved_value: "r".to_string(),
        alternative_resolved_values: vec![],
        range: r,
        entity_identifier: "e".to_string(),
    }
}

/// class of a character: separator, symbol, word
fn class(c: char) -> u8 {
    match c {
        ' ' | ',' => 0,
        '!' => 1,
        _ => 2,
    }
}

/// C11: the gazetteer parser is given clean tokens, and its matches are put back at their place
pub fn c11_custom() {
    expect(&["no token", "one token", "several tokens", "repeated separators", "adjacent tokens", "character that grows in lower case"]);
    let n = choose("len", bound(6, 7));
    let text = any_text("text", n, &[('a', 'c'), (' ', ' '), ('!', '!'), ('À', 'Ö')]);
    let grown = choose_bool("grown");
    // 'İ' is two characters in lower case
    let text = if grown { format!("İ, {}", text) } else { text };
    let shared = resources(&NO_RES);
    // tokens of the text: place and lower-cased value
    let mut tokens: Vec<(usize, usize, String)> = vec![];
    let mut last = 0;
    for (i, c) in text.chars().enumerate() {
        let k = class(c);
        if k > 0 {
            if k != last {
                tokens.push((i, i, String::new()));
            }
            let t = tokens.last_mut().unwrap();
            t.1 = i + 1;
            t.2.push(c);
        }
        last = k;
    }
    let total = tokens.len();
    let (a, b) = if total == 0 {
        (0, 0)
    } else {
        let a = choose("first", total);
        (a, a + 1 + choose("count", total - a))
    };
    // lengths in lower case
    let lengths: Vec<usize> = tokens.iter().enumerate().map(|(k, t)| t.1 - t.0 + (grown && k == 0) as usize).collect();
    let clean_start = |k: usize| lengths[..k].iter().map(|l| l + 1).sum::<usize>();
    let span = if total == 0 { 0..0 } else { clean_start(a)..clean_start(b) - 1 };
    let s2 = span.clone();
    let shape = lengths.clone();
    pe::script_custom(Arc::new(move |t: &str, scope: Option<&[String]>, k: usize| {
        check(scope.map(|s| s.len() == 1 && s[0] == "e").unwrap_or(false) && k == 3, "the request is passed on");
        check(t.chars().all(|c| !c.is_uppercase()), "the gazetteer parser is given lower case");
        let got: Vec<usize> = if t.is_empty() { vec![] } else { t.split(' ').map(|w| w.chars().count()).collect() };
        check(got == shape, "the gazetteer parser is given the tokens in lower case, one space apart");
        Ok(if total == 0 { vec![] } else { vec![gazetteer(s2.clone(), "v")] })
    }));
    let res = shared.custom_entity_parser.extract_entities(&text, Some(&["e".to_string()]), 3).unwrap();
    cover_if(grown, "character that grows in lower case");
    if total == 0 {
        cover("no token");
        check(res.is_empty(), "no entity without tokens");
        return;
    }
    cover(if b == a + 1 { "one token" } else { "several tokens" });
    cover_if(b > a + 1 && tokens[a + 1].0 > tokens[a].1 + 1, "repeated separators");
    cover_if(b > a + 1 && tokens[a + 1].0 == tokens[a].1, "adjacent tokens");
    check(res.len() == 1, "every match is returned");
    check(res[0].range == (tokens[a].0..tokens[b - 1].1), "a match is put back at the place of its tokens in the text");
    check(res[0].value == "v" && res[0].resolved_value == "r" && res[0].entity_identifier == "e", "a match keeps its value");
}

/// C11: builtin entities keep the places the parser finds them at
pub fn c11_builtin() {
    expect(&["plain", "character that grows in lower case", "entity after it"]);
    let n = 1 + choose("len", bound(3, 4));
    let text = any_text("text", n, &[('a', 'c'), (' ', ' '), ('À', 'Ö'), ('İ', 'İ')]);
    let shared = resources(&NO_RES);
    // where each character of the text starts in lower case
    let mut starts = vec![];
    let mut at = 0;
    for c in text.chars() {
        starts.push(at);
        at += if c == 'İ' { 2 } else { 1 };
    }
    starts.push(at);
    let grown = at > n;
    cover(if grown { "character that grows in lower case" } else { "plain" });
    let a = choose("start", n);
    let b = a + 1 + choose("count", n - a);
    cover_if(starts[a] > a, "entity after it");
    let r = starts[a]..starts[b];
    let cached = choose_bool("cached");
    pe::script_builtin(Arc::new(move |t: &str, scope: Option<&[BuiltinEntityKind]>, k: usize| {
        check(scope == Some(&[BuiltinEntityKind::Number][..]) && k == 2, "the request is passed on");
        check(t.chars().all(|c| !c.is_uppercase()), "the builtin parser is given lower case");
        check(t.chars().count() == at, "the builtin parser is given the whole text in lower case");
        Ok(vec![BuiltinEntity { value: "v".to_string(), range: r.clone(), entity: number(1.), alternatives: vec![], entity_kind: BuiltinEntityKind::Number }])
    }));
    let res = shared.builtin_entity_parser.extract_entities(&text, Some(&[BuiltinEntityKind::Number]), cached, 2).unwrap();
    check(res.len() == 1 && res[0].range == (a..b), "an entity keeps its place in the text as typed");
    check(res[0].value == "v" && res[0].entity_kind == BuiltinEntityKind::Number, "an entity keeps its value");
}

const TEXTS: [&str; 4] = ["a", "A", "b", " a"];

/// C12: cached answers are the answers the parser would give
pub fn c12_custom_cache() {
    expect(&["answered from the cache", "evicted", "failed then answered", "different filter", "different alternatives"]);
    write_resources("c12", &NO_RES);
    let capacity = 1 + choose("capacity", 2);
    let parser = CachingCustomEntityParser::from_path(root().join("c12/custom_entity_parser"), capacity).unwrap();
    let calls = Arc::new(AtomicUsize::new(0));
    let failing = choose("failing", 3);
    let c2 = calls.clone();
    pe::script_custom(Arc::new(move |t: &str, scope: Option<&[String]>, k: usize| {
        let c = c2.fetch_add(1, Ordering::SeqCst);
        if c + 1 == failing {
            return Err(failure::format_err!("failing"));
        }
        Ok(vec![gazetteer(0..1, &format!("{} {:?} {}", t, scope, k))])
    }));
    let mut seen: Vec<(usize, usize, usize)> = vec![];
    for _ in 0..bound(3, 4) {
        let t = choose("text", 4);
        let f = choose("filter", bound(3, 4));
        let k = [1, 3, 0][choose("max", bound(2, 3))];
        let filters: [Option<Vec<String>>; 4] =
            [None, Some(vec![]), Some(vec!["e".to_string()]), Some(vec!["e".to_string(), "f".to_string()])];
        let before = calls.load(Ordering::SeqCst);
        let res = parser.extract_entities(TEXTS[t], filters[f].as_ref().map(|v| &v[..]), k);
        let called = calls.load(Ordering::SeqCst) > before;
        if called && before + 1 == failing {
            check(res.is_err(), "an error is reported");
            continue;
        }
        // the gazetteer is given the tokens, and the place is the one in the text
        let expected = format!("{} {:?} {}", TEXTS[t].trim().to_lowercase(), filters[f], k);
        let at = if t == 3 { 1 } else { 0 };
        match res {
            Ok(v) => check(v.len() == 1 && v[0].value == expected && v[0].range == (at..at + 1), "the answer is the parser's own for that request"),
            Err(_) => check(false, "an error is not cached"),
        }
        cover_if(!called, "answered from the cache");
        let key = (if t == 1 { 0 } else { t }, f, k);
        cover_if(called && seen.contains(&key), "evicted");
        cover_if(failing == 1 && before == 1, "failed then answered");
        cover_if(seen.iter().any(|s| s.0 == key.0 && s.1 != f && s.2 == k), "different filter");
        cover_if(seen.iter().any(|s| s.0 == key.0 && s.1 == f && s.2 != k), "different alternatives");
        seen.push(key);
    }
}

pub fn c12_builtin_cache() {
    expect(&["answered from the cache", "evicted", "failed then answered", "not cached"]);
    let capacity = 1 + choose("capacity", 2);
    let parser = CachingBuiltinEntityParser::from_path(root().join("builtin"), capacity).unwrap();
    let calls = Arc::new(AtomicUsize::new(0));
    let failing = choose("failing", 3);
    let c2 = calls.clone();
    pe::script_builtin(Arc::new(move |t: &str, scope: Option<&[BuiltinEntityKind]>, k: usize| {
        let c = c2.fetch_add(1, Ordering::SeqCst);
        if c + 1 == failing {
            return Err(failure::format_err!("failing"));
        }
        Ok(vec![BuiltinEntity {
            value: format!("{} {:?} {}", t, scope.map(|s| s.len()), k),
            range: 0..1,
            entity: number(1.),
            alternatives: vec![],
            entity_kind: scope.and_then(|s| s.last().cloned()).unwrap_or(BuiltinEntityKind::Ordinal),
        }])
    }));
    let mut seen: Vec<(usize, usize, usize)> = vec![];
    let (n, o) = (BuiltinEntityKind::Number, BuiltinEntityKind::Ordinal);
    let filters: [Option<Vec<BuiltinEntityKind>>; 5] = [None, Some(vec![n]), Some(vec![o]), Some(vec![o, n]), Some(vec![])];
    const TEXTS: [&str; 5] = ["a", "A", "a ", " a", "b"];
    let mut asked: Vec<(usize, usize, usize)> = vec![];
    for i in 0..bound(3, 4) {
        // after two requests, only those are repeated
        let (t, f, k) = if i < 2 { (choose("text", bound(3, 5)), choose("filter", 5), choose("max", 2)) } else { asked[choose("repeated", 2)] };
        asked.push((t, f, k));
        let cached = choose_bool("cached");
        let before = calls.load(Ordering::SeqCst);
        let res = parser.extract_entities(TEXTS[t], filters[f].as_ref().map(|v| &v[..]), cached, k);
        let called = calls.load(Ordering::SeqCst) > before;
        check(cached || called, "the cache is not used when it is not to be");
        if called && before + 1 == failing {
            check(res.is_err(), "an error is reported");
            continue;
        }
        let expected = format!("{} {:?} {}", TEXTS[t].to_lowercase(), filters[f].as_ref().map(|s| s.len()), k);
        let kind = filters[f].as_ref().and_then(|s| s.last().cloned()).unwrap_or(o);
        match res {
            Ok(v) => check(v.len() == 1 && v[0].value == expected && v[0].entity_kind == kind, "the answer is the parser's own for that request"),
            Err(_) => check(false, "an error is not cached"),
        }
        cover_if(!called, "answered from the cache");
        cover_if(!cached, "not cached");
        let key = (if t == 1 { 0 } else { t }, f, k);
        cover_if(cached && called && seen.contains(&key), "evicted");
        cover_if(failing == 1 && before == 1, "failed then answered");
        seen.push(key);
    }
}

// ---- many of everything

/// C11: entities far into long texts
pub fn c11_many() {
    expect(&["custom", "builtin"]);
    let n = bound(300, 3000);
    let is_custom = choose_bool("custom");
    let cached = choose_bool("cached");
    cover(if is_custom { "custom" } else { "builtin" });
    // each word is followed by two separators; in lower case, the first characters are two each
    let grown = [0, 1, 256][choose("grown", 3)];
    let words: Vec<String> = (0..n).map(|i| if i < grown { "İ" } else { ["é", "longer", "日b"][i % 3] }.to_string()).collect();
    let text = words.join(", ");
    let lengths: Vec<usize> = words.iter().map(|w| w.chars().count()).collect();
    let start = |k: usize, sep: usize, more: bool| -> usize { (0..k).map(|i| lengths[i] + sep + (more && i < grown) as usize).sum() };
    let spans: Vec<(usize, usize)> = vec![(n - 1, n), (0, n), (200, 290), (0, 1), (255, 257)];
    let shared = resources(&NO_RES);
    let given: Vec<std::ops::Range<usize>> = spans
        .iter()
        .map(|(a, b)| {
            let sep = if is_custom { 1 } else { 2 };
            start(*a, sep, true)..start(*b, sep, true) - sep
        })
        .collect();
    let (g2, g3) = (given.clone(), given.clone());
    pe::script_custom(Arc::new(move |_: &str, _: Option<&[String]>, _: usize| Ok(g2.iter().map(|r| gazetteer(r.clone(), "v")).collect())));
    pe::script_builtin(Arc::new(move |_: &str, _: Option<&[BuiltinEntityKind]>, _: usize| {
        Ok(g3
            .iter()
            .map(|r| BuiltinEntity { value: "v".to_string(), range: r.clone(), entity: number(1.), alternatives: vec![], entity_kind: BuiltinEntityKind::Number })
            .collect())
    }));
    let got: Vec<std::ops::Range<usize>> = if is_custom {
        let e = shared.custom_entity_parser.extract_entities(&text, None, 0).unwrap();
        e.iter().map(|e| e.range.clone()).collect()
    } else {
        let e = shared.builtin_entity_parser.extract_entities(&text, None, cached, 0).unwrap();
        e.iter().map(|e| e.range.clone()).collect()
    };
    let expected: Vec<std::ops::Range<usize>> = spans.iter().map(|(a, b)| start(*a, 2, false)..start(*b, 2, false) - 2).collect();
    check(got == expected, "entities keep their places in the text as typed");
}

/// C12: many requests, in caches of any size
pub fn c12_many() {
    expect(&["kept", "evicted"]);
    write_resources("c12", &NO_RES);
    let n = bound(300, 1200);
    let capacity = [1, 255, 256, n, 100000][choose("capacity", 5)];
    let custom = CachingCustomEntityParser::from_path(root().join("c12/custom_entity_parser"), capacity).unwrap();
    let builtin = CachingBuiltinEntityParser::from_path(root().join("builtin"), capacity).unwrap();
    let calls = Arc::new(AtomicUsize::new(0));
    let c2 = calls.clone();
    pe::script_custom(Arc::new(move |t: &str, _: Option<&[String]>, k: usize| {
        c2.fetch_add(1, Ordering::SeqCst);
        Ok(vec![gazetteer(0..1, &format!("{} {}", t, k))])
    }));
    pe::script_builtin(Arc::new(move |t: &str, _: Option<&[BuiltinEntityKind]>, k: usize| {
        Ok(vec![BuiltinEntity { value: format!("{} {}", t, k), range: 0..1, entity: number(1.), alternatives: vec![], entity_kind: BuiltinEntityKind::Number }])
    }));
    for round in 0..2 {
        for i in 0..n {
            // texts of one letter and its number, and of the same but longer
            let t = format!("w{}{}", i / 2, if i % 2 == 1 { " x" } else { "" });
            let a = custom.extract_entities(&t, None, round).unwrap();
            let b = builtin.extract_entities(&t, None, true, round).unwrap();
            let expected = format!("{} {}", t, round);
            check(a.len() == 1 && a[0].value == expected && b.len() == 1 && b[0].value == expected, "the answer is the parser's own for that request");
        }
    }
    let before = calls.load(Ordering::SeqCst);
    let first = custom.extract_entities("w0", None, 1).unwrap();
    check(first[0].value == "w0 1", "the answer is the parser's own for that request");
    cover(if calls.load(Ordering::SeqCst) == before { "kept" } else { "evicted" });
}
