//! Intent classifier: features of a text, logistic regression, ranking and filtering.
use crate::env::*;
use crate::lib::verif_hooks::*;
use crate::lib::{IntentClassifier, LogRegIntentClassifier};
use crate::rt::*;
use ndarray::prelude::*;
use snips_nlu_ontology::*;
use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
use std::ops::Range;
use std::sync::Arc;

fn builtin(r: Range<usize>, kind: BuiltinEntityKind) -> BuiltinEntity {
    BuiltinEntity { value: "v".to_string(), range: r, entity: number(1.), alternatives: vec![], entity_kind: kind }
}
fn gazetteer(r: Range<usize>, id: &str) -> GazetteerEntityMatch<String> {
    GazetteerEntityMatch {
        value: "v".to_string(),
        resolved_value: "v".to_string(),
        alternative_resolved_values: vec![],
        range: r,
        entity_identifier: id.to_string(),
    }
}
fn close(a: f32, b: f64) -> bool {
    (a as f64 - b).abs() < 1e-5
}

/// lower-cased tokens of a text of letters, 'é' and spaces
fn words(text: &str, normalized: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut inside = false;
    for c in text.chars() {
        if c == ' ' {
            inside = false;
            continue;
        }
        if !inside {
            v.push(String::new());
        }
        inside = true;
        let c = if c == 'B' { 'b' } else if c == 'é' && normalized { 'e' } else { c };
        v.last_mut().unwrap().push(c);
    }
    v
}

/// C15: TF-IDF features
pub fn c15_tfidf() {
    expect(&["nothing known", "word", "repeated", "stemmed", "entity", "cluster", "cluster of two words", "cluster of three words"]);
    choose_map_order();
    let text = if choose_bool("words") {
        // words of one character
        let words: Vec<String> = (0..bound(3, 4)).map(|_| any_text("word", 1, &[('a', 'b'), ('é', 'é')])).collect();
        words.join(" ")
    } else {
        any_text("text", bound(4, 5), &[('a', 'b'), (' ', ' '), ('é', 'é'), ('B', 'B')])
    };
    let use_stemming = choose_bool("stemming");
    let use_clusters = choose_bool("clusters");
    let numbers = choose("numbers", 3);
    let customs = choose("customs", bound(2, 3));
    let vocab: [(&str, usize); 8] = [
        ("a", 3),
        ("ab", 0),
        ("e", 7),
        ("é", 1),
        ("builtinentityfeaturesnipsnumber", 2),
        ("entityfeaturebiglight", 4),
        ("c1", 5),
        ("c2", 6),
    ];
    let idf = [1.5, 3., 0.5, 2., 1., 4., 2.5, 0.25];
    let names: Vec<String> = vocab.iter().map(|(w, i)| format!("\"{}\":{}", w, i)).collect();
    put(
        "tfidf/vectorizer.json",
        &format!(
            "{{\"language_code\":\"en\",\"builtin_entity_scope\":[\"snips/number\"],\"vectorizer\":{{\"idf_diag\":[1.5,3.0,0.5,2.0,1.0,4.0,2.5,0.25],\"vocab\":{{{}}}}},\"config\":{{\"use_stemming\":{},\"word_clusters_name\":{}}}}}",
            names.join(","),
            use_stemming,
            if use_clusters { "\"k\"" } else { "null" }
        ),
    );
    let shared = resources(&Res {
        stems: &[("a", &["b", "ba", "ee"])],
        clusters: &[("k", &[("ab", "c1"), ("é", "c2"), ("a b", "c1"), ("e", "c1"), ("a b a", "c2"), ("é a b", "c2")])],
        ..NO_RES
    });
    let v = TfidfVectorizer::from_path(root().join("tfidf"), shared).expect("vectorizer");
    let raw = words(&text, false);
    let plain = words(&text, true);
    let stemmed: Vec<String> = plain
        .iter()
        .map(|w| if use_stemming && (w == "b" || w == "ba" || w == "ee") { "a".to_string() } else { w.clone() })
        .collect();
    let joined = stemmed.join(" ");
    let t2 = text.clone();
    pe::script_builtin(Arc::new(move |t: &str, scope: Option<&[BuiltinEntityKind]>, _: usize| {
        check(t == t2.to_lowercase(), "builtin entities are looked for in the text itself");
        check(scope == Some(&[BuiltinEntityKind::Number][..]), "builtin entities are those of the model's scope");
        Ok((0..numbers).map(|i| builtin(i..i + 1, BuiltinEntityKind::Number)).collect())
    }));
    pe::script_custom(Arc::new(move |t: &str, scope: Option<&[String]>, _: usize| {
        check(t == joined, "custom entities are looked for in the normalised, stemmed words");
        check(scope.is_none(), "all custom entities count");
        Ok(if t.is_empty() { vec![] } else { (0..customs).map(|_| gazetteer(0..1, "Big Light")).collect() })
    }));
    let features = v.transform(&text).unwrap();
    let mut counts = [0usize; 8];
    let mut count = |w: &str| {
        for (x, i) in vocab.iter() {
            if *x == w {
                counts[*i] += 1;
            }
        }
    };
    for w in stemmed.iter() {
        count(w);
    }
    for _ in 0..numbers {
        count("builtinentityfeaturesnipsnumber");
    }
    if !stemmed.is_empty() {
        for _ in 0..customs {
            count("entityfeaturebiglight");
        }
    }
    let mut two = false;
    let mut three = false;
    if use_clusters {
        for i in 0..raw.len() {
            match raw[i].as_str() {
                "ab" | "e" => count("c1"),
                "é" => count("c2"),
                _ => (),
            }
            if i + 1 < raw.len() && raw[i] == "a" && raw[i + 1] == "b" {
                count("c1");
                two = true;
            }
            let rest: Vec<&str> = raw[i..].iter().take(3).map(|w| w.as_str()).collect();
            if rest == ["a", "b", "a"] || rest == ["é", "a", "b"] {
                count("c2");
                three = true;
            }
        }
    }
    check(features.len() == 8, "there is a feature per vocabulary entry");
    let norm: f64 = (0..8).map(|i| (counts[i] as f64 * idf[i]).powi(2)).sum::<f64>().sqrt();
    for i in 0..8 {
        let e = if norm > 0. { counts[i] as f64 * idf[i] / norm } else { 0. };
        check(close(features[i], e), "a feature is the weighted number of occurrences, over the norm");
    }
    cover_if(norm == 0., "nothing known");
    cover_if(counts[0] > 0, "word");
    cover_if(counts[3] > 1, "repeated");
    cover_if(stemmed != plain, "stemmed");
    cover_if(counts[2] > 0 && counts[4] > 0, "entity");
    cover_if(counts[6] > 0, "cluster");
    cover_if(two, "cluster of two words");
    cover_if(three, "cluster of three words");
}

/// C16: co-occurrence features
pub fn c16_cooccurrence() {
    expect(&["pair", "reversed pair", "pair out of window", "pair across a stop word", "pair with an entity", "unknown word"]);
    choose_map_order();
    let n = bound(4, 5);
    // a..d words, d a stop word, u the replacement of unknown words
    let letters: Vec<char> = (0..n).map(|_| any_char("word", &[('a', 'd'), ('u', 'u')])).collect();
    let mut text = String::new();
    for (i, c) in letters.iter().enumerate() {
        if i > 0 {
            text.push_str(" ");
        }
        text.push(*c);
    }
    let window = choose("window", 4);
    let keep_order = choose_bool("keep_order");
    let filter = choose_bool("filter_stop_words");
    let entity = choose("entity", n + 1);
    let unknown = choose_bool("unknown_words");
    put(
        "feat/cooc/vectorizer.json",
        &format!(
            "{{\"language_code\":\"en\",\"builtin_entity_scope\":[\"snips/number\"],\"word_pairs\":{{\"0\":[\"a\",\"b\"],\"3\":[\"b\",\"a\"],\"1\":[\"a\",\"a\"],\"4\":[\"c\",\"d\"],\"2\":[\"SNIPSNUMBER\",\"a\"],\"5\":[\"BIGLIGHT\",\"b\"],\"6\":[\"a\",\"u\"]}},\"config\":{{\"window_size\":{},\"filter_stop_words\":{},\"keep_order\":{},\"unknown_words_replacement_string\":{}}}}}",
            if window == 3 { "null".to_string() } else { window.to_string() },
            filter,
            keep_order,
            if unknown { "\"u\"" } else { "null" }
        ),
    );
    put("feat/featurizer.json", "{\"language_code\":\"en\",\"tfidf_vectorizer\":\"tfidf\",\"cooccurrence_vectorizer\":\"cooc\"}");
    put(
        "feat/tfidf/vectorizer.json",
        "{\"language_code\":\"en\",\"builtin_entity_scope\":[],\"vectorizer\":{\"idf_diag\":[1.0],\"vocab\":{\"zzz\":0}},\"config\":{\"use_stemming\":false,\"word_clusters_name\":null}}",
    );
    let f = Featurizer::from_path(root().join("feat"), resources(&Res { stop_words: &["d"], ..NO_RES })).expect("featurizer");
    let custom = choose_bool("custom");
    pe::script_builtin(Arc::new(move |_: &str, _: Option<&[BuiltinEntityKind]>, _: usize| {
        Ok(if entity < n && !custom { vec![builtin(2 * entity..2 * entity + 1, BuiltinEntityKind::Number)] } else { vec![] })
    }));
    pe::script_custom(Arc::new(move |_: &str, _: Option<&[String]>, _: usize| {
        Ok(if entity < n && custom { vec![gazetteer(2 * entity..2 * entity + 1, "big light")] } else { vec![] })
    }));
    let features: Vec<f32> = f.transform(&text).unwrap().to_vec();
    check(!features.is_empty() && features[0] == 0., "the features of words come first");
    let features = &features[1..];
    let mut tokens: Vec<String> = vec![];
    for (i, c) in letters.iter().enumerate() {
        if i == entity {
            tokens.push(if custom { "BIGLIGHT".to_string() } else { "SNIPSNUMBER".to_string() });
        } else if !(filter && *c == 'd') && !(unknown && *c == 'u') {
            tokens.push(c.to_string());
        }
    }
    let pairs = [("a", "b"), ("a", "a"), ("SNIPSNUMBER", "a"), ("b", "a"), ("c", "d"), ("BIGLIGHT", "b"), ("a", "u")];
    check(features.len() == pairs.len(), "there is a feature per pair of words");
    for (k, (x, y)) in pairs.iter().enumerate() {
        let mut found = false;
        for i in 0..tokens.len() {
            for j in i + 1..tokens.len() {
                if window < 3 && j - i > window {
                    continue;
                }
                let (p, q) = (tokens[i].as_str(), tokens[j].as_str());
                let (p, q) = if keep_order || p < q { (p, q) } else { (q, p) };
                found |= p == *x && q == *y;
            }
        }
        check(features[k] == if found { 1. } else { 0. }, "a feature tells whether its two words occur within the window");
        if found {
            cover_if(k == 0, "pair");
            cover_if(k == 3, "reversed pair");
            cover_if(k == 2 || k == 5, "pair with an entity");
            cover_if(k == 6, "unknown word");
            cover_if(k == 0 && filter && text.starts_with("a d b"), "pair across a stop word");
        } else {
            cover_if(k == 0 && text.starts_with("a") && text.ends_with("b") && window == 1, "pair out of window");
        }
    }
}

fn sigmoid(x: f64) -> f64 {
    1. / (1. + (-x).exp())
}

/// C08: the probability of a class is the logistic function of its own linear score
pub fn c08_logreg() {
    expect(&["binary", "several classes"]);
    let classes = 1 + choose("classes", bound(2, 3));
    let nf = 1 + choose("features", 2);
    // every weight is one of two halves or wholes, features are 0, 1 or 2; a large one saturates
    let large = choose_bool("large");
    let mut k = 0;
    let mut weight = || {
        k += 1;
        if any_bool("weight") {
            if large && k == 1 {
                300
            } else if large && k == 2 {
                -300
            } else {
                [1, -2, 3, -4, 5, -6, 7, -8, 9, -10, 11, -12][k - 1]
            }
        } else {
            [0, 2, -1, 1, 2, 0, -3, 2, 1, -1, 0, 4][k - 1]
        }
    };
    let intercept: Vec<i32> = (0..classes).map(|_| weight()).collect();
    let weights: Vec<Vec<i32>> = (0..nf).map(|_| (0..classes).map(|_| weight()).collect()).collect();
    let x: Vec<i32> = (0..nf).map(|_| choose("feature", 3) as i32).collect();
    let m = MulticlassLogisticRegression::new(
        Array::from_vec(intercept.iter().map(|i| *i as f32 / 2.).collect()),
        Array::from_shape_fn((nf, classes), |(i, j)| weights[i][j] as f32 / 2.),
    )
    .unwrap();
    let features: Array1<f32> = Array::from_vec(x.iter().map(|b| *b as f32).collect());
    let p = m.run(&features.view()).unwrap();
    let logistic = |j: usize| {
        let mut s = intercept[j];
        for i in 0..nf {
            s += x[i] * weights[i][j];
        }
        // one path for each value of the score
        let s = concretize((s + 1000) as usize) as f64 - 1000.;
        1. / (1. + (-s / 2.).exp())
    };
    let is = |p: f32, e: f64| (p as f64 - e).abs() < 1e-6;
    if classes == 1 {
        cover("binary");
        check(p.len() == 2, "a binary model has two classes");
        check(is(p[1], logistic(0)), "the probability of a class is the logistic function of its linear score");
        check(is(p[0], 1. - logistic(0)), "the probabilities of two classes add up to one");
    } else {
        cover("several classes");
        check(p.len() == classes, "there is a probability per class");
        for j in 0..classes {
            check(is(p[j], logistic(j)), "the probability of a class is the logistic function of its linear score");
        }
    }
}

/// C08: models of any size; features in another number than the model's are refused
pub fn c08_sizes() {
    expect(&["binary", "several classes", "many classes", "no features", "many features", "not enough features", "too many features"]);
    let classes = *pick("classes", &[1usize, 2, 3, 5, 9, 20, 70]);
    let nf = *pick("features", &[0usize, 1, 2, 7, 20, 130]);
    let intercept = |j: usize| (j % 5) as f32 / 4. - 0.5;
    let weight = |i: usize, j: usize| ((i * 7 + j * 3) % 11) as f32 / 4. - 1.;
    let m = MulticlassLogisticRegression::new(
        Array::from_vec((0..classes).map(|j| intercept(j)).collect()),
        Array::from_shape_fn((nf, classes), |(i, j)| weight(i, j)),
    );
    let m = m.unwrap();
    // every feature is 0 but two
    let given = (nf + choose("more", 3)).saturating_sub(1);
    let mut x = vec![0i32; given];
    for _ in 0..2 {
        if given > 0 {
            x[[0, given / 2, given - 1][choose("place", 3)]] = 1 + choose("feature", 2) as i32;
        }
    }
    let features: Array1<f32> = Array::from_vec(x.iter().map(|v| *v as f32).collect());
    let p = m.run(&features.view());
    if given != nf {
        cover(if given < nf { "not enough features" } else { "too many features" });
        check(p.is_err(), "features in another number than the model's are refused");
        return;
    }
    let p = p.unwrap();
    let logistic = |j: usize| {
        let s: f64 = intercept(j) as f64 + (0..nf).map(|i| x[i] as f64 * weight(i, j) as f64).sum::<f64>();
        1. / (1. + (-s).exp())
    };
    let is = |p: f32, e: f64| (p as f64 - e).abs() < 1e-6;
    cover_if(nf == 0, "no features");
    cover_if(nf > 100, "many features");
    if classes == 1 {
        cover("binary");
        check(p.len() == 2 && is(p[1], logistic(0)) && is(p[0], 1. - logistic(0)), "a binary model has two classes, which add up to one");
    } else {
        cover(if classes > 50 { "many classes" } else { "several classes" });
        check(p.len() == classes, "there is a probability per class");
        for j in 0..classes {
            check(is(p[j], logistic(j)), "the probability of a class is the logistic function of its linear score");
        }
    }
}

/// C08: ranking and filtering of the intents
pub fn c08_classifier() {
    expect(&["filtered", "no intent left", "empty text", "no intent first", "intent first", "one intent", "no model", "two classes"]);
    let kind = choose("model", 6);
    let intents: &[Option<&str>] = match kind {
        0 | 1 => &[Some("A"), None, Some("B"), Some("C")],
        2 => &[Some("A"), Some("B")],
        3 => &[Some("A")],
        4 => &[],
        _ => &[Some("B"), Some("A"), None],
    };
    let list: Vec<String> = intents.iter().map(|i| i.map(|s| format!("\"{}\"", s)).unwrap_or("null".to_string())).collect();
    // weights of the intercept, of "a", "b" and "c"
    let w: Vec<[f64; 4]> = match kind {
        0 | 5 => vec![[-1., 3., -2., 0.5], [0.5, -1., -1., -0.25], [-1., -0.5, 4., 0.25], [-2., 0.25, 2., 1.5]],
        _ => vec![[-0.5, 1., -2., 0.5]],
    };
    let w = &w[..if kind == 0 { 4 } else if kind == 5 { 3 } else { 1 }];
    let trained = kind != 1 && kind != 3 && kind != 4;
    if kind == 1 {
        cover("no model");
    }
    let model = if trained {
        let i: Vec<String> = w.iter().map(|r| format!("{:?}", r[0])).collect();
        let c: Vec<String> = w.iter().map(|r| format!("[{:?},{:?},{:?}]", r[1], r[2], r[3])).collect();
        format!("\"featurizer\":\"featurizer\",\"intercept\":[{}],\"coeffs\":[{}]", i.join(","), c.join(","))
    } else {
        "\"featurizer\":null,\"intercept\":null,\"coeffs\":null".to_string()
    };
    put("clf/intent_classifier.json", &format!("{{{},\"intent_list\":[{}]}}", model, list.join(",")));
    put("clf/featurizer/featurizer.json", "{\"language_code\":\"en\",\"tfidf_vectorizer\":\"tfidf\",\"cooccurrence_vectorizer\":\"cooc\"}");
    put(
        "clf/featurizer/tfidf/vectorizer.json",
        "{\"language_code\":\"en\",\"builtin_entity_scope\":[],\"vectorizer\":{\"idf_diag\":[1.0,1.0],\"vocab\":{\"b\":1,\"a\":0}},\"config\":{\"use_stemming\":false,\"word_clusters_name\":null}}",
    );
    put(
        "clf/featurizer/cooc/vectorizer.json",
        "{\"language_code\":\"en\",\"builtin_entity_scope\":[],\"word_pairs\":{\"0\":[\"a\",\"c\"]},\"config\":{\"window_size\":null,\"filter_stop_words\":false,\"keep_order\":true,\"unknown_words_replacement_string\":null}}",
    );
    let c = LogRegIntentClassifier::from_path(root().join("clf"), resources(&NO_RES)).expect("classifier");
    let text = match choose("text", 4) {
        0 => String::new(),
        1 => " ".to_string(),
        2 => any_text("w1", 1, &[('a', 'c')]),
        _ => format!("{} {}", any_char("w1", &[('a', 'c')]), any_char("w2", &[('a', 'c')])),
    };
    let filters: [Option<&[&str]>; 5] = [None, Some(&["A"]), Some(&["B", "C"]), Some(&[]), Some(&["Z", "B", "A"])];
    let filter = filters[choose("filter", 5)];
    let allowed = |i: &Option<&str>| i.map(|i| filter.map(|f| f.contains(&i)).unwrap_or(true)).unwrap_or(true);
    // oracle
    let a = concretize(text.chars().filter(|c| *c == 'a').count()) as f64;
    let b = concretize(text.chars().filter(|c| *c == 'b').count()) as f64;
    let norm = (a * a + b * b).sqrt();
    let norm = if norm > 0. { norm } else { 1. };
    let x = [1., a / norm, b / norm, if text == "a c" { 1. } else { 0. }];
    let scored = trained && !text.is_empty();
    let linear: Vec<f64> = w.iter().map(|r| (0..4).map(|i| r[i] * x[i]).sum()).collect();
    let p = |k: usize| -> f64 {
        if intents.len() == 1 {
            1.
        } else if !scored {
            if intents[k].is_none() { 1. } else { 0. }
        } else if intents.len() == 2 {
            let s = sigmoid(linear[0]);
            if k == 0 { 1. - s } else { s }
        } else {
            sigmoid(linear[k])
        }
    };
    let left: Vec<usize> = (0..intents.len()).filter(|k| allowed(&intents[*k])).collect();
    let res = c.get_intent(&text, filter).unwrap();
    let got = res.intent_name.as_ref().map(|s| s.as_str());
    check(res.confidence_score >= 0. && res.confidence_score <= 1., "a probability is in [0, 1]");
    check(allowed(&got), "a filtered intent is not returned");
    cover_if(filter.is_some() && left.len() < intents.len(), "filtered");
    cover_if(text.is_empty(), "empty text");
    cover_if(intents.len() == 1, "one intent");
    cover_if(kind == 2 && scored, "two classes");
    if left.is_empty() {
        cover("no intent left");
        check(got.is_none() && res.confidence_score == 1.0, "without allowed intents there is no intent");
    } else {
        match left.iter().find(|k| intents[**k] == got) {
            None => check(false, "the intent returned is one of the model"),
            Some(k) => {
                check(close(res.confidence_score, p(*k)), "the confidence of an intent is its probability");
                check(left.iter().all(|o| p(*o) <= p(*k) + 1e-5), "the most probable allowed intent is returned");
                cover(if got.is_none() { "no intent first" } else { "intent first" });
            }
        }
    }
    let all = c.get_intents(&text).unwrap();
    check(all.len() == intents.len().max(1), "every intent is listed");
    for (k, i) in intents.iter().enumerate() {
        let found: Vec<&IntentClassifierResult> = all.iter().filter(|r| r.intent_name.as_ref().map(|s| s.as_str()) == *i).collect();
        check(found.len() == 1 && close(found[0].confidence_score, p(k)), "every intent is listed once with its probability");
    }
    for w in all.windows(2) {
        check(w[0].confidence_score >= w[1].confidence_score, "intents come by decreasing probability");
    }
}

// ---- many of everything

/// C15: long texts and vocabularies
pub fn c15_many() {
    expect(&["often", "clusters", "entities"]);
    let n = bound(300, 1000);
    // looking for clusters takes the cube of the length of the text: a short one
    let with_clusters = choose_bool("clusters");
    let words: Vec<String> = (0..n).map(|i| format!("w{}", i)).collect();
    let vocab: Vec<String> = words.iter().enumerate().map(|(i, w)| format!("\"{}\":{}", w, n - 1 - i)).collect();
    let idf: Vec<String> = (0..n + 2).map(|i| format!("{:?}", 1. + (i % 7) as f64 / 4.)).collect();
    put(
        "tfidf/vectorizer.json",
        &format!(
            "{{\"language_code\":\"en\",\"builtin_entity_scope\":[\"snips/number\"],\"vectorizer\":{{\"idf_diag\":[{}],\"vocab\":{{{},\"c1\":{},\"builtinentityfeaturesnipsnumber\":{}}}}},\"config\":{{\"use_stemming\":false,\"word_clusters_name\":{}}}}}",
            idf.join(","),
            vocab.join(","),
            n,
            n + 1,
            if with_clusters { "\"k\"" } else { "null" }
        ),
    );
    let shared = resources(&Res { clusters: &[("k", &[("w2", "c1")])], ..NO_RES });
    let v = TfidfVectorizer::from_path(root().join("tfidf"), shared).expect("vectorizer");
    // one word often, and one each of some others
    let at = [0, 2, 255, n - 1][choose("word", 4)];
    let times = if with_clusters { [1, 7, 20][choose("times", 3)] } else { [1, 256, 300][choose("times", 3)] };
    let others = if with_clusters { [0, 4][choose("others", 2)] } else { [0, 257][choose("others", 2)] };
    let entities = [0, 256, 300][choose("entities", 3)];
    cover_if(times > 255, "often");
    cover_if(entities > 255, "entities");
    pe::script_builtin(Arc::new(move |_: &str, _: Option<&[BuiltinEntityKind]>, _: usize| {
        Ok((0..entities).map(|i| builtin(i..i + 1, BuiltinEntityKind::Number)).collect())
    }));
    let mut counts = vec![0usize; n + 2];
    let mut text: Vec<&str> = vec![];
    for i in 0..others {
        text.push(&words[i]);
        counts[n - 1 - i] += 1;
    }
    for _ in 0..times {
        text.push(&words[at]);
        counts[n - 1 - at] += 1;
    }
    counts[n] = if with_clusters { counts[n - 1 - 2] } else { 0 };
    counts[n + 1] = entities;
    cover_if(counts[n] > 0, "clusters");
    let features = v.transform(&text.join(" ")).unwrap();
    check(features.len() == n + 2, "there is a feature per vocabulary entry");
    let weighted: Vec<f64> = (0..n + 2).map(|i| counts[i] as f64 * (1. + (i % 7) as f64 / 4.)).collect();
    let norm = weighted.iter().map(|x| x * x).sum::<f64>().sqrt();
    for i in 0..n + 2 {
        check(close(features[i], weighted[i] / norm), "a feature is the weighted number of occurrences, over the norm");
    }
}

/// C16: long texts, wide windows
pub fn c16_many() {
    expect(&["within", "beyond"]);
    let n = bound(300, 600);
    // the pairs of the first word and some others, in either order
    let others = [1, 2, 7, 8, 255, 256, 257, n - 1];
    let words: Vec<String> = (0..n).map(|i| if i == 0 || others.contains(&i) { format!("w{}", i) } else { "u".to_string() }).collect();
    let mut pairs: Vec<String> = vec![format!("\"{}\":[\"u\",\"u\"]", 2 * others.len())];
    for (k, i) in others.iter().enumerate() {
        pairs.push(format!("\"{}\":[\"w0\",\"w{}\"]", k, i));
        pairs.push(format!("\"{}\":[\"w{}\",\"w0\"]", others.len() + k, i));
    }
    let window = [None, Some(1), Some(7), Some(255), Some(256), Some(n - 1), Some(n)][choose("window", 7)];
    put(
        "feat/cooc/vectorizer.json",
        &format!(
            "{{\"language_code\":\"en\",\"builtin_entity_scope\":[],\"word_pairs\":{{{}}},\"config\":{{\"window_size\":{},\"filter_stop_words\":false,\"keep_order\":true,\"unknown_words_replacement_string\":null}}}}",
            pairs.join(","),
            window.map(|w| w.to_string()).unwrap_or("null".to_string())
        ),
    );
    put("feat/featurizer.json", "{\"language_code\":\"en\",\"tfidf_vectorizer\":\"tfidf\",\"cooccurrence_vectorizer\":\"cooc\"}");
    put(
        "feat/tfidf/vectorizer.json",
        "{\"language_code\":\"en\",\"builtin_entity_scope\":[],\"vectorizer\":{\"idf_diag\":[1.0],\"vocab\":{\"zzz\":0}},\"config\":{\"use_stemming\":false,\"word_clusters_name\":null}}",
    );
    let f = Featurizer::from_path(root().join("feat"), resources(&NO_RES)).expect("featurizer");
    let features = f.transform(&words.join(" ")).unwrap();
    check(features.len() == 2 + 2 * others.len(), "there is a feature per pair of words");
    for (k, i) in others.iter().enumerate() {
        let within = window.map_or(true, |w| *i <= w);
        cover(if within { "within" } else { "beyond" });
        check(features[1 + k] == if within { 1. } else { 0. }, "a feature tells whether its two words occur within the window");
        check(features[1 + others.len() + k] == 0., "the order of the words counts");
    }
}

/// C08: many intents
pub fn c08_many() {
    expect(&["filtered", "all"]);
    let n = bound(300, 500);
    let empty = [0, n / 2, n - 1][choose("empty intent", 3)];
    let names: Vec<Option<String>> = (0..n).map(|i| if i == empty { None } else { Some(format!("intent {}", i)) }).collect();
    let list: Vec<String> = names.iter().map(|i| i.as_ref().map(|s| format!("\"{}\"", s)).unwrap_or("null".to_string())).collect();
    // in an order of their own
    let linear = |i: usize| ((i * 7) % n) as f64 / 128. - 1.;
    assume(n % 7 != 0);
    let intercept: Vec<String> = (0..n).map(|i| format!("{:?}", linear(i))).collect();
    let coeffs: Vec<String> = (0..n).map(|_| "[0.0]".to_string()).collect();
    put(
        "clf/intent_classifier.json",
        &format!("{{\"featurizer\":\"featurizer\",\"intercept\":[{}],\"coeffs\":[{}],\"intent_list\":[{}]}}", intercept.join(","), coeffs.join(","), list.join(",")),
    );
    put("clf/featurizer/featurizer.json", "{\"language_code\":\"en\",\"tfidf_vectorizer\":\"tfidf\",\"cooccurrence_vectorizer\":null}");
    put(
        "clf/featurizer/tfidf/vectorizer.json",
        "{\"language_code\":\"en\",\"builtin_entity_scope\":[],\"vectorizer\":{\"idf_diag\":[1.0],\"vocab\":{\"a\":0}},\"config\":{\"use_stemming\":false,\"word_clusters_name\":null}}",
    );
    let c = LogRegIntentClassifier::from_path(root().join("clf"), resources(&NO_RES)).expect("classifier");
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|a, b| linear(*b).partial_cmp(&linear(*a)).unwrap());
    let all = c.get_intents("a").unwrap();
    check(all.len() == n, "every intent is listed");
    for (r, k) in all.iter().zip(order.iter()) {
        check(r.intent_name == names[*k] && close(r.confidence_score, sigmoid(linear(*k))), "intents come by decreasing probability");
    }
    // the filter leaves the best ones out
    let out = [0, 1, n / 2, n - 1, n][choose("left out", 5)];
    let left: Vec<&str> = order[out..].iter().filter_map(|k| names[*k].as_ref().map(|s| s.as_str())).collect();
    cover(if out > 0 { "filtered" } else { "all" });
    let res = c.get_intent("a", Some(&left)).unwrap();
    let best = order.iter().enumerate().find(|(r, k)| *r >= out || names[**k].is_none()).unwrap().1;
    check(res.intent_name == names[*best] && close(res.confidence_score, sigmoid(linear(*best))), "the most probable allowed intent is returned");
}
