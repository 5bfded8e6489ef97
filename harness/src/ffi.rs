//! The C interface, called as a C program would.
use crate::lib::{SnipsNluEngine, MODEL_VERSION};
use crate::model::*;
use crate::rt::*;
use ffi_utils::{CStringArray, SNIPS_RESULT};
use snips_nlu_ffi::*;
use snips_nlu_ontology_ffi_macros::{CIntentClassifierResultArray, CIntentParserResult, CSlotList, LIVE};
use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
use std::ffi::{CStr, CString};
use std::os::raw::c_char;
use std::ptr::{null, null_mut};
use std::sync::atomic::Ordering;
use std::sync::Arc;

/// the symbols of the Python wrapper
#[path = "/repo/platforms/python/ffi/src/lib.rs"]
mod python;

fn ok(r: SNIPS_RESULT) -> bool {
    r == SNIPS_RESULT::SNIPS_RESULT_OK
}
/// a pointer no call may follow
fn untouched<T>() -> *const T {
    16 as *const T
}
unsafe fn take_string(s: *const c_char) -> String {
    let t = CStr::from_ptr(s).to_str().unwrap().to_string();
    check(ok(snips_nlu_engine_destroy_string(s as *mut c_char)), "a string is given back");
    t
}
unsafe fn last_error() -> String {
    let mut e: *const c_char = null();
    check(ok(snips_nlu_engine_get_last_error(&mut e)) && !e.is_null(), "the last error can be asked for");
    let mut p: *const c_char = null();
    check(ok(python::ffi_snips_nlu_engine_get_last_error(&mut p)) && !p.is_null(), "the last error can be asked for");
    check(CStr::from_ptr(e) == CStr::from_ptr(p), "the last error is the same for the wrapper");
    check(ok(python::ffi_snips_nlu_engine_destroy_string(p as *mut c_char)), "a string is given back");
    take_string(e)
}

const SLOTS: [usize; 4] = [0, 1, 2, u32::MAX as usize];

fn engines(parsers: &str) -> (*const CSnipsNluEngine, SnipsNluEngine) {
    write_engine(&engine_files(MODEL_VERSION, parsers));
    // "b" is an entity with as many resolutions as asked for, up to 3, and tells how many were
    pe::script_custom(Arc::new(|text: &str, _: Option<&[String]>, max: usize| {
        Ok(text
            .chars()
            .enumerate()
            .filter(|(_, c)| *c == 'b')
            .map(|(i, _)| GazetteerEntityMatch {
                value: "b".to_string(),
                resolved_value: "B".to_string(),
                alternative_resolved_values: (0..max.min(3)).map(|k| format!("B{} of {}", k, max)).collect(),
                range: i..i + 1,
                entity_identifier: "e".to_string(),
            })
            .collect())
    }));
    let dir = root().join("engine");
    let c_dir = CString::new(dir.to_str().unwrap()).unwrap();
    let mut client: *const CSnipsNluEngine = null();
    let r = unsafe { snips_nlu_engine_create_from_dir(c_dir.as_ptr(), &mut client) };
    check(ok(r) && !client.is_null(), "an engine is loaded from its folder");
    (client, SnipsNluEngine::from_path(dir).expect("engine"))
}
unsafe fn end(client: *const CSnipsNluEngine) {
    check(ok(snips_nlu_engine_destroy_client(client as *mut CSnipsNluEngine)), "an engine is given back");
    check(LIVE.load(Ordering::SeqCst) == 0, "nothing is left of the results given back");
}
fn any_input() -> String {
    let len = choose("len", bound(3, 4));
    if len == 2 && choose_bool("hey") {
        return "hey".to_string();
    }
    any_text("text", len, &[(' ', ' '), ('a', 'c'), ('B', 'B'), ('é', 'é')])
}

/// an optional filter: NULL, or names of A, B and an unknown intent
fn any_filter(name: &str) -> Option<Vec<&'static str>> {
    let n = choose(&format!("{}.len", name), bound(3, 4));
    if n == 0 {
        return None;
    }
    Some((1..n).map(|_| ["A", "B", "C"][choose(name, 3)]).collect())
}

struct Names {
    _strings: Vec<CString>,
    _pointers: Vec<*const c_char>,
    array: CStringArray,
}
fn c_names(f: &Option<Vec<&str>>) -> Option<Names> {
    f.as_ref().map(|v| {
        let strings: Vec<CString> = v.iter().map(|s| CString::new(*s).unwrap()).collect();
        let pointers: Vec<*const c_char> = strings.iter().map(|s| s.as_ptr()).collect();
        // no name: no pointer to names either
        let data = if pointers.is_empty() { null() } else { pointers.as_ptr() };
        let array = CStringArray { data, size: pointers.len() as i32 };
        Names { _strings: strings, _pointers: pointers, array }
    })
}
fn pointer(n: &Option<Names>) -> *const CStringArray {
    n.as_ref().map_or(null(), |n| &n.array)
}

/// C22: parse
pub fn c22_requests() {
    expect(&["parsed", "refused", "with alternatives", "json", "slots found", "nothing found"]);
    let (client, engine) = engines("\"lookup\",\"det\"");
    let text = any_input();
    let c_text = CString::new(text.clone()).unwrap();
    let (w, b) = (any_filter("whitelist"), any_filter("blacklist"));
    let (c_w, c_b) = (c_names(&w), c_names(&b));
    let json = choose_bool("json");
    let python = json && choose_bool("python");
    let with = choose_bool("with alternatives");
    let (i, s) = if with { ([0, 1, 2, 65536][choose("intents", 4)], SLOTS[choose("slots", 4)]) } else { (0, 0) };
    let expected = engine.parse_with_alternatives(&text, w, b, i, s);
    unsafe {
        let (wp, bp) = (pointer(&c_w), pointer(&c_b));
        let mut value: *const CIntentParserResult = untouched();
        let mut string: *const c_char = untouched();
        let r = match (json, with) {
            (false, false) => snips_nlu_engine_run_parse(client, c_text.as_ptr(), wp, bp, &mut value),
            (false, true) => snips_nlu_engine_run_parse_with_alternatives(
                client, c_text.as_ptr(), wp, bp, i as u32, s as u32, &mut value,
            ),
            (true, false) if python => {
                python::ffi_snips_nlu_engine_run_parse_into_json(client, c_text.as_ptr(), wp, bp, &mut string)
            }
            (true, true) if python => python::ffi_snips_nlu_engine_run_parse_with_alternatives_into_json(
                client, c_text.as_ptr(), wp, bp, i as u32, s as u32, &mut string,
            ),
            (true, false) => snips_nlu_engine_run_parse_into_json(client, c_text.as_ptr(), wp, bp, &mut string),
            (true, true) => snips_nlu_engine_run_parse_with_alternatives_into_json(
                client, c_text.as_ptr(), wp, bp, i as u32, s as u32, &mut string,
            ),
        };
        match expected {
            Err(e) => {
                cover("refused");
                check(!ok(r), "a request the engine refuses fails");
                check(value == untouched() && string == untouched(), "a request that fails gives no result");
                check(last_error() == e.to_string(), "the last error is the one of the engine");
                end(client);
            }
            Ok(expected) => {
                cover("parsed");
                cover_if(with, "with alternatives");
                cover_if(!expected.slots.is_empty(), "slots found");
                cover_if(expected.intent.intent_name.is_none(), "nothing found");
                check(ok(r), "a request the engine answers succeeds");
                if json {
                    cover("json");
                    check(value == untouched(), "only the result asked for is given");
                    let got = CStr::from_ptr(string).to_str().unwrap().to_string();
                    check(got == serde_json::to_string(&expected).unwrap(), "the answer is the one of the engine");
                    take_string(string);
                    end(client);
                } else {
                    check(string == untouched(), "only the result asked for is given");
                    // a result outlives the engine that made it
                    check(ok(snips_nlu_engine_destroy_client(client as *mut CSnipsNluEngine)), "an engine is given back");
                    check((*value).value == expected, "the answer is the one of the engine");
                    check(ok(snips_nlu_engine_destroy_result(value as *mut CIntentParserResult)), "a result is given back");
                    check(LIVE.load(Ordering::SeqCst) == 0, "nothing is left of the results given back");
                }
            }
        }
    }
}

/// C22: get_slots, get_intents
pub fn c22_slots() {
    expect(&["slots", "no slot", "refused", "intents", "json", "alternatives"]);
    let (client, engine) = engines("\"det\"");
    let text = any_input();
    let c_text = CString::new(text.clone()).unwrap();
    unsafe {
        let mut string: *const c_char = untouched();
        let json = choose_bool("json");
        let python = json && choose_bool("python");
        if choose_bool("get_intents") {
            cover("intents");
            let expected = engine.get_intents(&text).expect("intents");
            if json {
                let r = if python {
                    python::ffi_snips_nlu_engine_run_get_intents_into_json(client, c_text.as_ptr(), &mut string)
                } else {
                    snips_nlu_engine_run_get_intents_into_json(client, c_text.as_ptr(), &mut string)
                };
                check(ok(r), "a request the engine answers succeeds");
                check(take_string(string) == serde_json::to_string(&expected).unwrap(), "the answer is the one of the engine");
            } else {
                let mut value: *const CIntentClassifierResultArray = untouched();
                check(ok(snips_nlu_engine_run_get_intents(client, c_text.as_ptr(), &mut value)), "a request the engine answers succeeds");
                check((*value).value == expected, "the answer is the one of the engine");
                check(
                    ok(snips_nlu_engine_destroy_intent_classifier_results(value as *mut CIntentClassifierResultArray)),
                    "a result is given back",
                );
            }
            end(client);
            return;
        }
        let intent = any_text("intent", choose("intent.len", 2), &[('A', 'C')]);
        let c_intent = CString::new(intent.clone()).unwrap();
        let with = choose_bool("with alternatives");
        let s = if with { SLOTS[choose("slots", 4)] } else { 0 };
        let expected = engine.get_slots_with_alternatives(&text, &intent, s);
        let mut value: *const CSlotList = untouched();
        let r = match (json, with) {
            (false, false) => snips_nlu_engine_run_get_slots(client, c_text.as_ptr(), c_intent.as_ptr(), &mut value),
            (false, true) => snips_nlu_engine_run_get_slots_with_alternatives(
                client, c_text.as_ptr(), c_intent.as_ptr(), s as u32, &mut value,
            ),
            (true, false) if python => {
                python::ffi_snips_nlu_engine_run_get_slots_into_json(client, c_text.as_ptr(), c_intent.as_ptr(), &mut string)
            }
            (true, true) if python => python::ffi_snips_nlu_engine_run_get_slots_with_alternatives_into_json(
                client, c_text.as_ptr(), c_intent.as_ptr(), s as u32, &mut string,
            ),
            (true, false) => {
                snips_nlu_engine_run_get_slots_into_json(client, c_text.as_ptr(), c_intent.as_ptr(), &mut string)
            }
            (true, true) => snips_nlu_engine_run_get_slots_with_alternatives_into_json(
                client, c_text.as_ptr(), c_intent.as_ptr(), s as u32, &mut string,
            ),
        };
        match expected {
            Err(e) => {
                cover("refused");
                check(!ok(r), "a request the engine refuses fails");
                check(value == untouched() && string == untouched(), "a request that fails gives no result");
                check(last_error() == e.to_string(), "the last error is the one of the engine");
            }
            Ok(expected) => {
                check(ok(r), "a request the engine answers succeeds");
                cover(if expected.is_empty() { "no slot" } else { "slots" });
                cover_if(expected.iter().any(|s| !s.alternatives.is_empty()), "alternatives");
                if json {
                    cover("json");
                    check(take_string(string) == serde_json::to_string(&expected).unwrap(), "the answer is the one of the engine");
                } else {
                    check((*value).value == expected, "the answer is the one of the engine");
                    check(ok(snips_nlu_engine_destroy_slots(value as *mut CSlotList)), "a result is given back");
                }
            }
        }
        end(client);
    }
}

/// C22: arguments that are NULL or not UTF-8, in every call
pub fn c22_failures() {
    expect(&["null", "not UTF-8", "in a filter", "still usable"]);
    let (client, engine) = engines("\"det\"");
    // a byte that is not ASCII is no text by itself
    let bytes = [any_u8("byte", 0x80, 0xff) as c_char, 0];
    let good = CString::new("b").unwrap();
    let a = CString::new("A").unwrap();
    unsafe {
        // what is wrong: the engine, the text, the last argument (an intent or a filter)
        let wrong = choose("wrong", 3);
        let is_null = choose_bool("null");
        cover(if is_null { "null" } else { "not UTF-8" });
        let bad: *const c_char = if is_null { null() } else { bytes.as_ptr() };
        let c = if wrong == 0 { null() } else { client };
        let t = if wrong == 1 { bad } else { good.as_ptr() };
        let last = if wrong == 2 { bad } else { a.as_ptr() };
        let names = [a.as_ptr(), bad];
        // a filter with a bad name, without its names, or of no size
        let filter = match if wrong == 2 { choose("filter", 3) } else { 3 } {
            0 => CStringArray { data: names.as_ptr(), size: 2 },
            1 => CStringArray { data: null(), size: any_size(true) },
            2 => CStringArray { data: names.as_ptr(), size: any_size(false) },
            _ => CStringArray { data: names.as_ptr(), size: 1 },
        };
        let (w, b): (*const CStringArray, *const CStringArray) =
            if choose_bool("blacklist") { (null(), &filter) } else { (&filter, null()) };
        let mut p: *const CIntentParserResult = untouched();
        let mut s: *const CSlotList = untouched();
        let mut i: *const CIntentClassifierResultArray = untouched();
        let mut j: *const c_char = untouched();
        let call = choose("call", 15);
        let with_filter = [true, true, true, true, false, false, false, false, false, false, true, true, false, false, false][call];
        let with_intent = [false, false, false, false, true, true, true, true, false, false, false, false, true, true, false][call];
        if wrong == 2 {
            assume(with_filter || (with_intent && filter.size == 2));
            cover_if(with_filter, "in a filter");
        }
        let r = match call {
            0 => snips_nlu_engine_run_parse(c, t, w, b, &mut p),
            1 => snips_nlu_engine_run_parse_with_alternatives(c, t, w, b, 1, 1, &mut p),
            2 => snips_nlu_engine_run_parse_into_json(c, t, w, b, &mut j),
            3 => snips_nlu_engine_run_parse_with_alternatives_into_json(c, t, w, b, 1, 1, &mut j),
            4 => snips_nlu_engine_run_get_slots(c, t, last, &mut s),
            5 => snips_nlu_engine_run_get_slots_with_alternatives(c, t, last, 1, &mut s),
            6 => snips_nlu_engine_run_get_slots_into_json(c, t, last, &mut j),
            7 => snips_nlu_engine_run_get_slots_with_alternatives_into_json(c, t, last, 1, &mut j),
            8 => snips_nlu_engine_run_get_intents(c, t, &mut i),
            9 => snips_nlu_engine_run_get_intents_into_json(c, t, &mut j),
            10 => python::ffi_snips_nlu_engine_run_parse_into_json(c, t, w, b, &mut j),
            11 => python::ffi_snips_nlu_engine_run_parse_with_alternatives_into_json(c, t, w, b, 1, 1, &mut j),
            12 => python::ffi_snips_nlu_engine_run_get_slots_into_json(c, t, last, &mut j),
            13 => python::ffi_snips_nlu_engine_run_get_slots_with_alternatives_into_json(c, t, last, 1, &mut j),
            _ => python::ffi_snips_nlu_engine_run_get_intents_into_json(c, t, &mut j),
        };
        check(!ok(r), "a call with an argument that is NULL or no text fails");
        check(
            p == untouched() && s == untouched() && i == untouched() && j == untouched(),
            "a request that fails gives no result",
        );
        check(!last_error().is_empty(), "a call that fails says why");
        // the engine is still there
        let expected = engine.parse("b", None, None).unwrap();
        check(ok(snips_nlu_engine_run_parse(client, good.as_ptr(), null(), null(), &mut p)), "a failure leaves the engine usable");
        check((*p).value == expected, "a failure leaves the engine as it was");
        cover("still usable");
        check(ok(snips_nlu_engine_destroy_result(p as *mut CIntentParserResult)), "a result is given back");
        end(client);
        check(
            !ok(snips_nlu_engine_destroy_client(null_mut()))
                && !ok(snips_nlu_engine_destroy_result(null_mut()))
                && !ok(snips_nlu_engine_destroy_slots(null_mut()))
                && !ok(snips_nlu_engine_destroy_intent_classifier_results(null_mut()))
                && !ok(snips_nlu_engine_destroy_string(null_mut()))
                && !ok(python::ffi_snips_nlu_engine_destroy_client(null_mut()))
                && !ok(python::ffi_snips_nlu_engine_destroy_string(null_mut())),
            "nothing is not given back",
        );
    }
}

/// C22: engines that can be loaded, and that cannot
pub fn c22_loading() {
    expect(&["loaded", "refused", "archive", "folder", "no archive"]);
    std::fs::create_dir_all(std::env::temp_dir()).unwrap();
    let mut version = MODEL_VERSION.to_string();
    let k = choose("version", MODEL_VERSION.len() + 1);
    if k < MODEL_VERSION.len() {
        let c = any_char("char", &[('0', '9'), ('.', '.')]);
        version.replace_range(k..k + 1, &c.to_string());
    }
    let files = engine_files(&version, "\"det\"");
    write_engine(&files);
    let dir = root().join("engine");
    let mut client: *const CSnipsNluEngine = untouched();
    unsafe {
        let mut v: *const c_char = null();
        check(ok(snips_nlu_engine_get_model_version(&mut v)), "the supported version can be asked for");
        check(take_string(v) == MODEL_VERSION, "the supported version is the one of the library");
        let python = choose_bool("python");
        if python {
            check(ok(python::ffi_snips_nlu_engine_get_model_version(&mut v)), "the supported version can be asked for");
            check(take_string(v) == MODEL_VERSION, "the supported version is the one of the library");
        }
        let archive = choose_bool("archive");
        let (r, expected) = if archive {
            cover("archive");
            let mut contents: Vec<(String, Vec<u8>)> = vec![];
            let all = files.iter().map(|f| f.0.clone()).chain(RESOURCE_FILES.iter().map(|s| s.to_string()));
            for p in all {
                let c = std::fs::read(dir.join(&p)).unwrap();
                contents.push((format!("engine/{}", p), c));
            }
            let entries: Vec<(&str, &[u8])> = contents.iter().map(|(n, c)| (n.as_str(), c.as_slice())).collect();
            let mut archive = zip::write_archive(&entries);
            let missing = choose("missing bytes", 3);
            if missing == 2 {
                // no archive at all
                let size = any_u32("size", 0, u32::MAX);
                let r = if python {
                    python::ffi_snips_nlu_engine_create_from_zip(null(), size, &mut client)
                } else {
                    snips_nlu_engine_create_from_zip(null(), size, &mut client)
                };
                check(!ok(r) && client == untouched(), "an engine that cannot be loaded is not loaded");
                check(!last_error().is_empty(), "a call that fails says why");
                cover("no archive");
                return;
            }
            let size = archive.len() - missing;
            let expected = SnipsNluEngine::from_zip(std::io::Cursor::new(archive[..size].to_vec()));
            // more data than the archive
            archive.push(0);
            let r = if python {
                python::ffi_snips_nlu_engine_create_from_zip(archive.as_ptr(), size as u32, &mut client)
            } else {
                snips_nlu_engine_create_from_zip(archive.as_ptr(), size as u32, &mut client)
            };
            (r, expected)
        } else {
            cover("folder");
            let what = choose("folder", 3);
            let path = match what {
                0 => dir.clone(),
                1 => root().join("absent"),
                _ => dir.join("nlu_engine.json"),
            };
            let c_path = CString::new(path.to_str().unwrap()).unwrap();
            let r = if python {
                python::ffi_snips_nlu_engine_create_from_dir(c_path.as_ptr(), &mut client)
            } else {
                snips_nlu_engine_create_from_dir(c_path.as_ptr(), &mut client)
            };
            (r, SnipsNluEngine::from_path(&path))
        };
        match expected {
            Ok(engine) => {
                cover("loaded");
                check(ok(r) && client != untouched(), "an engine that can be loaded is loaded");
                let mut p: *const CIntentParserResult = untouched();
                let t = any_text("text", 1, &[('a', 'c')]);
                let c_t = CString::new(t.clone()).unwrap();
                check(ok(snips_nlu_engine_run_parse(client, c_t.as_ptr(), null(), null(), &mut p)), "a request the engine answers succeeds");
                check((*p).value == engine.parse(&t, None, None).unwrap(), "the answer is the one of the engine");
                check(ok(snips_nlu_engine_destroy_result(p as *mut CIntentParserResult)), "a result is given back");
                if python {
                    check(ok(python::ffi_snips_nlu_engine_destroy_client(client as *mut CSnipsNluEngine)), "an engine is given back");
                } else {
                    end(client);
                }
            }
            Err(e) => {
                cover("refused");
                check(!ok(r) && client == untouched(), "an engine that cannot be loaded is not loaded");
                let error = last_error();
                // the name of the temporary folder of an archive may be in it
                check(!error.is_empty() && (archive || error == e.to_string()), "the last error is the one of the engine");
            }
        }
    }
}

fn any_size(positive: bool) -> i32 {
    let size = any_i32("size");
    assume(if positive { size > 0 } else { size < 0 });
    size
}
