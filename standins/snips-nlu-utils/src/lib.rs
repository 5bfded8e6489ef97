//! Environment stand-in for snips-nlu-utils 0.9.1 (not available offline). Documented contract:
//! char/byte range conversions are exact, tokens are maximal runs of word characters or of symbol
//! characters in text order, `hash_str_to_i32` is modelled as a collision-free function.
pub mod language {
    use std::str::FromStr;
    #[allow(non_camel_case_types)]
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum Language { DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR }
    impl FromStr for Language {
        type Err = failure::Error;
        fn from_str(s: &str) -> Result<Self, failure::Error> {
            Ok(match s {
                "de" => Language::DE,
                "en" => Language::EN,
                "es" => Language::ES,
                "fr" => Language::FR,
                "it" => Language::IT,
                "ja" => Language::JA,
                "ko" => Language::KO,
                "pt_pt" => Language::PT_PT,
                "pt_br" => Language::PT_BR,
                _ => return Err(failure::format_err!("Unknown language: {}", s)),
            })
        }
    }
}

pub mod range {
    use std::ops::Range;
    pub fn ranges_overlap<T: PartialOrd>(r1: &Range<T>, r2: &Range<T>) -> bool {
        r1.start < r2.end && r2.start < r1.end
    }
}

pub mod string {
    use std::ops::Range;

    pub fn substring_with_char_range(string: String, range: &Range<usize>) -> String {
        string.chars().skip(range.start).take(range.end - range.start).collect()
    }
    pub fn suffix_from_char_index(string: String, index: usize) -> String {
        string.chars().skip(index).collect()
    }
    pub fn prefix_until_char_index(string: String, index: usize) -> String {
        string.chars().take(index).collect()
    }
    pub fn convert_to_char_index(string: &str, byte_index: usize) -> usize {
        string.char_indices().take_while(|(i, _)| *i < byte_index).count()
    }
    pub fn convert_to_char_range(string: &str, range: &Range<usize>) -> Range<usize> {
        convert_to_char_index(string, range.start)..convert_to_char_index(string, range.end)
    }
    pub fn convert_to_byte_index(string: &str, char_index: usize) -> usize {
        string.char_indices().nth(char_index).map(|(i, _)| i).unwrap_or_else(|| string.len())
    }
    pub fn convert_to_byte_range(string: &str, range: &Range<usize>) -> Range<usize> {
        convert_to_byte_index(string, range.start)..convert_to_byte_index(string, range.end)
    }

    fn remove_diacritic(c: char) -> char {
        match c {
            'à' | 'á' | 'â' | 'ã' | 'ä' => 'a',
            'è' | 'é' | 'ê' | 'ë' => 'e',
            'ì' | 'í' | 'î' | 'ï' => 'i',
            'ò' | 'ó' | 'ô' | 'õ' | 'ö' => 'o',
            'ù' | 'ú' | 'û' | 'ü' => 'u',
            'ç' => 'c',
            'ñ' => 'n',
            c => c,
        }
    }
    pub fn normalize(input: &str) -> String {
        input.trim().to_lowercase().chars().map(remove_diacritic).collect()
    }

    pub fn get_shape(string: &str) -> String {
        if !string.is_empty() && string.chars().all(|c| c.is_lowercase()) {
            "xxx"
        } else if string.chars().count() > 1 && string.chars().all(|c| c.is_uppercase()) {
            "XXX"
        } else if string.chars().next().map(|c| c.is_uppercase()).unwrap_or(false)
            && string.chars().skip(1).all(|c| c.is_lowercase())
        {
            "Xxx"
        } else {
            "xX"
        }
        .to_string()
    }

    /// no lock: it must not be a point at which threads are switched (the harness lets only one
    /// thread run at a time)
    struct Interned(std::cell::UnsafeCell<Vec<String>>);
    unsafe impl Sync for Interned {}
    static INTERNED: Interned = Interned(std::cell::UnsafeCell::new(Vec::new()));

    /// Collision-free model of the 32-bit hash: strings are numbered in order of first use.
    pub fn hash_str_to_i32(input: &str) -> i32 {
        let table = unsafe { &mut *INTERNED.0.get() };
        let position = table.iter().position(|s| s.as_str() == input);
        match position {
            Some(i) => i as i32 + 1000,
            None => {
                table.push(input.to_string());
                table.len() as i32 - 1 + 1000
            }
        }
    }
}

pub mod token {
    use crate::language::Language;
    use crate::string::normalize;
    use std::ops::Range;

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct Token {
        pub value: String,
        pub range: Range<usize>,
        pub char_range: Range<usize>,
    }

    impl Token {
        pub fn new(value: String, range: Range<usize>, char_range: Range<usize>) -> Self {
            Token { value, range, char_range }
        }
        pub fn normalized_value(&self) -> String {
            normalize(&self.value)
        }
    }

    #[derive(PartialEq, Clone, Copy)]
    enum Class { Word, Symbol, Other }

    fn class(c: char) -> Class {
        match c {
            '_' => Class::Word,
            '?' | '!' | '&' | '%' | '{' | '}' | '[' | ']' | '-' | '+' | '=' | '#' | '@' | '$' | '*'
            | '<' | '>' | '~' | '€' => Class::Symbol,
            c if (c as u32) < 128 => {
                // same classes as char::is_alphanumeric, as range tests
                if (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') {
                    Class::Word
                } else {
                    Class::Other
                }
            }
            // combining marks belong to the word they follow (\w in the original)
            c if c >= '\u{300}' && c <= '\u{36f}' => Class::Word,
            c if c.is_alphanumeric() => Class::Word,
            _ => Class::Other,
        }
    }

    pub fn tokenize(input: &str, language: Language) -> Vec<Token> {
        crate::env::tokenized(input, language);
        let mut tokens: Vec<Token> = vec![];
        let mut previous = Class::Other;
        for (char_index, (byte_index, c)) in input.char_indices().enumerate() {
            let current = class(c);
            if current != Class::Other {
                if current != previous {
                    tokens.push(Token::new(
                        String::new(),
                        byte_index..byte_index,
                        char_index..char_index,
                    ));
                }
                let token = tokens.last_mut().unwrap();
                token.value.push(c);
                token.range.end = byte_index + c.len_utf8();
                token.char_range.end = char_index + 1;
            }
            previous = current;
        }
        tokens
    }

    pub fn tokenize_light(input: &str, language: Language) -> Vec<String> {
        tokenize(input, language).into_iter().map(|token| token.value).collect()
    }

    pub fn compute_all_ngrams(tokens: &[&str], max_ngram_size: usize) -> Vec<(String, Vec<usize>)> {
        let mut ngrams = vec![];
        for start in 0..tokens.len() {
            let mut last: Option<(String, Vec<usize>)> = None;
            for end in start..tokens.len().min(start + max_ngram_size) {
                let next = match last {
                    None => (tokens[end].to_string(), vec![end]),
                    Some((text, mut indexes)) => {
                        indexes.push(end);
                        (format!("{} {}", text, tokens[end]), indexes)
                    }
                };
                ngrams.push(next.clone());
                last = Some(next);
            }
        }
        ngrams
    }
}

/// What a harness can see of the calls.
pub mod env {
    use crate::language::Language;

    struct Global(std::cell::UnsafeCell<Option<Vec<(String, Language)>>>);
    unsafe impl Sync for Global {}
    static TOKENIZED: Global = Global(std::cell::UnsafeCell::new(None));

    /// starts keeping the texts cut into tokens
    pub fn record() {
        unsafe { *TOKENIZED.0.get() = Some(vec![]) }
    }
    /// the texts cut into tokens since `record`, and the language they were said to be in
    pub fn recorded() -> Vec<(String, Language)> {
        unsafe { (*TOKENIZED.0.get()).take() }.unwrap_or_default()
    }
    pub(crate) fn tokenized(text: &str, language: Language) {
        if let Some(all) = unsafe { (*TOKENIZED.0.get()).as_mut() } {
            all.push((text.to_string(), language));
        }
    }
}
