//! Stand-in for regex 1.x: a plain leftmost-first backtracking matcher for the syntax snips-nlu
//! models use (literals, classes, groups, named groups, alternation, greedy and lazy repetition,
//! anchors, \b), with the same public API for matches and captures.
use std::borrow::Cow;
use std::collections::HashMap;
use std::fmt;
use std::ops::{Index, Range};
use std::str::FromStr;

#[derive(Clone, PartialEq)]
pub enum Error {
    Syntax(String),
    CompiledTooBig(usize),
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Error::Syntax(s) => f.write_str(s),
            Error::CompiledTooBig(_) => f.write_str("compiled regex too big"),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone)]
enum Node {
    Empty,
    Char(char),
    Any,
    Class(Vec<ClassItem>, bool),
    Start,
    End,
    WordBoundary(bool),
    Concat(Vec<Node>),
    Alt(Vec<Node>),
    Group(usize, Box<Node>),
    Repeat(Box<Node>, usize, Option<usize>, bool),
}

#[derive(Debug, Clone)]
enum ClassItem {
    Range(char, char),
    Space(bool),
    Digit(bool),
    Word(bool),
}

fn is_space(c: char) -> bool {
    c.is_whitespace()
}
fn is_word(c: char) -> bool {
    if (c as u32) < 128 {
        (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'
    } else {
        c.is_alphanumeric()
    }
}
fn fold(c: char) -> char {
    if (c as u32) < 128 {
        c.to_ascii_lowercase()
    } else {
        let mut lower = c.to_lowercase();
        let first = lower.next().unwrap_or(c);
        if lower.next().is_some() {
            c
        } else {
            first
        }
    }
}

impl ClassItem {
    fn contains(&self, c: char) -> bool {
        match self {
            ClassItem::Range(a, b) => *a <= c && c <= *b,
            ClassItem::Space(yes) => is_space(c) == *yes,
            ClassItem::Digit(yes) => (c >= '0' && c <= '9') == *yes,
            ClassItem::Word(yes) => is_word(c) == *yes,
        }
    }
}

struct Parser<'a> {
    chars: Vec<char>,
    pos: usize,
    names: &'a mut Vec<Option<String>>,
}

impl<'a> Parser<'a> {
    fn peek(&self) -> Option<char> {
        self.chars.get(self.pos).cloned()
    }
    fn eat(&mut self, s: &str) -> bool {
        let s: Vec<char> = s.chars().collect();
        if self.chars[self.pos..].starts_with(&s) {
            self.pos += s.len();
            true
        } else {
            false
        }
    }
    fn error<T>(&self, message: &str) -> Result<T, Error> {
        Err(Error::Syntax(format!("regex parse error: {}", message)))
    }
    fn alternation(&mut self) -> Result<Node, Error> {
        let mut branches = vec![self.concat()?];
        while self.eat("|") {
            branches.push(self.concat()?);
        }
        Ok(if branches.len() == 1 { branches.pop().unwrap() } else { Node::Alt(branches) })
    }
    fn concat(&mut self) -> Result<Node, Error> {
        let mut items = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let atom = self.atom()?;
            items.push(self.repeat(atom)?);
        }
        Ok(match items.len() {
            0 => Node::Empty,
            1 => items.pop().unwrap(),
            _ => Node::Concat(items),
        })
    }
    fn repeat(&mut self, mut atom: Node) -> Result<Node, Error> {
        loop {
            let (min, max) = match self.peek() {
                Some('*') => (0, None),
                Some('+') => (1, None),
                Some('?') => (0, Some(1)),
                Some('{') => {
                    self.pos += 1;
                    let min = self.number()?;
                    let max = if self.eat(",") {
                        if self.peek() == Some('}') {
                            None
                        } else {
                            Some(self.number()?)
                        }
                    } else {
                        Some(min)
                    };
                    if self.peek() != Some('}') {
                        return self.error("repetition quantifier");
                    }
                    (min, max)
                }
                _ => return Ok(atom),
            };
            self.pos += 1;
            let greedy = !self.eat("?");
            atom = Node::Repeat(Box::new(atom), min, max, greedy);
        }
    }
    fn number(&mut self) -> Result<usize, Error> {
        let mut n = None;
        while let Some(d) = self.peek().and_then(|c| c.to_digit(10)) {
            n = Some(n.unwrap_or(0) * 10 + d as usize);
            self.pos += 1;
        }
        match n {
            Some(n) => Ok(n),
            None => self.error("number"),
        }
    }
    fn escape(&mut self) -> Result<Node, Error> {
        let c = match self.peek() {
            Some(c) => c,
            None => return self.error("incomplete escape sequence"),
        };
        self.pos += 1;
        Ok(match c {
            's' | 'S' => Node::Class(vec![ClassItem::Space(c == 's')], false),
            'd' | 'D' => Node::Class(vec![ClassItem::Digit(c == 'd')], false),
            'w' | 'W' => Node::Class(vec![ClassItem::Word(c == 'w')], false),
            'b' => Node::WordBoundary(true),
            'B' => Node::WordBoundary(false),
            'A' => Node::Start,
            'z' => Node::End,
            'n' => Node::Char('\n'),
            't' => Node::Char('\t'),
            'r' => Node::Char('\r'),
            c if c.is_ascii_alphanumeric() => return self.error("unrecognized escape sequence"),
            c => Node::Char(c),
        })
    }
    fn atom(&mut self) -> Result<Node, Error> {
        let c = self.peek().unwrap();
        self.pos += 1;
        match c {
            '.' => Ok(Node::Any),
            '^' => Ok(Node::Start),
            '$' => Ok(Node::End),
            '\\' => self.escape(),
            '*' | '+' | '?' | '{' => self.error("repetition operator missing expression"),
            '(' => {
                let group = if self.eat("?:") {
                    None
                } else if self.eat("?P<") || self.eat("?<") {
                    let mut name = String::new();
                    loop {
                        match self.peek() {
                            Some('>') => {
                                self.pos += 1;
                                break;
                            }
                            Some(c) if is_word(c) => {
                                name.push(c);
                                self.pos += 1;
                            }
                            _ => return self.error("invalid capture group name"),
                        }
                    }
                    if name.is_empty() || self.names.iter().any(|n| n.as_ref() == Some(&name)) {
                        return self.error("capture group name");
                    }
                    self.names.push(Some(name));
                    Some(self.names.len() - 1)
                } else if self.peek() == Some('?') {
                    return self.error("unrecognized flag");
                } else {
                    self.names.push(None);
                    Some(self.names.len() - 1)
                };
                let inner = self.alternation()?;
                if !self.eat(")") {
                    return self.error("unclosed group");
                }
                Ok(match group {
                    Some(index) => Node::Group(index, Box::new(inner)),
                    None => inner,
                })
            }
            '[' => {
                let negated = self.eat("^");
                let mut items = vec![];
                let mut first = true;
                loop {
                    let c = match self.peek() {
                        Some(c) => c,
                        None => return self.error("unclosed character class"),
                    };
                    self.pos += 1;
                    if c == ']' && !first {
                        break;
                    }
                    first = false;
                    let low = if c == '\\' {
                        match self.escape()? {
                            Node::Char(c) => c,
                            Node::Class(mut class, _) => {
                                items.append(&mut class);
                                continue;
                            }
                            _ => return self.error("invalid escape in class"),
                        }
                    } else {
                        c
                    };
                    if self.peek() == Some('-') && self.chars.get(self.pos + 1) != Some(&']') {
                        self.pos += 1;
                        let high = match self.peek() {
                            Some(c) => c,
                            None => return self.error("unclosed character class"),
                        };
                        self.pos += 1;
                        items.push(ClassItem::Range(low, high));
                    } else {
                        items.push(ClassItem::Range(low, low));
                    }
                }
                Ok(Node::Class(items, negated))
            }
            c => Ok(Node::Char(c)),
        }
    }
}

type Slots = Vec<Option<(usize, usize)>>;

struct Matcher<'t> {
    text: &'t str,
    case_insensitive: bool,
}

impl<'t> Matcher<'t> {
    fn next_char(&self, pos: usize) -> Option<char> {
        self.text[pos..].chars().next()
    }
    fn run(
        &self,
        node: &Node,
        pos: usize,
        caps: &mut Slots,
        k: &mut dyn FnMut(usize, &mut Slots) -> bool,
    ) -> bool {
        match node {
            Node::Empty => k(pos, caps),
            Node::Char(expected) => match self.next_char(pos) {
                Some(c)
                    if c == *expected || (self.case_insensitive && fold(c) == fold(*expected)) =>
                {
                    k(pos + c.len_utf8(), caps)
                }
                _ => false,
            },
            Node::Any => match self.next_char(pos) {
                Some(c) if c != '\n' => k(pos + c.len_utf8(), caps),
                _ => false,
            },
            Node::Class(items, negated) => match self.next_char(pos) {
                Some(c) => {
                    let mut inside = items.iter().any(|item| item.contains(c));
                    if !inside && self.case_insensitive {
                        let lower = fold(c);
                        let upper = c.to_uppercase().next().unwrap_or(c);
                        inside = items.iter().any(|item| item.contains(lower) || item.contains(upper));
                    }
                    inside != *negated && k(pos + c.len_utf8(), caps)
                }
                None => false,
            },
            Node::Start => pos == 0 && k(pos, caps),
            Node::End => pos == self.text.len() && k(pos, caps),
            Node::WordBoundary(yes) => {
                let before = self.text[..pos].chars().next_back().map(is_word).unwrap_or(false);
                let after = self.next_char(pos).map(is_word).unwrap_or(false);
                ((before != after) == *yes) && k(pos, caps)
            }
            Node::Concat(items) => self.concat(items, pos, caps, k),
            Node::Alt(branches) => branches.iter().any(|branch| self.run(branch, pos, caps, k)),
            Node::Group(index, inner) => {
                let index = *index;
                let old = caps[index];
                let matched = self.run(inner, pos, caps, &mut |end, caps: &mut Slots| {
                    let previous = caps[index];
                    caps[index] = Some((pos, end));
                    if k(end, caps) {
                        return true;
                    }
                    caps[index] = previous;
                    false
                });
                if !matched {
                    caps[index] = old;
                }
                matched
            }
            Node::Repeat(inner, min, max, greedy) => {
                self.repeat(inner, *min, *max, *greedy, 0, pos, caps, k)
            }
        }
    }
    fn concat(
        &self,
        items: &[Node],
        pos: usize,
        caps: &mut Slots,
        k: &mut dyn FnMut(usize, &mut Slots) -> bool,
    ) -> bool {
        match items.split_first() {
            None => k(pos, caps),
            Some((first, rest)) => {
                self.run(first, pos, caps, &mut |end, caps: &mut Slots| self.concat(rest, end, caps, k))
            }
        }
    }
    fn repeat(
        &self,
        inner: &Node,
        min: usize,
        max: Option<usize>,
        greedy: bool,
        count: usize,
        pos: usize,
        caps: &mut Slots,
        k: &mut dyn FnMut(usize, &mut Slots) -> bool,
    ) -> bool {
        let may_stop = count >= min;
        if !greedy && may_stop && k(pos, caps) {
            return true;
        }
        let may_continue = max.map(|max| count < max).unwrap_or(true);
        if may_continue
            && self.run(inner, pos, caps, &mut |end, caps: &mut Slots| {
                // an iteration that consumes nothing does not repeat
                if end == pos && count >= min {
                    return false;
                }
                self.repeat(inner, min, max, greedy, count + 1, end, caps, k)
            })
        {
            return true;
        }
        greedy && may_stop && k(pos, caps)
    }
}

#[derive(Clone)]
pub struct Regex {
    source: String,
    node: Node,
    names: Vec<Option<String>>,
    case_insensitive: bool,
}

impl fmt::Debug for Regex {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.source)
    }
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.source)
    }
}
impl FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        Regex::new(s)
    }
}

pub struct RegexBuilder {
    source: String,
    case_insensitive: bool,
}

impl RegexBuilder {
    pub fn new(pattern: &str) -> RegexBuilder {
        RegexBuilder { source: pattern.to_string(), case_insensitive: false }
    }
    pub fn case_insensitive(&mut self, yes: bool) -> &mut RegexBuilder {
        self.case_insensitive = yes;
        self
    }
    pub fn unicode(&mut self, _yes: bool) -> &mut RegexBuilder {
        self
    }
    pub fn size_limit(&mut self, _limit: usize) -> &mut RegexBuilder {
        self
    }
    pub fn dfa_size_limit(&mut self, _limit: usize) -> &mut RegexBuilder {
        self
    }
    pub fn build(&self) -> Result<Regex, Error> {
        let mut names = vec![None];
        let node = {
            let mut parser =
                Parser { chars: self.source.chars().collect(), pos: 0, names: &mut names };
            let node = parser.alternation()?;
            if parser.pos != parser.chars.len() {
                return parser.error("unopened group");
            }
            node
        };
        Ok(Regex {
            source: self.source.clone(),
            node,
            names,
            case_insensitive: self.case_insensitive,
        })
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Match<'t> {
    text: &'t str,
    start: usize,
    end: usize,
}
impl<'t> Match<'t> {
    pub fn start(&self) -> usize {
        self.start
    }
    pub fn end(&self) -> usize {
        self.end
    }
    pub fn range(&self) -> Range<usize> {
        self.start..self.end
    }
    pub fn as_str(&self) -> &'t str {
        &self.text[self.start..self.end]
    }
    pub fn len(&self) -> usize {
        self.end - self.start
    }
    pub fn is_empty(&self) -> bool {
        self.start == self.end
    }
}

#[derive(Debug, Clone)]
pub struct Captures<'t> {
    text: &'t str,
    slots: Slots,
    names: Vec<Option<String>>,
}
impl<'t> Captures<'t> {
    pub fn get(&self, i: usize) -> Option<Match<'t>> {
        let text = self.text;
        self.slots.get(i).and_then(|s| *s).map(|(start, end)| Match { text, start, end })
    }
    pub fn name(&self, name: &str) -> Option<Match<'t>> {
        self.names
            .iter()
            .position(|n| n.as_ref().map(|n| n == name).unwrap_or(false))
            .and_then(|i| self.get(i))
    }
    pub fn iter<'c>(&'c self) -> SubCaptureMatches<'c, 't> {
        SubCaptureMatches { captures: self, next: 0 }
    }
    pub fn len(&self) -> usize {
        self.slots.len()
    }
}
impl<'t> Index<usize> for Captures<'t> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).unwrap().as_str()
    }
}
impl<'t, 'i> Index<&'i str> for Captures<'t> {
    type Output = str;
    fn index(&self, name: &'i str) -> &str {
        self.name(name).unwrap().as_str()
    }
}

#[derive(Clone)]
pub struct SubCaptureMatches<'c, 't> {
    captures: &'c Captures<'t>,
    next: usize,
}
impl<'c, 't> Iterator for SubCaptureMatches<'c, 't> {
    type Item = Option<Match<'t>>;
    fn next(&mut self) -> Option<Option<Match<'t>>> {
        if self.next < self.captures.len() {
            self.next += 1;
            Some(self.captures.get(self.next - 1))
        } else {
            None
        }
    }
}

#[derive(Clone)]
pub struct CaptureNames<'r> {
    names: &'r [Option<String>],
    next: usize,
}
impl<'r> Iterator for CaptureNames<'r> {
    type Item = Option<&'r str>;
    fn next(&mut self) -> Option<Option<&'r str>> {
        if self.next < self.names.len() {
            self.next += 1;
            Some(self.names[self.next - 1].as_ref().map(|n| n.as_str()))
        } else {
            None
        }
    }
}

pub struct CaptureMatches<'r, 't> {
    regex: &'r Regex,
    text: &'t str,
    at: Option<usize>,
    last_end: Option<usize>,
}
impl<'r, 't> Iterator for CaptureMatches<'r, 't> {
    type Item = Captures<'t>;
    fn next(&mut self) -> Option<Captures<'t>> {
        loop {
            let at = self.at?;
            let captures = match self.regex.captures_at(self.text, at) {
                Some(captures) => captures,
                None => {
                    self.at = None;
                    return None;
                }
            };
            let (start, end) = captures.slots[0].unwrap();
            if start == end {
                self.at = self.text[end..].chars().next().map(|c| end + c.len_utf8());
                if self.last_end == Some(end) {
                    continue;
                }
            } else {
                self.at = Some(end);
            }
            self.last_end = Some(end);
            return Some(captures);
        }
    }
}

pub struct Matches<'r, 't>(CaptureMatches<'r, 't>);
impl<'r, 't> Iterator for Matches<'r, 't> {
    type Item = Match<'t>;
    fn next(&mut self) -> Option<Match<'t>> {
        self.0.next().map(|c| c.get(0).unwrap())
    }
}

pub trait Replacer {
    fn replace_append(&mut self, caps: &Captures, dst: &mut String);
}
impl<'a> Replacer for &'a str {
    fn replace_append(&mut self, _caps: &Captures, dst: &mut String) {
        dst.push_str(self)
    }
}
impl<F: FnMut(&Captures) -> T, T: AsRef<str>> Replacer for F {
    fn replace_append(&mut self, caps: &Captures, dst: &mut String) {
        dst.push_str((*self)(caps).as_ref())
    }
}

impl Regex {
    pub fn new(pattern: &str) -> Result<Regex, Error> {
        RegexBuilder::new(pattern).build()
    }
    fn captures_at<'t>(&self, text: &'t str, at: usize) -> Option<Captures<'t>> {
        let matcher = Matcher { text, case_insensitive: self.case_insensitive };
        let mut start = at;
        loop {
            let mut slots: Slots = vec![None; self.names.len()];
            let mut found: Option<Slots> = None;
            matcher.run(&self.node, start, &mut slots, &mut |end, caps: &mut Slots| {
                let mut result = caps.clone();
                result[0] = Some((start, end));
                found = Some(result);
                true
            });
            if let Some(slots) = found {
                return Some(Captures { text, slots, names: self.names.clone() });
            }
            start += text[start..].chars().next()?.len_utf8();
        }
    }
    pub fn is_match(&self, text: &str) -> bool {
        self.captures_at(text, 0).is_some()
    }
    pub fn find<'t>(&self, text: &'t str) -> Option<Match<'t>> {
        self.captures_at(text, 0).and_then(|c| c.get(0))
    }
    pub fn find_iter<'r, 't>(&'r self, text: &'t str) -> Matches<'r, 't> {
        Matches(self.captures_iter(text))
    }
    pub fn captures<'t>(&self, text: &'t str) -> Option<Captures<'t>> {
        self.captures_at(text, 0)
    }
    pub fn captures_iter<'r, 't>(&'r self, text: &'t str) -> CaptureMatches<'r, 't> {
        CaptureMatches { regex: self, text, at: Some(0), last_end: None }
    }
    pub fn capture_names(&self) -> CaptureNames<'_> {
        CaptureNames { names: &self.names, next: 0 }
    }
    pub fn captures_len(&self) -> usize {
        self.names.len()
    }
    pub fn as_str(&self) -> &str {
        &self.source
    }
    pub fn replacen<'t, R: Replacer>(&self, text: &'t str, limit: usize, mut rep: R) -> Cow<'t, str> {
        let mut out = String::new();
        let mut last = 0;
        for (i, caps) in self.captures_iter(text).enumerate() {
            if limit > 0 && i >= limit {
                break;
            }
            let m = caps.get(0).unwrap();
            out.push_str(&text[last..m.start()]);
            rep.replace_append(&caps, &mut out);
            last = m.end();
        }
        out.push_str(&text[last..]);
        Cow::Owned(out)
    }
    pub fn replace<'t, R: Replacer>(&self, text: &'t str, rep: R) -> Cow<'t, str> {
        self.replacen(text, 1, rep)
    }
    pub fn shortest_match(&self, text: &str) -> Option<usize> {
        self.find(text).map(|m| m.end())
    }
    pub fn replace_all<'t, R: Replacer>(&self, text: &'t str, mut rep: R) -> Cow<'t, str> {
        let mut out = String::new();
        let mut last = 0;
        for caps in self.captures_iter(text) {
            let m = caps.get(0).unwrap();
            out.push_str(&text[last..m.start()]);
            rep.replace_append(&caps, &mut out);
            last = m.end();
        }
        out.push_str(&text[last..]);
        Cow::Owned(out)
    }
    pub fn split<'t>(&self, text: &'t str) -> std::vec::IntoIter<&'t str> {
        let mut out = vec![];
        let mut last = 0;
        for m in self.find_iter(text) {
            out.push(&text[last..m.start()]);
            last = m.end();
        }
        out.push(&text[last..]);
        out.into_iter()
    }
}

pub fn escape(text: &str) -> String {
    let mut out = String::new();
    for c in text.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(c) {
            out.push('\\');
        }
        out.push(c);
    }
    out
}

#[allow(dead_code)]
type Names = HashMap<String, usize>;
