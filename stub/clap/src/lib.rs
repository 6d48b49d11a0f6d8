//! The part of clap 2 that pa2 uses, reading its arguments from `set_args`.
//! Arguments that do not fit the declared ones end in `refused`.
use std::cell::UnsafeCell;
use std::collections::BTreeMap;

struct Args(UnsafeCell<Vec<String>>, UnsafeCell<Option<fn(String) -> !>>);
unsafe impl Sync for Args {}
static ARGS: Args = Args(UnsafeCell::new(Vec::new()), UnsafeCell::new(None));
pub fn set_args(a: &[&str]) { unsafe { *ARGS.0.get() = a.iter().map(|s| s.to_string()).collect() } }
pub fn on_refusal(f: fn(String) -> !) { unsafe { *ARGS.1.get() = Some(f) } }

#[derive(Clone, Debug)]
pub struct Arg<'a, 'b> { name: &'a str, long: Option<&'b str>, short: Option<&'b str>, required: bool, takes_value: bool, index: Option<u64>, multiple: bool, default: Option<&'a str>, possible: Vec<&'b str> }
impl<'a, 'b> Arg<'a, 'b> {
    pub fn with_name(n: &'a str) -> Self { Arg { name: n, long: None, short: None, required: false, takes_value: false, index: None, multiple: false, default: None, possible: vec![] } }
    pub fn long(mut self, s: &'b str) -> Self { self.long = Some(s); self }
    pub fn short(mut self, s: &'b str) -> Self { self.short = Some(s); self }
    pub fn help(self, _: &'b str) -> Self { self }
    pub fn long_help(self, _: &'b str) -> Self { self }
    pub fn value_name(self, _: &'b str) -> Self { self }
    pub fn required(mut self, r: bool) -> Self { self.required = r; self }
    pub fn takes_value(mut self, r: bool) -> Self { self.takes_value = r; self }
    pub fn multiple(mut self, r: bool) -> Self { self.multiple = r; self }
    pub fn index(mut self, i: u64) -> Self { self.index = Some(i); self }
    pub fn default_value(mut self, s: &'a str) -> Self { self.default = Some(s); self.takes_value = true; self }
    pub fn possible_values(mut self, v: &[&'b str]) -> Self { self.possible = v.to_vec(); self.takes_value = true; self }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AppSettings { SubcommandRequired, SubcommandRequiredElseHelp, ArgRequiredElseHelp, ColoredHelp, VersionlessSubcommands, DisableVersion, GlobalVersion, InferSubcommands, AllowLeadingHyphen, TrailingVarArg }

#[derive(Clone, Debug)]
pub struct App<'a, 'b> { name: String, args: Vec<Arg<'a, 'b>>, subs: Vec<App<'a, 'b>>, hyphen: bool }
pub struct SubCommand;
impl SubCommand { pub fn with_name<'a, 'b>(n: &str) -> App<'a, 'b> { App { name: n.to_string(), args: vec![], subs: vec![], hyphen: false } } }
impl<'a, 'b> App<'a, 'b> {
    pub fn new<S: Into<String>>(n: S) -> Self { App { name: n.into(), args: vec![], subs: vec![], hyphen: false } }
    pub fn author<S: Into<&'b str>>(self, _: S) -> Self { self }
    pub fn version<S: Into<&'b str>>(self, _: S) -> Self { self }
    pub fn about<S: Into<&'b str>>(self, _: S) -> Self { self }
    pub fn long_about<S: Into<&'b str>>(self, _: S) -> Self { self }
    pub fn after_help<S: Into<&'b str>>(self, _: S) -> Self { self }
    pub fn setting(mut self, s: AppSettings) -> Self { if s == AppSettings::AllowLeadingHyphen { self.hyphen = true } self }
    pub fn settings(mut self, s: &[AppSettings]) -> Self { for x in s { self = self.setting(*x) } self }
    pub fn arg(mut self, a: Arg<'a, 'b>) -> Self { self.args.push(a); self }
    pub fn args(mut self, a: &[Arg<'a, 'b>]) -> Self { self.args.extend(a.iter().cloned()); self }
    pub fn subcommand(mut self, s: App<'a, 'b>) -> Self { self.subs.push(s); self }
    pub fn subcommands<I: IntoIterator<Item = App<'a, 'b>>>(mut self, s: I) -> Self { self.subs.extend(s); self }
    pub fn get_matches(self) -> ArgMatches<'a> {
        let a = unsafe { (*ARGS.0.get()).clone() };
        match self.parse(&a) { Ok(m) => m, Err(e) => match unsafe { *ARGS.1.get() } { Some(f) => f(e), None => panic!("{}", e) } }
    }
    pub fn get_matches_from<I: IntoIterator<Item = T>, T: Into<String>>(self, it: I) -> ArgMatches<'a> {
        let v: Vec<String> = it.into_iter().map(Into::into).collect();
        match self.parse(&v[1..]) { Ok(m) => m, Err(e) => match unsafe { *ARGS.1.get() } { Some(f) => f(e), None => panic!("{}", e) } }
    }
    fn put(m: &mut ArgMatches<'a>, a: &Arg<'a, 'b>, v: &str) -> Result<(), String> {
        if !a.possible.is_empty() && !a.possible.contains(&v) { return Err(format!("'{}' isn't a valid value for {}", v, a.name)); }
        m.given.push(a.name.to_string());
        m.vals.entry(a.name.to_string()).or_default().push(v.to_string());
        Ok(())
    }
    fn parse(&self, av: &[String]) -> Result<ArgMatches<'a>, String> {
        let mut m = ArgMatches { vals: BTreeMap::new(), flags: vec![], given: vec![], sub: None, p: std::marker::PhantomData };
        let mut pos = 1;
        let mut i = 0;
        let mut plain = false;
        while i < av.len() {
            let s = av[i].as_str();
            i += 1;
            if !plain && s == "--" { plain = true; continue; }
            if !plain && s.len() > 1 && s.starts_with('-') && !self.hyphen {
                let (key, val) = match s.split_once('=') { Some((k, v)) => (k, Some(v)), None => (s, None) };
                let a = self.args.iter().find(|a| if let Some(l) = key.strip_prefix("--") { a.long == Some(l) } else { a.short == Some(&key[1..]) }).ok_or_else(|| format!("unexpected argument {}", s))?;
                if a.takes_value {
                    let v = match val { Some(v) => v.to_string(), None => { let v = av.get(i).ok_or_else(|| format!("{} needs a value", s))?; i += 1; v.clone() } };
                    if m.vals.contains_key(a.name) && !a.multiple { return Err(format!("{} was given twice", s)); }
                    Self::put(&mut m, a, &v)?;
                } else { m.flags.push(a.name.to_string()); }
                continue;
            }
            if !plain { if let Some(sub) = self.subs.iter().find(|x| x.name == s) {
                m.sub = Some((sub.name.clone(), Box::new(sub.parse(&av[i..])?)));
                i = av.len();
                continue;
            } }
            let a = self.args.iter().find(|a| a.index == Some(pos)).ok_or_else(|| format!("unexpected argument {}", s))?;
            Self::put(&mut m, a, s)?;
            if !a.multiple { pos += 1 }
        }
        for a in &self.args {
            if !m.vals.contains_key(a.name) { if let Some(d) = a.default { m.vals.insert(a.name.to_string(), vec![d.to_string()]); } }
            if a.required && !m.vals.contains_key(a.name) && !m.flags.iter().any(|f| f == a.name) { return Err(format!("{} is required", a.name)); }
        }
        Ok(m)
    }
}

#[derive(Clone, Debug)]
pub struct ArgMatches<'a> { vals: BTreeMap<String, Vec<String>>, flags: Vec<String>, given: Vec<String>, sub: Option<(String, Box<ArgMatches<'a>>)>, p: std::marker::PhantomData<&'a ()> }
#[derive(Clone)]
pub struct Values<'a>(std::slice::Iter<'a, String>);
impl<'a> Iterator for Values<'a> { type Item = &'a str; fn next(&mut self) -> Option<&'a str> { self.0.next().map(|s| s.as_str()) } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl<'a> DoubleEndedIterator for Values<'a> { fn next_back(&mut self) -> Option<&'a str> { self.0.next_back().map(|s| s.as_str()) } }
impl<'a> ExactSizeIterator for Values<'a> {}
impl<'a> ArgMatches<'a> {
    pub fn value_of<S: AsRef<str>>(&self, n: S) -> Option<&str> { self.vals.get(n.as_ref()).and_then(|v| v.first()).map(|s| s.as_str()) }
    pub fn values_of<S: AsRef<str>>(&'a self, n: S) -> Option<Values<'a>> { self.vals.get(n.as_ref()).map(|v| Values(v.iter())) }
    pub fn is_present<S: AsRef<str>>(&self, n: S) -> bool { let n = n.as_ref(); self.vals.contains_key(n) || self.flags.iter().any(|f| f == n) || self.sub.as_ref().map_or(false, |s| s.0 == n) }
    pub fn occurrences_of<S: AsRef<str>>(&self, n: S) -> u64 { let n = n.as_ref(); self.flags.iter().chain(&self.given).filter(|f| *f == n).count() as u64 }
    pub fn subcommand(&self) -> (&str, Option<&ArgMatches<'a>>) { match &self.sub { Some((n, m)) => (n.as_str(), Some(m)), None => ("", None) } }
    pub fn subcommand_name(&self) -> Option<&str> { self.sub.as_ref().map(|s| s.0.as_str()) }
    pub fn subcommand_matches<S: AsRef<str>>(&self, n: S) -> Option<&ArgMatches<'a>> { self.sub.as_ref().filter(|s| s.0 == n.as_ref()).map(|s| &*s.1) }
}
#[macro_export]
macro_rules! crate_version { () => { env!("CARGO_PKG_VERSION") }; }
#[macro_export]
macro_rules! crate_name { () => { env!("CARGO_PKG_NAME") }; }
#[macro_export]
macro_rules! crate_authors { ($($t:tt)*) => { "" }; }
