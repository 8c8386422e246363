//! Stands in for the library that asks questions on a terminal: every question goes, as a line of JSON, to the file
//! descriptor that DIALOG_FD names, and the answer comes as a line of JSON from the standard input.
use serde_json::{json, Value as J};
use std::{
    io::{self, BufRead, Write},
    marker::PhantomData,
    os::fd::FromRawFd,
    str::FromStr,
    sync::Mutex,
};

#[derive(thiserror::Error, Debug)]
pub enum Error {
    #[error("IO error: {0}")]
    IO(#[from] io::Error),
}
pub type Result<T = ()> = std::result::Result<T, Error>;

pub mod theme {
    pub trait Theme {}
    #[derive(Default, Debug, Clone, Copy)]
    pub struct SimpleTheme;
    #[derive(Default, Debug, Clone, Copy)]
    pub struct ColorfulTheme {}
    impl Theme for SimpleTheme {}
    impl Theme for ColorfulTheme {}
}
use theme::{SimpleTheme, Theme};

static ASKING: Mutex<()> = Mutex::new(());
fn ask(q: &J) -> Result<J> {
    let _one = ASKING.lock();
    let fail = |k: io::ErrorKind, m: &str| Error::IO(io::Error::new(k, m.to_string()));
    let fd: i32 = std::env::var("DIALOG_FD").ok().and_then(|v| v.parse().ok()).ok_or_else(|| fail(io::ErrorKind::NotConnected, "not a terminal"))?;
    //what was printed so far is to be seen first
    io::stdout().flush()?;
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    f.write_all(format!("{q}\n").as_bytes())?;
    let mut line = String::new();
    if io::stdin().lock().read_line(&mut line)? == 0 {
        return Err(fail(io::ErrorKind::UnexpectedEof, "no answer"));
    }
    let a: J = serde_json::from_str(&line).map_err(|_| fail(io::ErrorKind::InvalidData, "no such answer"))?;
    if a.get("end").is_some() {
        return Err(fail(io::ErrorKind::Interrupted, "read interrupted"));
    }
    Ok(a)
}
fn strange<T>(a: &J) -> Result<T> {
    Err(Error::IO(io::Error::new(io::ErrorKind::InvalidData, format!("not an answer to this: {a}"))))
}

#[derive(Clone)]
pub struct Confirm<'a> {
    prompt: String,
    default: Option<bool>,
    p: PhantomData<&'a ()>,
}
impl Default for Confirm<'static> {
    fn default() -> Self {
        Self::new()
    }
}
impl Confirm<'static> {
    pub fn new() -> Self {
        Self::with_theme(&SimpleTheme)
    }
}
impl<'a> Confirm<'a> {
    pub fn with_theme(_: &'a dyn Theme) -> Self {
        Self { prompt: String::new(), default: None, p: PhantomData }
    }
    pub fn with_prompt<S: Into<String>>(mut self, prompt: S) -> Self {
        self.prompt = prompt.into();
        self
    }
    pub fn report(self, _: bool) -> Self {
        self
    }
    pub fn wait_for_newline(self, _: bool) -> Self {
        self
    }
    pub fn default(mut self, val: bool) -> Self {
        self.default = Some(val);
        self
    }
    pub fn show_default(self, _: bool) -> Self {
        self
    }
    pub fn interact(self) -> Result<bool> {
        loop {
            if let Some(b) = self.go()? {
                return Ok(b);
            }
        }
    }
    pub fn interact_opt(self) -> Result<Option<bool>> {
        self.go()
    }
    fn go(&self) -> Result<Option<bool>> {
        let a = ask(&json!({"kind": "confirm", "prompt": self.prompt, "default": self.default}))?;
        if a.get("enter").is_some() {
            return Ok(self.default);
        }
        if a.get("none").is_some() {
            return Ok(None);
        }
        a.get("yes").and_then(J::as_bool).map_or_else(|| strange(&a), |b| Ok(Some(b)))
    }
}

type Check<'a, T> = Box<dyn FnMut(&T) -> Option<String> + 'a>;
pub trait InputValidator<T> {
    type Err;
    fn validate(&mut self, input: &T) -> std::result::Result<(), Self::Err>;
}
impl<T, F, E> InputValidator<T> for F
where
    F: FnMut(&T) -> std::result::Result<(), E>,
{
    type Err = E;
    fn validate(&mut self, input: &T) -> std::result::Result<(), Self::Err> {
        self(input)
    }
}
pub trait Completion {
    fn get(&self, input: &str) -> Option<String>;
}
pub trait History<T> {
    fn read(&self, pos: usize) -> Option<String>;
    fn write(&mut self, val: &T);
}

pub struct Input<'a, T> {
    prompt: String,
    default: Option<T>,
    empty: bool,
    check: Option<Check<'a, T>>,
}
impl<T: 'static> Default for Input<'static, T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: 'static> Input<'static, T> {
    pub fn new() -> Self {
        Self::with_theme(&SimpleTheme)
    }
}
impl<'a, T: 'a> Input<'a, T> {
    pub fn with_theme(_: &'a dyn Theme) -> Self {
        Self { prompt: String::new(), default: None, empty: false, check: None }
    }
    pub fn with_prompt<S: Into<String>>(mut self, prompt: S) -> Self {
        self.prompt = prompt.into();
        self
    }
    pub fn with_post_completion_text<S: Into<String>>(self, _: S) -> Self {
        self
    }
    pub fn report(self, _: bool) -> Self {
        self
    }
    pub fn default(mut self, value: T) -> Self {
        self.default = Some(value);
        self
    }
    pub fn allow_empty(mut self, val: bool) -> Self {
        self.empty = val;
        self
    }
    pub fn show_default(self, _: bool) -> Self {
        self
    }
    pub fn history_with<H: History<T>>(self, _: &'a mut H) -> Self {
        self
    }
    pub fn completion_with<C: Completion>(self, _: &'a C) -> Self {
        self
    }
    pub fn validate_with<V>(mut self, mut validator: V) -> Self
    where
        V: InputValidator<T> + 'a,
        T: 'a,
        V::Err: ToString,
    {
        let mut old = self.check.take();
        self.check = Some(Box::new(move |v: &T| old.as_mut().and_then(|o| o(v)).or_else(|| validator.validate(v).err().map(|e| e.to_string()))));
        self
    }
    pub fn interact(mut self) -> Result<T>
    where
        T: Clone + FromStr,
        <T as FromStr>::Err: ToString,
    {
        let mut error = None;
        loop {
            let a = ask(&json!({"kind": "input", "prompt": self.prompt, "error": error}))?;
            let Some(text) = a.get("text").and_then(J::as_str) else { return strange(&a) };
            let v = if text.is_empty() && self.default.is_some() {
                self.default.clone().unwrap()
            } else if text.is_empty() && !self.empty {
                continue;
            } else {
                match text.parse::<T>() {
                    Ok(v) => v,
                    Err(e) => {
                        error = Some(e.to_string());
                        continue;
                    }
                }
            };
            match self.check.as_mut().and_then(|c| c(&v)) {
                Some(e) => error = Some(e),
                None => return Ok(v),
            }
        }
    }
    pub fn interact_text(self) -> Result<T>
    where
        T: Clone + FromStr,
        <T as FromStr>::Err: ToString,
    {
        self.interact()
    }
}

macro_rules! select {
    ($n:ident) => {
        #[derive(Clone)]
        pub struct $n<'a> {
            prompt: String,
            default: Option<usize>,
            items: Vec<String>,
            p: PhantomData<&'a ()>,
        }
        impl Default for $n<'static> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl $n<'static> {
            pub fn new() -> Self {
                Self::with_theme(&SimpleTheme)
            }
        }
        impl<'a> $n<'a> {
            pub fn with_theme(_: &'a dyn Theme) -> Self {
                Self { prompt: String::new(), default: None, items: vec![], p: PhantomData }
            }
            pub fn with_prompt<S: Into<String>>(mut self, prompt: S) -> Self {
                self.prompt = prompt.into();
                self
            }
            pub fn clear(self, _: bool) -> Self {
                self
            }
            pub fn report(self, _: bool) -> Self {
                self
            }
            pub fn highlight_matches(self, _: bool) -> Self {
                self
            }
            pub fn vim_mode(self, _: bool) -> Self {
                self
            }
            pub fn max_length(self, _: usize) -> Self {
                self
            }
            pub fn with_initial_text<S: Into<String>>(self, _: S) -> Self {
                self
            }
            pub fn default(mut self, val: usize) -> Self {
                self.default = Some(val);
                self
            }
            pub fn item<T: ToString>(mut self, item: T) -> Self {
                self.items.push(item.to_string());
                self
            }
            pub fn items<T: ToString>(mut self, items: &[T]) -> Self {
                self.items.extend(items.iter().map(|i| i.to_string()));
                self
            }
            pub fn interact(self) -> Result<usize> {
                loop {
                    if let Some(i) = self.go()? {
                        return Ok(i);
                    }
                }
            }
            pub fn interact_opt(self) -> Result<Option<usize>> {
                self.go()
            }
            fn go(&self) -> Result<Option<usize>> {
                let a = ask(&json!({"kind": "select", "prompt": self.prompt, "items": self.items, "default": self.default}))?;
                if a.get("none").is_some() {
                    return Ok(None);
                }
                //the library finds what was picked by its text
                match a.get("pick").and_then(J::as_u64) {
                    Some(i) if (i as usize) < self.items.len() => Ok(self.items.iter().position(|x| *x == self.items[i as usize])),
                    _ => strange(&a),
                }
            }
        }
    };
}
select!(FuzzySelect);
select!(Select);
