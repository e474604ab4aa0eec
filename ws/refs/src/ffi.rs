//! The C interface used from Go.
use std::ffi::{c_char, c_void, CStr, CString};
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, UnwindSafe};
use std::sync::{Arc, Mutex};

pub struct Scanner {
    x: i64,
}
pub struct ScannerBuilder {
    x: i64,
}
pub struct RuleMatch {
    x: i64,
}
pub trait RuleConfig {}
pub struct RegexRuleConfig {
    x: i64,
}
impl RuleConfig for RegexRuleConfig {}
pub struct BinaryEvent {
    pub storage: Vec<u8>,
}
impl BinaryEvent {
    pub fn new(bytes: Vec<u8>, valid: bool) -> Self {
        unimplemented!()
    }
}
pub enum CreateScannerError {
    InvalidRegex(i64),
    InvalidKeywords(i64),
    InvalidMatchAction(i64),
    InvalidMatchValidator(i64),
}
impl From<CreateScannerError> for i64 {
    fn from(e: CreateScannerError) -> i64 {
        match e {
            CreateScannerError::InvalidRegex(_) => -2,
            CreateScannerError::InvalidKeywords(_) => -3,
            CreateScannerError::InvalidMatchAction(_) => -4,
            CreateScannerError::InvalidMatchValidator(_) => -5,
        }
    }
}
impl Scanner {
    pub fn builder(rules: &[Arc<dyn RuleConfig>]) -> ScannerBuilder {
        unimplemented!()
    }
    pub fn scan(&self, event: &mut BinaryEvent, blocked: Vec<usize>) -> Vec<RuleMatch> {
        unimplemented!()
    }
}
impl ScannerBuilder {
    pub fn with_keywords_should_match_event_paths(self, v: bool) -> Self {
        unimplemented!()
    }
    pub fn build(self) -> Result<Scanner, CreateScannerError> {
        unimplemented!()
    }
}
pub fn encode_response(storage: &Vec<u8>, matches: &[RuleMatch]) -> Option<Vec<u8>> {
    unimplemented!()
}
pub unsafe fn read_json(p: *const c_char) -> Result<RegexRuleConfig, std::fmt::Error> {
    unimplemented!()
}

const NOTHING: &str = "Rust panicked. No more information is available.";

fn caught<R>(f: impl FnOnce() -> R + UnwindSafe) -> Result<R, String> {
    match catch_unwind(f) {
        Ok(v) => Ok(v),
        Err(e) => Err(match e.downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match e.downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => NOTHING.to_string(),
            },
        }),
    }
}

fn text(m: String) -> *const c_char {
    CString::new(m).unwrap_or(CString::new(NOTHING).unwrap()).into_raw()
}

pub fn scan(id: i64, event: *const c_void, size: i64, retsize: *mut i64, retcapacity: *mut i64, error_out: *mut *const c_char) -> *const c_char {
    let r = caught(|| {
        let scanner = ManuallyDrop::new(unsafe { Arc::from_raw(id as *const Scanner) });
        let data = unsafe { std::slice::from_raw_parts(event.cast(), size as usize) }.to_vec();
        let mut e = BinaryEvent::new(data, false);
        let matches = scanner.scan(&mut e, vec![]);
        match encode_response(&e.storage, &matches) {
            Some(v) => {
                let mut v = ManuallyDrop::new(v);
                unsafe {
                    *retcapacity = v.capacity() as i64;
                    *retsize = v.len() as i64;
                }
                v.as_mut_ptr() as *const c_char
            }
            None => {
                unsafe {
                    *retcapacity = 0;
                    *retsize = 0;
                }
                0 as *const c_char
            }
        }
    });
    match r {
        Ok(p) => p,
        Err(m) => {
            unsafe {
                *error_out = text(m);
                *retsize = 0;
                *retcapacity = 0;
            }
            0 as *const c_char
        }
    }
}

pub fn create_scanner(list: i64, error_out: *mut *const c_char, paths: bool) -> i64 {
    let r = caught(|| {
        let list = ManuallyDrop::new(unsafe { Arc::<Mutex<Vec<Arc<dyn RuleConfig>>>>::from_raw(list as *const _) });
        let rules = list.lock().unwrap();
        match Scanner::builder(&rules).with_keywords_should_match_event_paths(paths).build() {
            Ok(s) => Arc::into_raw(Arc::new(s)) as i64,
            Err(e) => e.into(),
        }
    });
    match r {
        Ok(v) => v,
        Err(m) => {
            unsafe { *error_out = text(m) };
            -5
        }
    }
}

pub fn create_regex_rule(json: *const c_char) -> i64 {
    match caught(|| {
        let config = unsafe { read_json(json).unwrap() };
        let rule: Arc<dyn RuleConfig> = Arc::new(config);
        Arc::into_raw(Arc::new(rule)) as i64
    }) {
        Ok(v) => v,
        Err(_) => -5,
    }
}

pub fn create_rule_list() -> i64 {
    match caught(|| Arc::into_raw(Arc::new(Mutex::new(Vec::<Arc<dyn RuleConfig>>::new()))) as i64) {
        Ok(v) => v,
        Err(_) => -5,
    }
}

pub fn append(rule: i64, list: i64) {
    let _ = caught(|| {
        let rule = ManuallyDrop::new(unsafe { Arc::<Arc<dyn RuleConfig>>::from_raw(rule as *const _) });
        let list = ManuallyDrop::new(unsafe { Arc::<Mutex<Vec<Arc<dyn RuleConfig>>>>::from_raw(list as *const _) });
        list.lock().unwrap().push((**rule).clone());
    });
}

pub fn read<T: serde::de::DeserializeOwned>(p: *const c_char) -> Result<T, serde_json::Error> {
    serde_json::from_str(&unsafe { CStr::from_ptr(p) }.to_string_lossy())
}

pub fn free_vec(p: *const c_char, len: i64, cap: i64) {
    unsafe { drop(Vec::from_raw_parts(p as *mut c_char, len as usize, cap as usize)) }
}
