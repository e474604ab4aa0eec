//! Rules as configured and rules as compiled.
use std::sync::Arc;

#[derive(Clone)]
pub struct Label(u8);
#[derive(Clone)]
pub struct Labels(Vec<Label>);
impl Labels {
    fn clone_with_labels(&self, _l: Labels) -> Labels {
        loop {}
    }
}
impl Default for Labels {
    fn default() -> Self {
        Labels(vec![])
    }
}
#[derive(Clone)]
pub struct PartialRedactDirection(u8);
#[derive(Clone)]
pub enum MatchAction {
    None,
    Redact { replacement: String },
    Hash,
    PartialRedact { direction: PartialRedactDirection, character_count: usize },
}
pub struct MatchActionValidationError(u8);
impl MatchAction {
    fn validate(&self) -> Result<(), MatchActionValidationError> {
        loop {}
    }
}
pub struct RegexValidationError(u8);
pub struct ProximityKeywordsValidationError(u8);
pub struct MatchValidatorCreationError(u8);
pub enum CreateScannerError {
    InvalidRegex(RegexValidationError),
    InvalidKeywords(ProximityKeywordsValidationError),
    InvalidMatchAction(MatchActionValidationError),
    InvalidMatchValidator(MatchValidatorCreationError),
}
impl From<RegexValidationError> for CreateScannerError {
    fn from(e: RegexValidationError) -> Self {
        CreateScannerError::InvalidRegex(e)
    }
}
impl From<MatchActionValidationError> for CreateScannerError {
    fn from(e: MatchActionValidationError) -> Self {
        CreateScannerError::InvalidMatchAction(e)
    }
}
impl From<ProximityKeywordsValidationError> for CreateScannerError {
    fn from(e: ProximityKeywordsValidationError) -> Self {
        CreateScannerError::InvalidKeywords(e)
    }
}
#[derive(Clone)]
pub struct Path(u8);
#[derive(Clone)]
pub enum Scope {
    Include { include: Vec<Path>, exclude: Vec<Path> },
    Exclude(Vec<Path>),
}
impl Default for Scope {
    fn default() -> Self {
        Scope::Exclude(vec![])
    }
}
#[derive(Clone)]
pub struct ProximityKeywordsConfig(u8);
#[derive(Clone)]
pub struct SecondaryValidator(u8);
pub trait Validator {}
impl Validator for SecondaryValidator {}
#[derive(Clone)]
pub struct MatchValidationType(u8);
impl MatchValidationType {
    fn get_internal_match_validation_type(&self) -> InternalMatchValidationType {
        loop {}
    }
}
pub struct InternalMatchValidationType(u8);
pub struct CompiledIncludedProximityKeywords(u8);
pub struct CompiledExcludedProximityKeywords(u8);
pub struct Counter(u8);
impl Counter {
    fn increment(&self, _n: u64) {
        loop {}
    }
}
pub struct RuleMetrics {
    pub false_positive_excluded_attributes: Counter,
}
impl RuleMetrics {
    fn new(_l: &Labels) -> Self {
        loop {}
    }
}
pub struct SharedRegex(u8);
pub struct Regex(u8);
fn get_memoized_regex<T>(_k: &str, _f: impl FnOnce(&str) -> Result<Regex, T>) -> Result<SharedRegex, T> {
    loop {}
}
fn validate_and_create_regex(_p: &str) -> Result<Regex, RegexValidationError> {
    loop {}
}
fn compile_keywords_proximity_config(_c: &ProximityKeywordsConfig, _l: &Labels) -> Result<(Option<CompiledIncludedProximityKeywords>, Option<CompiledExcludedProximityKeywords>), ProximityKeywordsValidationError> {
    loop {}
}
pub struct RegexCompiledRule {
    pub rule_index: usize,
    pub regex: SharedRegex,
    pub match_action: MatchAction,
    pub scope: Scope,
    pub included_keywords: Option<CompiledIncludedProximityKeywords>,
    pub excluded_keywords: Option<CompiledExcludedProximityKeywords>,
    pub validator: Option<Arc<dyn Validator>>,
    pub metrics: RuleMetrics,
    pub match_validation_type: Option<MatchValidationType>,
    pub internal_match_validation_type: Option<InternalMatchValidationType>,
}
pub trait CompiledRuleDyn {}
impl CompiledRuleDyn for RegexCompiledRule {}

#[derive(Clone)]
pub struct RegexRuleConfig {
    pub pattern: String,
    pub match_action: MatchAction,
    pub scope: Scope,
    pub proximity_keywords: Option<ProximityKeywordsConfig>,
    pub validator: Option<SecondaryValidator>,
    pub labels: Labels,
    pub match_validation_type: Option<MatchValidationType>,
}
pub fn new(pattern: &str) -> RegexRuleConfig {
    RegexRuleConfig { pattern: pattern.to_string(), match_action: MatchAction::None, scope: Default::default(), proximity_keywords: None, validator: None, labels: Default::default(), match_validation_type: None }
}
pub fn with_pattern(c: &RegexRuleConfig, v: String) -> RegexRuleConfig {
    let mut c = c.clone();
    c.pattern = v;
    c
}
pub fn with_match_action(c: &RegexRuleConfig, v: MatchAction) -> RegexRuleConfig {
    let mut c = c.clone();
    c.match_action = v;
    c
}
pub fn with_scope(c: &RegexRuleConfig, v: Scope) -> RegexRuleConfig {
    let mut c = c.clone();
    c.scope = v;
    c
}
pub fn with_proximity_keywords(c: &RegexRuleConfig, v: ProximityKeywordsConfig) -> RegexRuleConfig {
    let mut c = c.clone();
    c.proximity_keywords = Some(v);
    c
}
pub fn with_validator(c: &RegexRuleConfig, v: SecondaryValidator) -> RegexRuleConfig {
    let mut c = c.clone();
    c.validator = Some(v);
    c
}
pub fn with_labels(c: &RegexRuleConfig, v: Labels) -> RegexRuleConfig {
    let mut c = c.clone();
    c.labels = v;
    c
}
pub fn with_match_validation_type(c: &RegexRuleConfig, v: MatchValidationType) -> RegexRuleConfig {
    let mut c = c.clone();
    c.match_validation_type = Some(v);
    c
}
pub fn build(c: &RegexRuleConfig) -> Arc<RegexRuleConfig> {
    Arc::new(c.clone())
}
pub fn build_fields(c: &RegexRuleConfig) -> Arc<RegexRuleConfig> {
    Arc::new(RegexRuleConfig {
        pattern: c.pattern.clone(),
        match_action: c.match_action.clone(),
        scope: c.scope.clone(),
        proximity_keywords: c.proximity_keywords.clone(),
        validator: c.validator.clone(),
        labels: c.labels.clone(),
        match_validation_type: c.match_validation_type.clone(),
    })
}

/// The compiled rule has everything of the configured one, and is refused when its regex, its match action or its keywords are.
pub fn compile(c: &RegexRuleConfig, rule_index: usize, scanner_labels: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
    let regex = match get_memoized_regex(&format!("rule:{}", c.pattern), |_| validate_and_create_regex(&c.pattern)) {
        Ok(r) => r,
        Err(e) => return Err(CreateScannerError::InvalidRegex(e)),
    };
    if let Err(e) = c.match_action.validate() {
        return Err(CreateScannerError::InvalidMatchAction(e));
    }
    let labels = scanner_labels.clone_with_labels(c.labels.clone());
    let (included_keywords, excluded_keywords) = match &c.proximity_keywords {
        None => (None, None),
        Some(k) => match compile_keywords_proximity_config(k, &labels) {
            Ok(x) => x,
            Err(e) => return Err(CreateScannerError::InvalidKeywords(e)),
        },
    };
    let validator: Option<Arc<dyn Validator>> = match c.validator.clone() {
        None => None,
        Some(v) => Some(Arc::new(v)),
    };
    let internal_match_validation_type = match &c.match_validation_type {
        None => None,
        Some(t) => Some(t.get_internal_match_validation_type()),
    };
    Ok(Box::new(RegexCompiledRule {
        rule_index,
        regex,
        match_action: c.match_action.clone(),
        scope: c.scope.clone(),
        included_keywords,
        excluded_keywords,
        validator,
        metrics: RuleMetrics::new(&labels),
        match_validation_type: c.match_validation_type.clone(),
        internal_match_validation_type,
    }))
}
pub fn validation_type(c: &RegexRuleConfig) -> Option<&MatchValidationType> {
    c.match_validation_type.as_ref()
}
pub trait RuleConfig {
    fn convert_to_compiled_rule(&self, i: usize, l: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError>;
    fn get_match_validation_type(&self) -> Option<&MatchValidationType>;
}
pub fn internal_validation_type<T: RuleConfig>(c: &T) -> Option<InternalMatchValidationType> {
    match c.get_match_validation_type() {
        None => None,
        Some(t) => Some(t.get_internal_match_validation_type()),
    }
}
pub fn boxed_convert<T: RuleConfig + ?Sized>(c: &Box<T>, i: usize, l: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
    (**c).convert_to_compiled_rule(i, l)
}
pub fn boxed_validation_type<T: RuleConfig + ?Sized>(c: &Box<T>) -> Option<&MatchValidationType> {
    (**c).get_match_validation_type()
}

pub fn rule_action(r: &RegexCompiledRule) -> &MatchAction {
    &r.match_action
}
pub fn rule_scope(r: &RegexCompiledRule) -> &Scope {
    &r.scope
}
pub fn rule_keywords(r: &RegexCompiledRule) -> Option<&CompiledIncludedProximityKeywords> {
    r.included_keywords.as_ref()
}
pub fn rule_multipass(_r: &RegexCompiledRule) -> bool {
    true
}
pub fn rule_excluded(r: &RegexCompiledRule) {
    r.metrics.false_positive_excluded_attributes.increment(1)
}
pub fn rule_validation(r: &RegexCompiledRule) -> Option<&MatchValidationType> {
    r.match_validation_type.as_ref()
}
pub fn rule_internal_validation(r: &RegexCompiledRule) -> Option<&InternalMatchValidationType> {
    r.internal_match_validation_type.as_ref()
}

/// Any rule behind the object-safe interface answers as the rule itself does.
pub trait CompiledRule {
    type GroupData: 'static;
    type GroupConfig: 'static + Send + Sync;
    type RuleScanCache: 'static;
    fn create_group_data(l: &Labels) -> Self::GroupData;
    fn create_group_config() -> Self::GroupConfig;
    fn create_rule_scan_cache() -> Self::RuleScanCache;
    fn get_match_action(&self) -> &MatchAction;
    fn get_scope(&self) -> &Scope;
    fn get_included_keywords(&self) -> Option<&CompiledIncludedProximityKeywords>;
    fn should_exclude_multipass_v0(&self) -> bool;
    fn on_excluded_match_multipass_v0(&self);
    fn get_match_validation_type(&self) -> Option<&MatchValidationType>;
    fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType>;
    fn process_scanner_config(&self, g: &mut Self::GroupConfig);
    fn get_string_matches(&self, content: &str, path: &Path, caches: &mut RegexCaches, data: &mut Self::GroupData, config: &Self::GroupConfig, cache: &mut Self::RuleScanCache, ex: &ExclusionCheck,
        seen: &mut ahash::AHashSet<String>, out: &mut dyn MatchEmitter, known: &[usize], in_paths: bool);
}
pub struct RegexCaches(u8);
pub struct ExclusionCheck(u8);
pub trait MatchEmitter {}
pub fn dyn_action<T: CompiledRule>(r: &T) -> &MatchAction {
    r.get_match_action()
}
pub fn dyn_scope<T: CompiledRule>(r: &T) -> &Scope {
    r.get_scope()
}
pub fn dyn_keywords<T: CompiledRule>(r: &T) -> Option<&CompiledIncludedProximityKeywords> {
    r.get_included_keywords()
}
pub fn dyn_multipass<T: CompiledRule>(r: &T) -> bool {
    r.should_exclude_multipass_v0()
}
pub fn dyn_excluded<T: CompiledRule>(r: &T) {
    r.on_excluded_match_multipass_v0()
}
pub fn dyn_validation<T: CompiledRule>(r: &T) -> Option<&MatchValidationType> {
    r.get_match_validation_type()
}
pub fn dyn_internal_validation<T: CompiledRule>(r: &T) -> Option<&InternalMatchValidationType> {
    r.get_internal_match_validation_type()
}
use std::any::{Any, TypeId};
pub fn dyn_config<T: CompiledRule>(r: &T, configs: &mut ahash::AHashMap<TypeId, Box<dyn Any + Send + Sync>>) {
    let g = configs.entry(TypeId::of::<T::GroupConfig>()).or_insert_with(|| Box::new(T::create_group_config()));
    let g: &mut T::GroupConfig = g.downcast_mut().unwrap();
    r.process_scanner_config(g)
}
pub fn dyn_matches<T: CompiledRule>(r: &T, content: &str, path: &Path, caches: &mut RegexCaches, data: &mut ahash::AHashMap<TypeId, Box<dyn Any>>, config: &ahash::AHashMap<TypeId, Box<dyn Any + Send + Sync>>,
    cache: &mut ahash::AHashMap<TypeId, Box<dyn Any>>, ex: &ExclusionCheck, seen: &mut ahash::AHashSet<String>, out: &mut dyn MatchEmitter, known: &[usize], labels: &Labels, in_paths: bool) {
    let d: &mut T::GroupData = data.entry(TypeId::of::<T::GroupData>()).or_insert_with(|| Box::new(T::create_group_data(labels))).downcast_mut().unwrap();
    let g: &T::GroupConfig = config.get(&TypeId::of::<T::GroupConfig>()).unwrap().downcast_ref().unwrap();
    let c: &mut T::RuleScanCache = cache.entry(TypeId::of::<T::RuleScanCache>()).or_insert_with(|| Box::new(T::create_rule_scan_cache())).downcast_mut().unwrap();
    r.get_string_matches(content, path, caches, d, g, c, ex, seen, out, known, in_paths)
}
pub fn nothing<T>(_r: &T) {}
pub fn no<T>(_r: &T) -> bool {
    false
}
pub fn none<T>(_r: &T) -> Option<&CompiledIncludedProximityKeywords> {
    None
}
