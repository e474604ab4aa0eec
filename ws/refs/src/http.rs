//! Checking matches with a service over HTTP.
use chrono::{DateTime, Utc};
use std::ops::Range;
use std::time::Duration;

#[derive(Clone)]
pub struct AwsConfig {
    pub aws_sts_endpoint: String,
    pub forced_datetime_utc: Option<DateTime<Utc>>,
    pub timeout: Duration,
}
pub fn aws_default() -> AwsConfig {
    AwsConfig { timeout: Duration::from_secs(3), forced_datetime_utc: None, aws_sts_endpoint: String::from("https://sts.amazonaws.com") }
}
#[derive(Clone)]
pub enum AwsType {
    AwsId,
    AwsSecret(AwsConfig),
    AwsSession,
}
#[derive(Clone)]
pub enum HttpMethod {
    Get,
    Post,
    Put,
    Delete,
    Patch,
}
#[derive(Clone)]
pub struct RequestHeader {
    pub key: String,
    pub value: String,
}
#[derive(Clone)]
pub struct HttpValidatorOption {
    pub timeout: Duration,
}
#[derive(Clone)]
pub struct HttpValidatorConfig {
    pub endpoints: Vec<String>,
    pub method: HttpMethod,
    pub request_header: Vec<RequestHeader>,
    pub valid_http_status_code: Vec<Range<u16>>,
    pub invalid_http_status_code: Vec<Range<u16>>,
    pub options: HttpValidatorOption,
}
pub struct HttpValidatorConfigBuilder {
    endpoint: String,
    hosts: Vec<String>,
    method: HttpMethod,
    request_header: Vec<RequestHeader>,
    valid_http_status_code: Vec<Range<u16>>,
    invalid_http_status_code: Vec<Range<u16>>,
    options: HttpValidatorOption,
}

/// A header with the matched text in the place of every `$MATCH`.
pub fn header_value(h: &RequestHeader, m: &str) -> String {
    h.value.replace("$MATCH", m)
}

/// One endpoint per host, or the endpoint itself when it names no host; hosts are given exactly when the endpoint asks for them.
pub fn config(endpoint: &str, hosts: Vec<String>) -> Result<HttpValidatorConfig, String> {
    let endpoints = if endpoint.contains("$HOST") {
        if hosts.is_empty() {
            return Err("Endpoint contains $HOST but no hosts are provided".to_string());
        }
        let mut e = Vec::new();
        for h in hosts {
            e.push(endpoint.replace("$HOST", &h));
        }
        e
    } else {
        if !hosts.is_empty() {
            return Err("Endpoint does not contain $HOST but hosts are provided".to_string());
        }
        vec![endpoint.to_string()]
    };
    Ok(HttpValidatorConfig { endpoints, method: HttpMethod::Get, request_header: vec![], valid_http_status_code: vec![200..300], invalid_http_status_code: vec![400..500], options: HttpValidatorOption { timeout: Duration::from_secs(3) } })
}
/// The same, said the other way round.
pub fn config2(endpoint: &str, hosts: Vec<String>) -> Result<HttpValidatorConfig, String> {
    if endpoint.contains("$HOST") && hosts.is_empty() {
        return Err("Endpoint contains $HOST but no hosts are provided".to_string());
    }
    if !endpoint.contains("$HOST") && !hosts.is_empty() {
        return Err("Endpoint does not contain $HOST but hosts are provided".to_string());
    }
    let mut endpoints = Vec::new();
    for h in hosts {
        endpoints.push(endpoint.replace("$HOST", &h));
    }
    if endpoints.is_empty() {
        endpoints.push(endpoint.to_string());
    }
    Ok(HttpValidatorConfig { endpoints, method: HttpMethod::Get, request_header: vec![], valid_http_status_code: vec![200..300], invalid_http_status_code: vec![400..500], options: HttpValidatorOption { timeout: Duration::from_secs(3) } })
}
pub fn builder(endpoint: String) -> HttpValidatorConfigBuilder {
    HttpValidatorConfigBuilder {
        endpoint,
        hosts: vec![],
        method: HttpMethod::Get,
        request_header: vec![RequestHeader { key: "Authorization".to_string(), value: "Bearer $MATCH".to_string() }],
        valid_http_status_code: vec![200..300],
        invalid_http_status_code: vec![400..500],
        options: HttpValidatorOption { timeout: Duration::from_secs(3) },
    }
}
pub fn set_request_header(b: &mut HttpValidatorConfigBuilder, v: Vec<RequestHeader>) {
    b.request_header = v;
}
pub fn set_hosts(b: &mut HttpValidatorConfigBuilder, v: Vec<String>) {
    b.hosts = v;
}
pub fn set_method(b: &mut HttpValidatorConfigBuilder, v: HttpMethod) {
    b.method = v;
}
pub fn set_valid_http_status_code(b: &mut HttpValidatorConfigBuilder, v: Vec<Range<u16>>) {
    b.valid_http_status_code = v;
}
pub fn set_invalid_http_status_code(b: &mut HttpValidatorConfigBuilder, v: Vec<Range<u16>>) {
    b.invalid_http_status_code = v;
}
pub fn set_timeout(b: &mut HttpValidatorConfigBuilder, v: Duration) {
    b.options.timeout = v;
}
pub fn build(b: &HttpValidatorConfigBuilder) -> Result<HttpValidatorConfig, String> {
    match config(&b.endpoint, b.hosts.clone()) {
        Err(e) => Err(e),
        Ok(c) => Ok(HttpValidatorConfig {
            endpoints: c.endpoints,
            method: b.method.clone(),
            request_header: b.request_header.clone(),
            valid_http_status_code: b.valid_http_status_code.clone(),
            invalid_http_status_code: b.invalid_http_status_code.clone(),
            options: b.options.clone(),
        }),
    }
}
pub fn build2(b: &HttpValidatorConfigBuilder) -> Result<HttpValidatorConfig, String> {
    match config2(&b.endpoint, b.hosts.clone()) {
        Err(e) => Err(e),
        Ok(c) => Ok(HttpValidatorConfig {
            endpoints: c.endpoints,
            method: b.method.clone(),
            request_header: b.request_header.clone(),
            valid_http_status_code: b.valid_http_status_code.clone(),
            invalid_http_status_code: b.invalid_http_status_code.clone(),
            options: b.options.clone(),
        }),
    }
}
pub fn github() -> HttpValidatorConfigBuilder {
    let mut b = builder("https://api.github.com/octocat".to_string());
    b.request_header = vec![
        RequestHeader { key: "Authorization".to_string(), value: "Bearer $MATCH".to_string() },
        RequestHeader { key: "User-Agent".to_string(), value: "TEST_DD_SDS".to_string() },
        RequestHeader { key: "X-GitHub-Api-Version".to_string(), value: "2022-11-28".to_string() },
    ];
    b
}
pub fn datadog() -> HttpValidatorConfigBuilder {
    let mut b = builder("https://$HOST/api/v1/validate".to_string());
    b.hosts = vec![
        "api.datadoghq.com".to_string(),
        "api.datadoghq.eu".to_string(),
        "api.us3.datadoghq.com".to_string(),
        "api.us5.datadoghq.com".to_string(),
        "api.ddog-gov.com".to_string(),
        "api.ap1.datadoghq.com".to_string(),
    ];
    b.invalid_http_status_code = vec![403..404];
    b.request_header = vec![
        RequestHeader { key: "DD-API-KEY".to_string(), value: "$MATCH".to_string() },
        RequestHeader { key: "User-Agent".to_string(), value: "TEST_DD_SDS".to_string() },
        RequestHeader { key: "Accept".to_string(), value: "application/json".to_string() },
    ];
    b
}

#[derive(Clone)]
pub enum MatchValidationType {
    Aws(AwsType),
    CustomHttp(HttpValidatorConfig),
}
pub enum InternalMatchValidationType {
    Aws,
    CustomHttp(Vec<String>),
}
pub trait MatchValidator {}
pub struct AwsValidator {
    pub config: AwsConfig,
}
pub struct HttpValidator {
    pub config: HttpValidatorConfig,
}
impl MatchValidator for AwsValidator {}
impl MatchValidator for HttpValidator {}
pub fn can_create(t: &MatchValidationType) -> bool {
    match t {
        MatchValidationType::CustomHttp(_) | MatchValidationType::Aws(AwsType::AwsSecret(_)) => true,
        MatchValidationType::Aws(AwsType::AwsId) | MatchValidationType::Aws(AwsType::AwsSession) => false,
    }
}
pub fn kind(t: &MatchValidationType) -> InternalMatchValidationType {
    match t {
        MatchValidationType::CustomHttp(c) => InternalMatchValidationType::CustomHttp(c.endpoints.clone()),
        MatchValidationType::Aws(_) => InternalMatchValidationType::Aws,
    }
}
pub fn validator(t: &MatchValidationType) -> Result<Box<dyn MatchValidator>, String> {
    match t {
        MatchValidationType::CustomHttp(c) => Ok(Box::new(HttpValidator { config: c.clone() })),
        MatchValidationType::Aws(AwsType::AwsSecret(c)) => Ok(Box::new(AwsValidator { config: c.clone() })),
        _ => Err("This aws type shall not be used to create a validator".to_string()),
    }
}

#[derive(Clone)]
pub enum MatchStatus {
    NotChecked,
    NotAvailable,
    Invalid,
    Error(String),
    Valid,
}
impl MatchStatus {
    fn merge(&mut self, _s: MatchStatus) {
        loop {}
    }
}
pub struct RuleMatch {
    pub rule_index: usize,
    pub match_value: Option<String>,
    pub match_status: MatchStatus,
}
pub trait CompiledRuleDyn {
    fn get_match_validation_type(&self) -> Option<&MatchValidationType>;
}
use reqwest::blocking::Response;

/// What a status code says: the ranges of valid codes first, then those of invalid ones.
pub fn http_status(v: &HttpValidator, status: &mut MatchStatus, r: &Response) {
    let code = r.status().as_u16();
    for x in &v.config.valid_http_status_code {
        if x.contains(&code) {
            *status = MatchStatus::Valid;
            return;
        }
    }
    for x in &v.config.invalid_http_status_code {
        if x.contains(&code) {
            *status = MatchStatus::Invalid;
            return;
        }
    }
    *status = MatchStatus::Error(format!("Unexpected HTTP status code {}", code));
}
pub fn aws_status(status: &mut MatchStatus, r: &Response) {
    let code = r.status();
    if code.is_success() {
        *status = MatchStatus::Valid;
    } else if code.is_client_error() {
        *status = MatchStatus::Invalid;
    } else if code.is_server_error() {
        *status = MatchStatus::Error(format!("Unexpected HTTP status code {}", code.as_u16()));
    }
}
impl RequestHeader {
    fn get_value_with_match(&self, _m: &str) -> String {
        loop {}
    }
}
impl HttpValidator {
    fn handle_reqwest_response(&self, _s: &mut MatchStatus, _r: &Response) {
        loop {}
    }
}
fn handle_reqwest_response(_s: &mut MatchStatus, _r: &Response) {
    loop {}
}
fn extract_aws_secret_from_match(_m: &str) -> String {
    loop {}
}
fn generate_aws_headers_and_body(_d: &DateTime<Utc>, _e: &str, _i: &str, _s: &str) -> (String, reqwest::header::HeaderMap) {
    loop {}
}
lazy_static::lazy_static! {
    static ref BLOCKING_HTTP_CLIENT: reqwest::blocking::Client = reqwest::blocking::Client::new();
    static ref AWS_BLOCKING_CLIENT: reqwest::blocking::Client = reqwest::blocking::Client::new();
    static ref AWS_SECRET_REGEX: regex::Regex = regex::Regex::new(r"([A-Za-z0-9\/+]{40})\b").unwrap();
}

/// Every match is checked with every endpoint, and gets the best of the answers.
pub fn http_validate(v: &HttpValidator, matches: &mut Vec<RuleMatch>) {
    let mut found = ahash::AHashMap::new();
    for (i, _) in matches.iter().enumerate() {
        for e in &v.config.endpoints {
            found.insert((i, e), MatchStatus::NotChecked);
        }
    }
    for ((i, e), status) in found.iter_mut() {
        let text = matches[*i].match_value.as_ref().unwrap();
        let mut r = match v.config.method {
            HttpMethod::Get => BLOCKING_HTTP_CLIENT.get(*e),
            HttpMethod::Post => BLOCKING_HTTP_CLIENT.post(*e),
            HttpMethod::Put => BLOCKING_HTTP_CLIENT.put(*e),
            HttpMethod::Delete => BLOCKING_HTTP_CLIENT.delete(*e),
            HttpMethod::Patch => BLOCKING_HTTP_CLIENT.patch(*e),
        };
        r = r.timeout(v.config.options.timeout);
        for h in &v.config.request_header {
            r = r.header(&h.key, &h.get_value_with_match(text));
        }
        match r.send() {
            Ok(x) => v.handle_reqwest_response(status, &x),
            Err(e) => *status = MatchStatus::Error(format!("Error making HTTP request: {}", e)),
        }
    }
    for ((i, _), s) in found {
        matches[i].match_status.merge(s.clone());
    }
}

/// Every match is checked with every endpoint, and gets the best of the answers.
pub fn http_validate2(v: &HttpValidator, matches: &mut Vec<RuleMatch>) {
    let mut found: ahash::AHashMap<_, _> = matches.iter().enumerate().flat_map(|(i, _)| v.config.endpoints.iter().map(move |e| ((i, e), MatchStatus::NotChecked))).collect();
    for ((i, e), status) in found.iter_mut() {
        let text = matches[*i].match_value.as_ref().unwrap();
        let mut r = match v.config.method {
            HttpMethod::Get => BLOCKING_HTTP_CLIENT.get(*e),
            HttpMethod::Post => BLOCKING_HTTP_CLIENT.post(*e),
            HttpMethod::Put => BLOCKING_HTTP_CLIENT.put(*e),
            HttpMethod::Delete => BLOCKING_HTTP_CLIENT.delete(*e),
            HttpMethod::Patch => BLOCKING_HTTP_CLIENT.patch(*e),
        };
        r = r.timeout(v.config.options.timeout);
        for h in &v.config.request_header {
            r = r.header(&h.key, &h.get_value_with_match(text));
        }
        match r.send() {
            Ok(x) => v.handle_reqwest_response(status, &x),
            Err(e) => *status = MatchStatus::Error(format!("Error making HTTP request: {}", e)),
        }
    }
    for ((i, _), s) in found {
        matches[i].match_status.merge(s.clone());
    }
}

/// Every id is paired with every secret.
pub fn aws_pairs(_v: &AwsValidator, matches: &[RuleMatch], rules: &[Box<dyn CompiledRuleDyn>]) -> ahash::AHashMap<(usize, usize), MatchStatus> {
    let mut ids = Vec::new();
    let mut secrets = Vec::new();
    for (i, m) in matches.iter().enumerate() {
        match rules[m.rule_index].get_match_validation_type() {
            Some(MatchValidationType::Aws(AwsType::AwsId)) => ids.push(i),
            Some(MatchValidationType::Aws(AwsType::AwsSecret(_))) => secrets.push(i),
            _ => {}
        }
    }
    let mut out = ahash::AHashMap::new();
    for i in &ids {
        for s in &secrets {
            out.insert((*i, *s), MatchStatus::NotChecked);
        }
    }
    out
}
pub fn aws_secret(m: &str) -> String {
    match AWS_SECRET_REGEX.captures(m) {
        Some(c) => c[1].to_string(),
        None => String::new(),
    }
}
pub fn aws_merge(matches: &mut [RuleMatch], found: &ahash::AHashMap<(usize, usize), MatchStatus>) {
    for ((i, s), status) in found {
        matches[*i].match_status.merge(status.clone());
        matches[*s].match_status.merge(status.clone());
    }
}
impl AwsValidator {
    fn get_match_status_per_pairs_of_matches_idx(&self, _m: &[RuleMatch], _r: &[Box<dyn CompiledRuleDyn>]) -> ahash::AHashMap<(usize, usize), MatchStatus> {
        loop {}
    }
}
fn merge_returned_match_status_with_better_status(_m: &mut [RuleMatch], _f: &ahash::AHashMap<(usize, usize), MatchStatus>) {
    loop {}
}
pub fn aws_validate(v: &AwsValidator, matches: &mut Vec<RuleMatch>, rules: &[Box<dyn CompiledRuleDyn>]) {
    let mut found = v.get_match_status_per_pairs_of_matches_idx(matches, rules);
    for ((i, s), status) in found.iter_mut() {
        let secret = match &matches[*s].match_value {
            None => {
                *status = MatchStatus::Error("Missing match value for aws_secret".to_string());
                continue;
            }
            Some(x) => x,
        };
        let id = match &matches[*i].match_value {
            None => {
                *status = MatchStatus::Error("Missing match value for aws_id".to_string());
                continue;
            }
            Some(x) => x,
        };
        let secret = extract_aws_secret_from_match(secret);
        let now = match v.config.forced_datetime_utc {
            Some(t) => t,
            None => Utc::now(),
        };
        let (body, headers) = generate_aws_headers_and_body(&now, &v.config.aws_sts_endpoint, id, &secret);
        match AWS_BLOCKING_CLIENT.post(v.config.aws_sts_endpoint.as_str()).headers(headers).body(body).timeout(v.config.timeout).send() {
            Ok(x) => handle_reqwest_response(status, &x),
            Err(e) => *status = MatchStatus::Error(format!("Error making HTTP request: {}", e)),
        }
    }
    merge_returned_match_status_with_better_status(matches, &found)
}

/// The signed request asking who owns the key.
pub fn aws_request(datetime: &DateTime<Utc>, endpoint: &str, id: &str, secret: &str) -> (String, reqwest::header::HeaderMap) {
    let mut headers = reqwest::header::HeaderMap::new();
    headers.insert("X-Amz-Date", datetime.format("%Y%m%dT%H%M%SZ").to_string().parse().unwrap());
    headers.insert("Accept-Encoding", "identity".parse().unwrap());
    headers.insert("Content-Type", "application/x-www-form-urlencoded; charset=utf-8".parse().unwrap());
    headers.insert("host", "sts.us-east-1.amazonaws.com".parse().unwrap());
    let body = "Action=GetCallerIdentity&Version=2011-06-15".to_string();
    let signature = aws_sign_v4::AwsSign::new("POST", endpoint, datetime, &headers, "us-east-1", id, secret, "sts", &body).sign();
    headers.insert(reqwest::header::AUTHORIZATION, signature.parse().unwrap());
    (body, headers)
}
