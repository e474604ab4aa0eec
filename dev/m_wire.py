RC = "sds/src/scanner/regex_rule/config.rs"
SC = "sds/src/scanner/scope.rs"
PA = "sds/src/path.rs"
MA = "sds/src/match_action.rs"
VC = "sds/src/match_validation/config.rs"
M = [
 ("w-scope-nodefault", "C37", RC, "    #[serde(default)]\n    pub scope: Scope,", "    pub scope: Scope,"),
 ("w-labels-nonull", "C37", RC, "    #[serde_as(deserialize_as = \"DefaultOnNull\")]\n    #[serde(default)]\n    pub labels: Labels,", "    #[serde(default)]\n    pub labels: Labels,"),
 ("w-incl-nodefault", "C37", RC, "    #[serde(default)]\n    pub included_keywords", "    pub included_keywords"),
 ("w-excl-skip", "C37", RC, "    #[serde(default)]\n    pub excluded_keywords", "    #[serde(default, skip_serializing)]\n    pub excluded_keywords"),
 ("w-excl-skipempty", "ok", RC, "    #[serde(default)]\n    pub excluded_keywords", "    #[serde(default, skip_serializing_if = \"Vec::is_empty\")]\n    pub excluded_keywords"),
 ("w-val-skipnone", "ok", RC, "    pub validator: Option<SecondaryValidator>,", "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub validator: Option<SecondaryValidator>,"),
 ("w-val-skipsome", "C37", RC, "    pub validator: Option<SecondaryValidator>,", "    #[serde(skip_serializing_if = \"Option::is_some\")]\n    pub validator: Option<SecondaryValidator>,"),
 ("w-val-skip", "C37", RC, "    pub validator: Option<SecondaryValidator>,", "    #[serde(skip)]\n    pub validator: Option<SecondaryValidator>,"),
 ("w-val-skipde", "C37", RC, "    pub validator: Option<SecondaryValidator>,", "    #[serde(skip_deserializing)]\n    pub validator: Option<SecondaryValidator>,"),
 ("w-val-rename", "C37", RC, "    pub validator: Option<SecondaryValidator>,", "    #[serde(rename = \"secondary_validator\")]\n    pub validator: Option<SecondaryValidator>,"),
 ("w-val-rename-ser", "C37", RC, "    pub validator: Option<SecondaryValidator>,", "    #[serde(rename(serialize = \"secondary_validator\"))]\n    pub validator: Option<SecondaryValidator>,"),
 ("w-val-alias", "ok", RC, "    pub validator: Option<SecondaryValidator>,", "    #[serde(alias = \"secondary_validator\")]\n    pub validator: Option<SecondaryValidator>,"),
 ("w-action-default", "C37", RC, "    pub match_action: MatchAction,\n    #[serde", "    #[serde(default)]\n    pub match_action: MatchAction,\n    #[serde"),
 ("w-rule-deny", "C37", RC, "#[serde_as]\n#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]\npub struct RegexRuleConfig", "#[serde_as]\n#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]\n#[serde(deny_unknown_fields)]\npub struct RegexRuleConfig"),
 ("w-sv-other", "C37", RC, "    NirChecksum,\n    JwtExpirationChecker,", "    #[serde(rename = \"Nir\")]\n    NirChecksum,\n    JwtExpirationChecker,"),
 ("w-sv-alias-swap", "C37", RC, "    NirChecksum,\n    JwtExpirationChecker,", "    #[serde(rename(deserialize = \"NirCheckSum\"))]\n    NirChecksum,\n    JwtExpirationChecker,"),
 ("w-scope-content", "C37", SC, "content = \"paths\"", "content = \"path\""),
 ("w-scope-tag", "C37", SC, "tag = \"type\", content", "tag = \"kind\", content"),
 ("w-scope-internal", "C37", SC, "    Include {\n        include: Vec<Path<'static>>,", "    Include {\n        #[serde(rename = \"included\")]\n        include: Vec<Path<'static>>,"),
 ("w-scope-exdefault", "C37", SC, "        exclude: Vec<Path<'static>>,\n    },", "        #[serde(default, skip_serializing)]\n        exclude: Vec<Path<'static>>,\n    },"),
 ("w-scope-snake", "C37", SC, "#[serde(tag = \"type\", content = \"paths\")]", "#[serde(tag = \"type\", content = \"paths\", rename_all = \"snake_case\")]"),
 ("w-path-transparent", "C37", PA, "#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Path", "#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]\npub struct Path"),
 ("w-seg-rename", "C37", PA, "    Index(usize),\n}", "    #[serde(rename = \"index\")]\n    Index(usize),\n}"),
 ("w-seg-untagged", "C37", PA, "#[serde(tag = \"type\", content = \"value\")]", "#[serde(untagged)]"),
 ("w-seg-swap", "ok", PA, "    Field(Cow<'a, str>),\n    Index(usize),\n}", "    #[serde(rename = \"Field\")]\n    Field(Cow<'a, str>),\n    Index(usize),\n}"),
 ("w-ma-count", "C37", MA, "        character_count: usize,\n    },\n}", "        #[serde(default)]\n        character_count: usize,\n    },\n}"),
 ("w-ma-repl-rename", "C37", MA, "    Redact { replacement: String },", "    Redact {\n        #[serde(rename = \"placeholder\")]\n        replacement: String,\n    },"),
 ("w-ma-external", "C37", MA, "#[serde(tag = \"type\")]", ""),
 ("w-dir-snake", "C37", MA, "#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]\npub enum PartialRedactDirection", "#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]\n#[serde(rename_all = \"SCREAMING_SNAKE_CASE\")]\npub enum PartialRedactDirection"),
 ("w-http-upper", "C37", VC, "#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]\npub enum HttpMethod", "#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]\n#[serde(rename_all(serialize = \"UPPERCASE\"))]\npub enum HttpMethod"),
 ("w-http-skip", "C37", VC, "    pub invalid_http_status_code: Vec<Range<u16>>,\n    pub options", "    #[serde(skip)]\n    pub invalid_http_status_code: Vec<Range<u16>>,\n    pub options"),
 ("w-aws-skip", "C37", VC, "    pub forced_datetime_utc: Option<DateTime<Utc>>,", "    #[serde(skip_serializing)]\n    pub forced_datetime_utc: Option<DateTime<Utc>>,"),
 ("w-reorder", "ok", RC, "    pub pattern: String,\n    pub match_action: MatchAction,\n", "    pub match_action: MatchAction,\n    pub pattern: String,\n"),
 ("w-reorder-sv", "ok", RC, "    LuhnChecksum,\n    ChineseIdChecksum,", "    ChineseIdChecksum,\n    LuhnChecksum,"),
 ("w-with", "C37", RC, "    pub pattern: String,\n    pub match_action", "    #[serde(deserialize_with = \"trimmed\")]\n    pub pattern: String,\n    pub match_action", RC, "impl RegexRuleConfig {\n    pub fn new", "fn trimmed<'de, D: serde::Deserializer<'de>>(d: D) -> Result<String, D::Error> {\n    Ok(String::deserialize(d)?.trim().to_string())\n}\n\nimpl RegexRuleConfig {\n    pub fn new"),
 ("w-serwith", "C37", RC, "    pub pattern: String,\n    pub match_action", "    #[serde(serialize_with = \"trimmed\")]\n    pub pattern: String,\n    pub match_action", RC, "impl RegexRuleConfig {\n    pub fn new", "fn trimmed<S: serde::Serializer>(s: &str, d: S) -> Result<S::Ok, S::Error> {\n    d.serialize_str(s.trim())\n}\n\nimpl RegexRuleConfig {\n    pub fn new"),
 ("w-default-fn", "C37", RC, "    #[serde(default)]\n    pub scope: Scope,", "    #[serde(default = \"no_scope\")]\n    pub scope: Scope,", RC, "impl RegexRuleConfig {\n    pub fn new", "fn no_scope() -> Scope {\n    Scope::include(vec![])\n}\n\nimpl RegexRuleConfig {\n    pub fn new"),
 ("w-default-fn-ok", "ok", RC, "    #[serde(default)]\n    pub scope: Scope,", "    #[serde(default = \"Scope::all\")]\n    pub scope: Scope,"),
]
