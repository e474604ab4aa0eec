RC = "sds/src/scanner/regex_rule/config.rs"
SC = "sds/src/scanner/scope.rs"
PA = "sds/src/path.rs"
MA = "sds/src/match_action.rs"
VC = "sds/src/match_validation/config.rs"
NUL = "fn null_is_default<'de, D, T>(d: D) -> Result<T, D::Error>\nwhere\n    D: serde::Deserializer<'de>,\n    T: Default + Deserialize<'de>,\n{\n    %s\n}\n\nimpl RegexRuleConfig {\n    pub fn new"
OLD = "    #[serde_as(deserialize_as = \"DefaultOnNull\")]\n    #[serde(default)]\n    pub labels: Labels,"
NEW = "    #[serde(default, deserialize_with = \"null_is_default\")]\n    pub labels: Labels,"
IMP = "impl RegexRuleConfig {\n    pub fn new"
M = [
 ("w2-null-fn", "ok", RC, OLD, NEW, RC, IMP, NUL % "Ok(Option::<T>::deserialize(d)?.unwrap_or_default())"),
 ("w2-null-fn2", "ok", RC, OLD, NEW, RC, IMP, NUL % "Option::<T>::deserialize(d).map(|x| x.unwrap_or_default())"),
 ("w2-null-fn-match", "ok", RC, OLD, NEW, RC, IMP, NUL % "match Option::deserialize(d)? {\n        Some(x) => Ok(x),\n        None => Ok(T::default()),\n    }"),
 ("w2-null-fn-bad", "C37", RC, OLD, NEW, RC, IMP, NUL % "let _ = Option::<T>::deserialize(d)?;\n    Ok(T::default())"),
 ("w2-null-fn-bad2", "C37", RC, OLD, NEW, RC, IMP, NUL % "Ok(T::deserialize(d).unwrap_or_default())"),
 ("w2-hand-ser", "ok", VC, "#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]\npub struct RequestHeader {\n    pub key: String,\n    // $MATCH is a special keyword that will be replaced by the matched string\n    pub value: String,\n}\n",
  "#[derive(Deserialize, Clone, Debug, PartialEq)]\npub struct RequestHeader {\n    pub key: String,\n    pub value: String,\n}\n\nimpl Serialize for RequestHeader {\n    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {\n        use serde::ser::SerializeStruct;\n        let mut o = s.serialize_struct(\"RequestHeader\", 2)?;\n        o.serialize_field(\"key\", &self.key)?;\n        o.serialize_field(\"value\", &self.value)?;\n        o.end()\n    }\n}\n"),
 ("w2-hand-map", "ok", VC, "#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]\npub struct RequestHeader {\n    pub key: String,\n    // $MATCH is a special keyword that will be replaced by the matched string\n    pub value: String,\n}\n",
  "#[derive(Deserialize, Clone, Debug, PartialEq)]\npub struct RequestHeader {\n    pub key: String,\n    pub value: String,\n}\n\nimpl Serialize for RequestHeader {\n    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {\n        use serde::ser::SerializeMap;\n        let mut o = s.serialize_map(Some(2))?;\n        o.serialize_entry(\"key\", &self.key)?;\n        o.serialize_entry(\"value\", &self.value)?;\n        o.end()\n    }\n}\n"),
 ("w2-hand-map-bad", "C37", VC, "#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]\npub struct RequestHeader {\n    pub key: String,\n    // $MATCH is a special keyword that will be replaced by the matched string\n    pub value: String,\n}\n",
  "#[derive(Deserialize, Clone, Debug, PartialEq)]\npub struct RequestHeader {\n    pub key: String,\n    pub value: String,\n}\n\nimpl Serialize for RequestHeader {\n    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {\n        use serde::ser::SerializeMap;\n        let mut o = s.serialize_map(Some(2))?;\n        o.serialize_entry(\"key\", &self.key)?;\n        o.serialize_entry(\"value\", &self.key)?;\n        o.end()\n    }\n}\n"),
 ("w2-pascal", "ok", RC, "#[serde(tag = \"type\")]", "#[serde(tag = \"type\", rename_all = \"PascalCase\")]"),
 ("w2-hand-dir", "ok", MA, "#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]\npub enum PartialRedactDirection {\n    FirstCharacters,\n    LastCharacters,\n}\n", "#[derive(Serialize, Clone, Debug, PartialEq)]\npub enum PartialRedactDirection {\n    FirstCharacters,\n    LastCharacters,\n}\n\nimpl<'de> Deserialize<'de> for PartialRedactDirection {\n    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {\n        match String::deserialize(d)?.as_str() {\n            \"FirstCharacters\" => Ok(Self::FirstCharacters),\n            \"LastCharacters\" => Ok(Self::LastCharacters),\n            other => Err(serde::de::Error::unknown_variant(other, &[\"FirstCharacters\", \"LastCharacters\"])),\n        }\n    }\n}\n"),
 ("w2-rename-member", "ok", SC, "    Include {\n        include: Vec<Path<'static>>,\n        exclude", "    Include {\n        #[serde(rename = \"include\")]\n        include: Vec<Path<'static>>,\n        exclude"),
 ("w2-structdefault", "ok", RC, "    #[serde_as(deserialize_as = \"DefaultOnNull\")]\n    #[serde(default)]\n    pub included_keywords: Vec<String>,", "    #[serde(default)]\n    #[serde_as(deserialize_as = \"DefaultOnNull<_>\")]\n    pub included_keywords: Vec<String>,"),
 ("w2-default-vec-new", "ok", RC, "    #[serde(default)]\n    pub included_keywords: Vec<String>,", "    #[serde(default = \"Vec::new\")]\n    pub included_keywords: Vec<String>,"),
 ("w2-hdr-member", "ok", VC, "pub struct RequestHeader {\n    pub key: String,", "pub struct RequestHeader {\n    #[serde(rename = \"key\")]\n    pub name: String,", "*", ".key", ".name"),
]
M = [m for m in M if m[0] != "w2-hdr-member"]
