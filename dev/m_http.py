H = "sds/src/match_validation/http_validator.rs"
W = "sds/src/match_validation/aws_validator.rs"
G = "sds/src/match_validation/config.rs"
U = "sds/src/match_validation/validator_utils.rs"
M = [
 ("h-replace1", "C35", G, 'value.replace("$MATCH", matche)', 'value.replacen("$MATCH", matche, 1)'),
 ("h-host1", "C35", G, 'endpoint.replace("$HOST", &host)', 'endpoint.replacen("$HOST", &host, 1)'),
 ("h-err", "C35", G, 'if !endpoint.contains("$HOST") && !hosts.is_empty() {', 'if !endpoint.contains("$HOST") && hosts.len() > 1 {'),
 ("h-def", "C35", G, "pub const DEFAULT_HTTPS_TIMEOUT_SEC: u64 = 3;", "pub const DEFAULT_HTTPS_TIMEOUT_SEC: u64 = 30;"),
 ("h-val", "C35", G, "        config.request_header = self.request_header.clone();\n", ""),
 ("h-inv", "C35", G, "config.valid_http_status_code = self.valid_http_status_code.clone();", "config.valid_http_status_code = self.invalid_http_status_code.clone();"),
 ("h-redundant-ok", "ok", G, "        config.options = self.options.clone();\n        config.invalid_http_status_code = self.invalid_http_status_code.clone();\n", "        config.options = self.options.clone();\n"),
 ("h-set", "C35", G, "        self.hosts = hosts;\n", "        self.hosts.extend(hosts);\n"),
 ("h-can", "C35", G, "matches!(aws_type, AwsType::AwsSecret(_))", "!matches!(aws_type, AwsType::AwsSession)"),
 ("h-kind", "C35", G, "InternalMatchValidationType::CustomHttp(http_config.endpoints.clone())", "InternalMatchValidationType::CustomHttp(http_config.endpoints.iter().take(1).cloned().collect())"),
 ("h-res", "C35", H, "        for valid_range in &self.config.valid_http_status_code {\n            if valid_range.contains(", "        for valid_range in self.config.valid_http_status_code.iter().take(1) {\n            if valid_range.contains("),
 ("h-order", "C35", H, "*match_status = MatchStatus::Invalid;\n                return;", "*match_status = MatchStatus::Invalid;"),
 ("h-any-ok", "ok", H, """        for valid_range in &self.config.valid_http_status_code {
            if valid_range.contains(&val.status().as_u16()) {
                *match_status = MatchStatus::Valid;
                return;
            }
        }""", """        let code = val.status().as_u16();
        if self.config.valid_http_status_code.iter().any(|r| r.contains(&code)) {
            *match_status = MatchStatus::Valid;
            return;
        }"""),
 ("h-start-ok", "ok", H, "if valid_range.contains(&val.status().as_u16()) {", "let code = val.status().as_u16();\n            if valid_range.start <= code && code < valid_range.end {"),
 ("h-start", "C35", H, "if valid_range.contains(&val.status().as_u16()) {", "let code = val.status().as_u16();\n            if valid_range.start <= code && code <= valid_range.end {"),
 ("h-timeout", "C35", H, "                request_builder = request_builder.timeout(self.config.options.timeout);\n", ""),
 ("h-method", "C35", H, "HttpMethod::Patch => BLOCKING_HTTP_CLIENT.patch(*endpoint)", "HttpMethod::Patch => BLOCKING_HTTP_CLIENT.put(*endpoint)"),
 ("h-headers", "C35", H, "for header in &self.config.request_header {", "for header in self.config.request_header.iter().rev().skip(1) {"),
 ("h-first", "C35", H, "let match_value = matches[*match_idx].match_value.as_ref().unwrap();", "let match_value = matches[0].match_value.as_ref().unwrap();"),
 ("h-merge", "C35", H, "matches[match_idx].match_status.merge(status.clone());", "matches[match_idx].match_status = status.clone();"),
 ("h-errlost", "C35", H, """                        *match_status = MatchStatus::Error(fmt::format(format_args!(
                            "Error making HTTP request: {}",
                            err
                        )));
""", "                        let _ = (err, match_status);\n"),
 ("h-errinv", "C35", H, """                        *match_status = MatchStatus::Error(fmt::format(format_args!(
                            "Error making HTTP request: {}",
                            err
                        )));
""", "                        let _ = err; *match_status = MatchStatus::Invalid;\n"),
 ("h-seq-ok", "ok", H, "match_status_per_endpoint_and_match.par_iter_mut().for_each(", "match_status_per_endpoint_and_match.iter_mut().for_each("),
 ("h-gh", "C35", H, "2022-11-28", "2022-11-29"),
 ("h-dd", "C35", H, "vec![403..404]", "vec![400..404]"),
 ("h-dd2", "C35", H, "            \"api.ddog-gov.com\".to_string(),\n", ""),
 ("a-pairs", "C35", W, "for aws_secret_match_idx in &aws_secret_matches_idx {", "for aws_secret_match_idx in aws_secret_matches_idx.iter().take(1) {"),
 ("a-sess", "C35", W, "                    AwsType::AwsSession => {\n", "                    AwsType::AwsSession => {\n                        aws_id_matches_idx.push(idx);\n"),
 ("a-swap", "C35", W, "(*aws_id_match_idx, *aws_secret_match_idx)", "(*aws_secret_match_idx, *aws_id_match_idx)"),
 ("a-merge", "C35", W, "            matches[*secret_index]\n                .match_status\n                .merge(match_status.clone());\n", ""),
 ("a-resp", "C35", W, "if val.status().is_client_error() {", "if val.status().as_u16() == 403 {"),
 ("a-resp2", "C35", W, "if val.status().is_server_error() {", "if val.status().is_server_error() || val.status().is_redirection() {"),
 ("a-sec", "C35", W, "caps[1].to_string()", "caps[0].to_string()"),
 ("a-regex", "C35", W, r"([A-Za-z0-9\/+]{40})\b", r"([A-Za-z0-9\/]{40})\b"),
 ("a-id", "C35", W, "let match_id = &matches[*id_index].match_value;", "let match_id = &matches[*secret_index].match_value;"),
 ("a-date", "C35", W, "if self.config.forced_datetime_utc.is_some() {\n", "if self.config.forced_datetime_utc.is_none() {\n                    datetime = chrono::Utc::now();\n                }\n                if false {\n"),
 ("a-to", "C35", W, "                    .timeout(self.config.timeout)\n", ""),
 ("a-missing", "C35", W, "\"Missing match value for aws_id\"", "\"Missing match value for aws_secret\""),
 ("a-date-ok", "ok", W, """                let mut datetime = chrono::Utc::now();
                if self.config.forced_datetime_utc.is_some() {
                    datetime = self.config.forced_datetime_utc.unwrap()
                }""", "                let datetime = self.config.forced_datetime_utc.unwrap_or_else(chrono::Utc::now);"),
 ("a-let-ok", "ok", W, """                let match_secret = extract_aws_secret_from_match(match_secret.as_ref().unwrap());
                let match_id = match_id.as_ref().unwrap();""", """                let match_id = match_id.as_ref().unwrap();
                let match_secret = extract_aws_secret_from_match(match_secret.as_deref().unwrap());"""),
 ("a-if-ok", "ok", W, """    if val.status().is_client_error() {
        *match_status = MatchStatus::Invalid;
        return;
    }
""", """    let status = val.status();
    if status.is_client_error() {
        *match_status = MatchStatus::Invalid;
        return;
    }
"""),
 ("a-host", "C35", U, "sts.us-east-1.amazonaws.com", "sts.amazonaws.com"),
 ("a-fmt", "C35", U, "%Y%m%dT%H%M%SZ", "%Y%m%dT%H%M%S"),
 ("a-late", "C35", U, "        aws_id,\n        aws_secret,\n", "        aws_secret,\n        aws_id,\n"),
]
M += [
 ("a-regex-ok", "ok", W, r"([A-Za-z0-9\/+]{40})\b", r"([A-Za-z0-9/+]{40})\b"),
 ("a-rename-ok", "ok", W, "    static ref AWS_SECRET_REGEX", "    static ref SECRET_ONLY", W, "AWS_SECRET_REGEX.captures", "SECRET_ONLY.captures"),
 ("a-client-ok", "ok", W, "    static ref AWS_BLOCKING_CLIENT", "    static ref CLIENT", W, "AWS_BLOCKING_CLIENT\n", "CLIENT\n"),
]
