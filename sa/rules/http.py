"""Checking matches with a service."""
from sa.check import rule
from sa.spec import *
from sa.equiv import compare
from sa.terms import *

H_ = "match_validation::http_validator::"
W_ = "match_validation::aws_validator::"
G_ = "match_validation::config::"


@rule("C35", "configuration, requests sent, reading of the answers and merged statuses of both kinds of validators must equal the reference", floor=20)
def c35(ctx):
    q = [p for p in ctx.F.bodies if p.startswith("<dd_sds::match_validation::config::AwsConfig as ") and p.endswith("::default")]
    compare(ctx, "aws defaults", q[0], "http::aws_default", [])
    compare(ctx, "header", ctx.body(G_ + "RequestHeader::get_value_with_match"), "http::header_value", [P("h"), P("m")])
    compare(ctx, "config", ctx.body(G_ + "HttpValidatorConfig::new"), ["http::config", "http::config2"], [P("endpoint"), P("hosts")])
    B_ = G_ + "HttpValidatorConfigBuilder::"
    compare(ctx, "builder", ctx.body(B_ + "new"), "http::builder", [P("endpoint")])
    for n in ("request_header", "hosts", "method", "valid_http_status_code", "invalid_http_status_code", "timeout"):
        compare(ctx, "set_" + n, ctx.body(B_ + "set_" + n), "http::set_" + n, [P("b"), P("v")], mut=[P("b")], ret=False)
    compare(ctx, "build", ctx.body(B_ + "build"), ["http::build", "http::build2"], [P("b")])
    compare(ctx, "github", ctx.body(H_ + "HttpValidatorHelper::new_github_config_builder"), "http::github", [])
    compare(ctx, "datadog", ctx.body(H_ + "HttpValidatorHelper::new_datadog_config_builder"), "http::datadog", [])
    V_ = G_ + "MatchValidationType::"
    compare(ctx, "can create", ctx.body(V_ + "can_create_match_validator"), "http::can_create", [P("t")])
    compare(ctx, "kind", ctx.body(V_ + "get_internal_match_validation_type"), "http::kind", [P("t")])
    compare(ctx, "validator", ctx.body(V_ + "into_match_validator"), "http::validator", [P("t")])
    compare(ctx, "http answer", ctx.body(H_ + "HttpValidator::handle_reqwest_response"), "http::http_status", [P("v"), P("status"), P("r")], mut=[P("status")], ret=False)
    compare(ctx, "aws answer", ctx.body(W_ + "handle_reqwest_response"), "http::aws_status", [P("status"), P("r")], mut=[P("status")], ret=False)
    hv = [p for p in ctx.F.bodies if p.startswith("<dd_sds::match_validation::http_validator::HttpValidator as ") and p.endswith("MatchValidator>::validate")]
    compare(ctx, "http", hv[0], ["http::http_validate", "http::http_validate2"], params=[P("v"), P("ms"), P("_r")], refparams=[P("v"), P("ms")], ret=False, mut=[P("ms")],
            opaque=["get_value_with_match", "handle_reqwest_response", "MatchStatus::merge"], effects=["send", "merge", "handle_reqwest_response"], heap=True)
    compare(ctx, "aws pairs", ctx.body(W_ + "AwsValidator::get_match_status_per_pairs_of_matches_idx"), "http::aws_pairs", [P("v"), P("ms"), P("rules")], opaque=["get_match_validation_type"])
    compare(ctx, "aws secret", ctx.body(W_ + "extract_aws_secret_from_match"), "http::aws_secret", [P("m")])
    compare(ctx, "aws merge", ctx.body(W_ + "merge_returned_match_status_with_better_status"), "http::aws_merge", [P("ms"), P("found")], mut=[P("ms")], ret=False, opaque=["MatchStatus::merge"], effects=["merge"])
    av = [p for p in ctx.F.bodies if p.startswith("<dd_sds::match_validation::aws_validator::AwsValidator as ") and p.endswith("MatchValidator>::validate")]
    compare(ctx, "aws", av[0], "http::aws_validate", [P("v"), P("ms"), P("rules")], ret=False, mut=[P("ms")],
            opaque=["generate_aws_headers_and_body", "handle_reqwest_response", "extract_aws_secret_from_match", "get_match_status_per_pairs_of_matches_idx", "merge_returned_match_status_with_better_status"],
            effects=["send", "handle_reqwest_response", "merge_returned_match_status_with_better_status"], heap=True)
    compare(ctx, "aws request", ctx.body("generate_aws_headers_and_body"), "http::aws_request", [P("datetime"), P("endpoint"), P("id"), P("secret")], effects=["insert"], order=True)
