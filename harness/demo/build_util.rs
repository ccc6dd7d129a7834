use acorn::builder::BuildStatus;
use acorn::project::{ProjectConfig, UsageMode};
use acorn::prover::{ScoringConfig, ScoringPolicy};
use acorn::verifier::{Verifier, VerifierOutput};
use std::path::Path;

#[allow(dead_code)]
fn put(root: &Path, name: &str, text: &str) {
    let p = root.join(name);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}

#[allow(dead_code)]
fn build(root: &Path, target: Option<&str>, check: bool, jobs: usize, strict: bool) -> VerifierOutput {
    let config = ProjectConfig {
        usage_mode: if check { UsageMode::Check } else { UsageMode::Verify },
        use_filesystem: true,
        read_cache: true,
        write_cache: !check,
        update_version: false,
    };
    let target = target.map(|t| t.to_string());
    let mut v = if check {
        Verifier::new_for_check(root.to_path_buf(), config, target).ok().unwrap()
    } else {
        Verifier::new(root.to_path_buf(), config, target).ok().unwrap()
    };
    v.builder.check_mode = check;
    v.builder.strict = strict;
    v.builder.check_hashes = !check;
    v.builder.check_jobs = jobs;
    v.builder.activation_limit = 300;
    v.builder.scoring_config = ScoringConfig::new(ScoringPolicy::Handcrafted);
    v.run().unwrap()
}

#[allow(dead_code)]
fn name(s: BuildStatus) -> &'static str {
    match s {
        BuildStatus::Good => "good",
        BuildStatus::Warning => "warning",
        BuildStatus::Error => "error",
    }
}
