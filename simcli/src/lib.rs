//! The command line client of /repo, compiled from its own sources, with one
//! entry that runs a whole process' worth of it: parse, configure, execute.
#![allow(dead_code)]

include!("/repo/clients/cli/src/main.rs");

/// What `main` does after the process starts, on a caller's executor.
pub async fn invoke(args: Vec<String>) -> std::result::Result<String, String> {
    let cli = Cli::try_parse_from(&args).map_err(|e| format!("arguments: {e}"))?;
    let matches = Cli::command().try_get_matches_from(&args).map_err(|e| format!("arguments: {e}"))?;
    let mut wallet_manager = None;
    let config = Config::new(cli.clone(), matches.clone(), &mut wallet_manager).map_err(|e| format!("configuration: {e}"))?;
    cli.command.execute(&config, &matches, &mut wallet_manager).await.map_err(|e| e.to_string())
}
