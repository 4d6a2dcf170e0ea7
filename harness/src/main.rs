//! Conformance harness: runs the implementation, and records what it does for the specification
//! to judge. Nothing in here decides what's right.

mod drive;
mod env;
mod record;
mod replay;
mod rng;
mod subject;
mod tokens;
mod world;

use std::collections::HashMap;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut named: HashMap<String, String> = HashMap::new();
    for pair in args[2..].iter() {
        if let Some((k, v)) = pair.split_once('=') {
            named.insert(k.into(), v.into());
        }
    }
    let number = |k: &str, default: u64| named.get(k).map(|v| v.parse().unwrap()).unwrap_or(default);
    let seed = number("seed", 1);
    let first = number("first", 0) as usize;
    record::limits(number("patience", 20), number("budget", 120));

    match args[1].as_str() {
        "drive" => {
            record::open(&named["out"], named.contains_key("stepwise"), record::buffer_failure());
            let env = env::Env::new("drive");
            let count = number("count", 10) as usize;
            for name in named["suites"].split(',') {
                for index in first..first + count {
                    drive::run(name, seed, index, &env);
                }
            }
            drop(env);
            record::close();
        }
        "workspaces" => {
            record::open(&named["out"], named.contains_key("stepwise"), world::failure());
            let world = world::World::new("ws");
            let count = number("count", 10) as usize;
            for name in named["suites"].split(',') {
                for index in first..first + count {
                    world::run(name, seed, index, &world);
                }
            }
            drop(world);
            record::close();
        }
        "segments" => drive::segments(&named["out"], seed),
        "script" => {
            let execution: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&named["in"]).unwrap()).unwrap();
            let stepwise = named.contains_key("stepwise");
            match named["kind"].as_str() {
                "workspace" => {
                    record::open(&named["out"], stepwise, world::failure());
                    world::script(&execution, &world::World::new("script"));
                }
                "tokens" => {
                    record::open(&named["out"], stepwise, tokens::failure());
                    tokens::script(&execution, &mut tokens::workspace(), &tokens::with_own_syntaxes());
                }
                _ => {
                    record::open(&named["out"], stepwise, record::buffer_failure());
                    drive::script(&execution, &env::Env::new("script"));
                }
            }
            record::close();
        }
        "world" => println!("{}", serde_json::to_string(&world::describe()).unwrap()),
        "replay" => replay::main(
            &named["in"],
            &named["out"],
            replay::Options {
                files: named.contains_key("files"),
                stepwise: named.contains_key("stepwise"),
                workspaces: named.contains_key("workspaces"),
                tokens: named.contains_key("tokens"),
                shard: (number("shard", 0) as usize, number("shards", 1) as usize),
            },
        ),
        "tokens" => {
            record::open(&named["out"], named.contains_key("stepwise"), tokens::failure());
            let (mut ws, reference) = (tokens::workspace(), tokens::with_own_syntaxes());
            let count = number("count", 10) as usize;
            for name in named["suites"].split(',') {
                for index in first..first + count {
                    tokens::run(name, seed, index, &mut ws, &reference);
                }
            }
            record::close();
        }
        other => panic!("unknown command {}", other),
    }
}
